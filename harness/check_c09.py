"""C09: nothing depends on what was done before."""
import base64
import gzip
import io
import json
import os
import random
import re
import subprocess
import sys

import exrun
from exgen import Gen
from vlib import REPO, digest, guarded, pmap, split_even

ENV = 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Transparent\nINVARIANT Sound\nINVARIANT Bounded\nINVARIANT Recent\nPROPERTY Stays\nCONSTANT Keys = %d\nCONSTANT Limit = %d\nCONSTANT MaxParses = %d\nCONSTANT MaxActs = %d\n'

# ------------------------------------------------------- exchanges as plain data
# {'req': [scheme, method, target, version, headers, body, trailers] or None,
#  'resps': [[version, status, reason, headers, body, trailers], ...]}; octets as latin-1 text

NAMES = ['Accept', 'Accept-Encoding', 'Accept-Language', 'Allow', 'Cache-Control', 'Connection', 'Content-Encoding', 'Content-Type', 'Content-Disposition', 'Link', 'Pragma', 'Prefer',
         'Preference-Applied', 'Server', 'TE', 'Trailer', 'Transfer-Encoding', 'Upgrade', 'User-Agent', 'Vary', 'Via', 'Warning', 'WWW-Authenticate', 'Authorization', 'X-Foo', 'Expect', 'ETag',
         'If-None-Match', 'If-Match', 'If-Range', 'Range', 'Age', 'Content-Length', 'Date', 'Expires', 'Last-Modified', 'Retry-After', 'Location', 'Forwarded', 'Alt-Svc', 'Set-Cookie', 'Cookie', 'Host']
VALUES = ['gzip', 'close', 'foo', 'GET', 'gzip, foo', 'foo;q=0.5', 'text/html', 'text/html;charset=utf-8', 'max-age=5', 'foo="bar"', 'foo=bar', '"x"', 'W/"x"', '"x", "y"', '*', '5', '0', 'bytes=0-5', 'bytes',
          'Fri, 01 Jan 2016 10:00:00 GMT', 'Fri, 01 Jan 2016 10:00:00 +0000', 'Basic Zm9vOmJhcg==', 'Basic realm="x"', '1.1 foo', '<a>; rel=next', 'attachment; filename="a"', 'HTTP/2', 'no-cache', 'trailers',
          'h2=":443"', 'for=a', 'example.com', '/x', '100-continue', '110 - "x"', 'chunked', '', ',', 'a b', 'foo (bar)', 'respond-async', 'wait=5', 'return=minimal', 'gzip, gzip', 'xn--x', 'a=b; c=d']
BODIES = [None, '', '', 'x', '{"a": 1}', '{"a": 1', '<a/>', '<a', 'a=b&c=%41', 'a=b c', '\xff\xfe', '--b\r\nContent-Type: text/plain\r\n\r\nx\r\n--b--\r\n', gzip.compress(b'{"a": [1]}', mtime=0).decode('latin-1'),
          '{"type": "about:blank", "title": 1}']
TYPES = ['application/json', 'text/plain', 'application/xml', 'application/x-www-form-urlencoded', 'multipart/form-data; boundary=b', 'application/problem+json', 'text/html; charset=foo', 'image/png']


def shared(rng):
    """An exchange with texts that others have, perhaps in another place."""
    def msg():
        hs = [(rng.choice(NAMES), rng.choice(VALUES)) for _ in range(rng.randint(0, 5))]
        if rng.random() < .5:
            hs.append(('Content-Type', rng.choice(TYPES)))
        if rng.random() < .2:
            hs.append(('Content-Encoding', 'gzip'))
        return hs, rng.choice(BODIES), [(rng.choice(NAMES), rng.choice(VALUES))] if rng.random() < .1 else []
    ver = lambda: rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None])
    req = None
    if rng.random() < .9:
        h, b, t = msg()
        req = [rng.choice(['http', 'https', None]), rng.choice(['GET', 'POST', 'PUT', 'HEAD', 'OPTIONS', 'foo']), rng.choice(['/', '/x', '*', 'http://example.com/x', 'foo', '/a b']), ver(), h, b, t]
    resps = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        h, b, t = msg()
        resps.append([ver(), rng.choice([100, 101, 200, 200, 201, 204, 206, 301, 304, 401, 404, 405, 426, 500]), rng.choice(['OK', '', None]), h, b, t])
    return {'req': req, 'resps': resps}


def text(b):
    return b.decode('latin-1') if isinstance(b, bytes) else b


def from_gen(ex):
    def hs(m, t):
        return [(text(e['name']), text(e['raw'])) for e in m['hdrs'] if e['t'] is t]
    def body(m):
        return text(m['bodytext']) if m['bodytext'] is None or isinstance(m['bodytext'], (str, bytes)) else None
    dash = lambda x: None if x == '-' else x
    req = None
    if 'none' not in ex['req']:
        m = ex['req']
        req = [dash(m['scheme']), m['method'], m['tgt']['text'], dash(m['ver']), hs(m, False), body(m), hs(m, True)]
    return {'req': req, 'resps': [[dash(m['ver']), m['status'], m['reasontext'], hs(m, False), body(m), hs(m, True)] for m in ex['resps']]}


def make(x):
    import httpolice
    oc = lambda hs: [(n, v.encode('latin-1')) for n, v in hs]
    b = lambda s: s if s is None else s.encode('latin-1')
    req = None
    if x['req']:
        s, m, t, v, h, body, tr = x['req']
        req = httpolice.Request(s, m, t, v, oc(h), b(body), oc(tr))
    return httpolice.Exchange(req, [httpolice.Response(v, st, r, oc(h), b(body), oc(tr)) for v, st, r, h, body, tr in x['resps']])


def parts(exch):
    return ([exch.request] if exch.request is not None else []) + list(exch.responses)


def shown(exch):
    """What the exchange shows now; nothing here derives data which was not asked for."""
    import httpolice
    n = [sorted([c.id for c in o.notices]) for o in [exch] + parts(exch)]
    t, h = io.BytesIO(), io.BytesIO()
    httpolice.text_report([exch], t)
    httpolice.html_report([exch], h)
    data = [[repr(getattr(m, a, '')) for a in ('decoded_body', 'unicode_body', 'json_data')] for m in parts(exch)]
    return {'n': n if any(n) else [], 't': digest(sorted(t.getvalue().decode().splitlines())), 'h': digest(canonical(h.getvalue().decode())), 'd': digest(data)}


def canonical(html):
    """References are numbered in no particular order: number them by their first appearance."""
    num = {}
    def ids(m):
        return '%s="%s"' % (m.group(1), ' '.join('%06d' % k for k in sorted(num.setdefault(i, len(num)) for i in m.group(2).split())))
    html = re.sub('(data-ref-id)="([0-9 ]*)"', ids, html)
    html = re.sub('(data-ref-to)="([0-9 ]*)"', ids, html)
    # alternatives ("as part of a or b") come in no particular order
    return '\n'.join(' '.join(sorted(re.split('[ ,()]+', re.sub('</?p>', ' ', s)))) for s in html.splitlines())


def notices_only(exch):
    n = [sorted([c.id for c in o.notices]) for o in [exch] + parts(exch)]
    return {'n': n if any(n) else [], 't': '', 'h': '', 'd': ''}


def check(x):
    import httpolice
    exch = make(x)
    httpolice.check_exchange(exch)
    return shown(exch)


# -------------------------------------------------------- in a fresh process

def forked(func, *args):
    """func(*args) in a child process, as plain data."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                json.dump(guarded(func, *args), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s)


def fresh_batch(args):
    func, xs = args
    import httpolice        # pylint: disable=unused-import
    from httpolice.syntax import rfc7230, rfc7231   # pylint: disable=unused-import
    return [forked(FUNCS[func], *x) for x in xs]


# -------------------------------------------------------------------- parses

DATA = ['foo', 'foo, bar', '"x"', '', 'foo;q=0.5', '*', '12', 'example.com:80', 'foo (bar)', 'text/html;q=0.5', '1.1 foo', ' foo', 'Basic x', 'é']
SYMBOLS = [('rfc7230', 'token'), ('rfc7230', 'quoted_string'), ('rfc7230', 'Host'), ('rfc7230', 'Connection'), ('rfc7230', 'Transfer_Encoding'), ('rfc7230', 'TE'), ('rfc7230', 'Via'), ('rfc7230', 'Content_Length'),
           ('rfc7231', 'Accept'), ('rfc7231', 'Accept_Encoding'), ('rfc7231', 'Allow'), ('rfc7231', 'User_Agent'), ('rfc7231', 'Vary'), ('rfc7231', 'Content_Type'), ('rfc7235', 'WWW_Authenticate'), ('rfc7234', 'Cache_Control')]
KINDS = ['raise', 'notice', 'annotate', 'both', 'text', 'quiet']


def one_parse(key):
    """Parse; the outcome as plain data."""
    import importlib
    from httpolice import parse as p, structure
    data, (mod, sym), kind = key
    symbol = getattr(importlib.import_module('httpolice.syntax.' + mod), sym)
    said = []
    kw = {}
    if kind in ('notice', 'both', 'text'):
        kw['fail_notice_id'] = 1000
    if kind in ('annotate', 'both'):
        kw['annotate_classes'] = [structure.CaseInsensitive] if kind == 'annotate' else [structure.CaseInsensitive, structure.ProductName]
    given = data if kind in ('text', 'quiet') else data.encode('latin-1')
    try:
        v = p.parse(given, symbol, None if kind == 'quiet' else (lambda i, **ctx: said.append([i, sorted((a, ctx[a].__class__.__name__ + str(getattr(ctx[a], 'position', '')) if a == 'error' else repr(ctx[a])) for a in ctx)])), where=kind + data, **kw)
        return {'ok': True, 'v': repr(v), 'said': [[i, [list(c) for c in cs]] for i, cs in said]}
    except p.ParseError as e:
        return {'ok': False, 'v': repr([e.position, e.found, [(d, sorted(repr(getattr(s, 'name', s)) for s in ss or [])) for d, ss in e.expected]]), 'said': []}


def parse_history(args):
    """Replay a history over keys; returns the record."""
    keys, fresh, hist, limit, noise = args
    from httpolice import parse as p
    saved = getattr(p, 'MEMO_LIMIT', None)
    if limit and saved is not None:
        p.MEMO_LIMIT = limit
    outs = []
    try:
        for n, k in enumerate(hist):
            if noise and n % 7 == 3:
                for j in range(noise):
                    one_parse(('n%d-%d' % (n, j), SYMBOLS[0], 'raise'))
            outs.append(one_parse(keys[k - 1]))
    finally:
        if saved is not None:
            p.MEMO_LIMIT = saved
    return {'kind': 'parses', 'fresh': [fresh[json.dumps(k)] for k in keys], 'hist': hist, 'outs': [{'ok': o['ok'], 'v': digest(o)} for o in outs], 'limit': limit or 500}


FUNCS = {'check': check, 'one_parse': one_parse}
# (others explain themselves by a notice when they are needed)
READS = ['decoded_body', 'unicode_body', 'json_data', 'xml_data', 'multipart_data', 'url_encoded_data', 'annotated_header_entries', 'effective_uri', 'target_form', 'displayable_body', 'body_charset', 'content_is_full', 'guessed_charset', 'headers']


def read_something(exch, rng):
    for m in parts(exch):
        for a in rng.sample(READS, 3):
            x = getattr(m, a, None)
            if a == 'headers':
                for e in m.header_entries:
                    try:
                        v = getattr(x, str(e.name).lower().replace('-', '_'))
                        repr(v.value), v.is_okay, v.is_present
                    except AttributeError:
                        pass


def act_history(args):
    import httpolice
    xs, hist, noise, seed = args
    rng = random.Random(seed)
    exchs = [make(x) for x in xs]
    st = ['new' for _ in xs]
    steps = []
    for e in hist:
        o, a = e['o'] - 1, e['a']
        again = {'n': [], 't': '', 'h': '', 'd': ''}
        if a == 'check':
            httpolice.check_exchange(exchs[o])
            st[o] = 'checked'
        elif a == 'read':
            read_something(exchs[o], rng)
        elif a == 'report':
            rng.choice([httpolice.text_report, httpolice.html_report])([exchs[o]] if rng.random() < .5 else exchs, io.BytesIO())
            for k in range(len(st)):
                st[k] = 'read' if st[k] == 'new' else st[k]
        elif a == 'again':
            again = check(xs[o])
        elif a == 'others':
            for n in noise:
                httpolice.check_exchange(make(n))
        steps.append({'o': e['o'], 'a': a, 'seen': [shown(x) if s == 'checked' else notices_only(x) for x, s in zip(exchs, st)], 'again': again})
    return steps


def batch(args):
    out = []
    for kind, rec in args:
        if kind == 'parses':
            res = guarded(parse_history, rec)
            r = res[1] if res[0] == 'ok' else {'kind': 'parses', 'fresh': [], 'hist': [], 'outs': [], 'limit': 1}
        else:
            fresh = rec[4]
            res = guarded(act_history, rec[:4])
            r = {'kind': 'acts', 'fresh': fresh, 'steps': res[1] if res[0] == 'ok' else []}
        r['exc'] = '' if res[0] == 'ok' else res[1]
        out.append(r)
    return out


OTHER = '''
import json, sys
sys.path[:0] = %r
import check_c09
for line in sys.stdin:
    r = check_c09.guarded(check_c09.check, json.loads(line))
    print(json.dumps(r), flush=True)
'''


def other_process(args):
    seed, xs = args
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', OTHER % [REPO, os.path.dirname(os.path.abspath(__file__))]], input=''.join(json.dumps(x) + '\n' for x in xs).encode(),
                       env=dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=REPO), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, check=False)
    return [json.loads(line) for line in p.stdout.decode().splitlines()]


def run(chk):
    rng = chk.rng
    r = chk.explore('MemoEnv', ENV % chk.scale((4, 2, 6, 3), (5, 2, 7, 4)), workers=8, heap='4g')
    parses = sorted([x['hist'] for x in r.prints if x['kind'] == 'parses'])
    acts = sorted([x['hist'] for x in r.prints if x['kind'] == 'acts'], key=str)
    chk.notes['histories_enumerated'] = {'parses': len(parses), 'acts': len(acts)}
    if len(parses) > chk.scale(1500, 20000):
        parses = rng.sample(parses, chk.scale(1500, 20000))
    if len(acts) > chk.scale(700, 8000):
        acts = rng.sample(acts, chk.scale(700, 8000))
    # what a fresh process says
    keys = [(d, s, k) for d in DATA for s in SYMBOLS for k in KINDS]
    keys = rng.sample(keys, chk.scale(500, len(keys)))
    pool = [shared(rng) for _ in range(chk.scale(350, 4000))]
    gens = [Gen(rng, bad=b, few=few) for b, few in ((.12, 4), (.25, 6))]
    for k in range(chk.scale(250, 3000)):
        pool.append(from_gen(exrun.concretize(gens[k % 2].exchange(), rng, now=1500000000)))
    table = [x for part in pmap(fresh_batch, [('one_parse', [(k,) for k in p]) for p in split_even(keys, 16)]) for x in part]
    order = [k for p in split_even(keys, 16) for k in p]
    fresh = {json.dumps(k): {'ok': x[0] == 'ok' and x[1]['ok'], 'v': digest(x[1])} for k, x in zip(order, table)}
    seen = [x for part in pmap(fresh_batch, [('check', [(x,) for x in p]) for p in split_even(pool, 16)]) for x in part]
    pool = [x for p in split_even(pool, 16) for x in p]
    recs = []
    for x, s in zip(pool, seen):
        if s[0] != 'ok':
            recs.append(({'kind': 'acts', 'fresh': [], 'steps': [], 'exc': s[1]}, x))
    good = [(x, s[1]) for x, s in zip(pool, seen) if s[0] == 'ok']
    chk.notes['exchanges_with_notices'] = sum(bool(s['n']) for _, s in good)
    # another process, checking them one after another in another order
    for seed in ('1', '2') if not chk.thorough else map(str, range(1, 9)):
        xs = rng.sample(good, len(good))
        got = other_process((seed, [x for x, _ in xs]))
        for (x, s), g in zip(xs, got + [['lost', 'no answer']] * (len(xs) - len(got))):
            recs.append(({'kind': 'process', 'one': dict(s, h='', t=''), 'other': dict(g[1], h='', t='') if g[0] == 'ok' else {'n': [], 't': '', 'h': '', 'd': ''}, 'exc': '' if g[0] == 'ok' else g[1]}, x))
    jobs = []
    for h in parses:
        ks = rng.sample(keys, 5)
        if rng.random() < .7:       # the same text in several ways
            d = rng.choice(keys)[0]
            same = [k for k in keys if k[0] == d]
            ks = (rng.sample(same, min(4, len(same))) + ks)[:5]
        jobs.append(('parses', (ks, fresh, h, rng.choice([1, 2, 2, 3, 0]), 0)))
    for _ in range(chk.scale(24, 400)):
        ks = rng.sample(keys, 12)
        jobs.append(('parses', (ks, fresh, [rng.randint(1, 12) for _ in range(60)], 0, 120)))
    noise = [shared(rng) for _ in range(40)]
    for k, h in enumerate(acts):
        two = rng.sample(good, 2)
        jobs.append(('acts', ([x for x, _ in two], h, [n for n in rng.sample(noise, 3)], '%s/%d' % (chk.seed, k), [s for _, s in two])))
    for k in range(chk.scale(300, 3000)):      # longer, over more exchanges
        some = rng.sample(good, rng.randint(2, 4))
        h = [{'o': rng.randint(1, len(some)), 'a': rng.choice(['check', 'check', 'again', 'read', 'report', 'others'])} for _ in range(rng.randint(5, 10))]
        jobs.append(('acts', ([x for x, _ in some], h, [shared(rng) for _ in range(rng.choice([1, 5, 40]))] , '%s/r%d' % (chk.seed, k), [s for _, s in some])))
    rng.shuffle(jobs)
    for part, out in zip(split_even(jobs, 16), pmap(batch, split_even(jobs, 16))):
        recs += [(r_, j[1][0] if j[0] == 'acts' else [j[1][0], j[1][2]]) for r_, j in zip(out, part)]
    verdicts = chk.judge('TraceMemo', 'INIT Init\nNEXT Next\n', [r_ for r_, _ in recs])
    for (rec, about), bad in zip(recs, verdicts):
        if bad:
            chk.fail(bad, {'kind': rec['kind'], 'about': about, 'history': [[s['o'], s['a']] for s in rec['steps']] if rec['kind'] == 'acts' else rec.get('hist', ''), 'exc': rec['exc']})
    for (rec, about) in recs[-3:]:
        chk.sample({'kind': rec['kind'], 'about': about})
