"""C07: fields of the same name."""
import operator
import re

from headers import RESPONSE, grammar_dump
from lexgen import Lex
from vlib import guarded, octets, pmap, split_even

ENV = 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Independent\nINVARIANT Lists1\nINVARIANT Joined\nCONSTANT MaxEntries = %d\n'
TOKENS = ['accept-ranges', 'access-control-expose-headers', 'allow', 'connection', 'content-encoding', 'trailer', 'vary']
PARAMS = ['te', 'transfer-encoding', 'accept-encoding', 'accept-charset', 'prefer', 'cache-control', 'pragma']
TAGS = ['if-match', 'if-none-match']
NUMBERS = ['age', 'content-length', 'max-forwards', 'access-control-max-age']
OTHERS = ['content-type', 'etag', 'content-location']
VALUED = TOKENS + PARAMS + TAGS + NUMBERS + OTHERS
UNKNOWN = ['x-foo', 'foo', 'set-cookie', 'cookie', 'x-y', 'content-md5', 'if', 'if-schedule-tag-match', 'keep-alive', 'proxy-connection', 'dnt', 'sec-websocket-key']
SINGLETON = {'vary': ['*'], 'if-match': ['*'], 'if-none-match': ['*'], 'accept-ranges': ['none', 'None'], 'alt-svc': ['clear']}
OPS = {'lt': operator.lt, 'le': operator.le, 'eq': operator.eq, 'ne': operator.ne, 'ge': operator.ge, 'gt': operator.gt}


def text(n, x):
    """An item of a header's value as text."""
    if isinstance(x, int):
        return [int(x)]
    if n in TAGS + ['etag'] and not isinstance(x, str):
        return octets(('W/' if x.weak else '') + '"%s"' % x.opaque_tag.strip('"'))
    if not isinstance(x, (str, bytes)) and hasattr(x, 'item'):
        return text(n, x.item)
    if isinstance(x, bytes):
        return list(x)
    return [ord(c) for c in (x if n in ('allow', 'content-location') else x.lower())]


def view(msg, n):
    from httpolice.structure import FieldName, Unavailable
    v = msg.headers[FieldName(n)]
    val = v.value
    k = 'absent' if val is None else 'malformed' if isinstance(val, Unavailable) else 'list' if isinstance(val, list) else 'one'
    vs = []
    if n in VALUED or isinstance(val, bytes):
        vs = [text(n, x) for x in v] if k == 'list' else [text(n, val)] if k == 'one' else []
    return {'n': n, 'present': bool(v.is_present), 'k': k, 'vs': vs}


def observe(case):
    import httpolice
    from httpolice.structure import FieldName
    hs = [(e['name'], bytes(e['s'])) for e in case['m'] if not e['t']]
    tr = [(e['name'], bytes(e['s'])) for e in case['m'] if e['t']]
    if case['resp']:
        msg = httpolice.Response('HTTP/1.1', 200, 'OK', hs, None, tr)
        ex = httpolice.Exchange(None, [msg])
    else:
        msg = httpolice.Request('http', 'GET', '/', 'HTTP/1.1', hs, None, tr)
        ex = httpolice.Exchange(msg, [])
    views, queries = [], []
    def look():
        views.extend(view(msg, n) for n in sorted({e['n'] for e in case['m']} | set(case['also'])))
        for n, op, x in case['asks']:
            v = msg.headers[FieldName(n)]
            r = (x in v) if op == 'in' else OPS[op](v, x)
            if not isinstance(r, bool):
                raise ValueError('%s %s gives %r' % (n, op, r))
            queries.append({'n': n, 'op': op, 'x': x if op != 'in' else octets(x), 'r': r})
    if case['early']:
        look()                          # asking before the check must not change what is reported
    httpolice.check_exchange(ex)
    if not case['early']:
        look()
    ids = [c.id for c in msg.notices]
    return {'ids': [ids.count(1013), ids.count(1026)], 'views': views, 'queries': queries}


def run_one(case):
    res = guarded(observe, case)
    m = [{'n': e['n'], 'el': e['el'], 's': e['s'], 't': e['t']} for e in case['m']]
    if res[0] == 'ok':
        return dict(res[1], m=m, exc='')
    return {'m': m, 'ids': [0, 0], 'views': [], 'queries': [], 'exc': res[1]}


def batch(cases):
    return [run_one(c) for c in cases]


def spell(n, rng):
    return n if rng.random() < .4 else n.title() if rng.random() < .7 else n.upper()


def finish(m, rng, elements):
    """Choose spellings, what to look at and what to ask."""
    for e in m:
        e['name'] = spell(e['n'], rng)
    ns = sorted({e['n'] for e in m})
    also = [n for n in rng.sample(VALUED + ['x-none'], 2)]
    asks = []
    for n in ns + also:
        if n in NUMBERS:
            asks += [(n, rng.choice(list(OPS)), rng.choice([0, 1, 2, 10, 60])) for _ in range(2)]
        elif n in TOKENS + ['te', 'transfer-encoding', 'accept-encoding']:
            here = [w for e in m if e['n'] == n for w in re.findall(r"[A-Za-z0-9*-]+", bytes(e['s']).decode('latin-1'))]
            for _ in range(2):
                x = rng.choice(here) if here and rng.random() < .7 else rng.choice(['close', 'chunked', 'gzip', 'bytes', 'GET', 'accept', 'date', 'none', '*'])
                asks.append((n, 'in', x if n == 'allow' else x.lower()))
    # In a singleton, membership is about the characters: not asked
    single = {e['n'] for e in m if bytes(e['s']).decode('latin-1') in SINGLETON.get(e['n'], ()) or bytes(e['s']).lower() == b'none'}
    asks = [a for a in asks if not (a[1] == 'in' and a[0] in single)]
    return {'m': m, 'resp': any(n in RESPONSE for n in ns) or rng.random() < .3, 'also': also, 'asks': asks, 'early': rng.random() < .3}


def rand_msg(rng, lex, names):
    m = []
    k = rng.randint(1, 2)
    chosen = [rng.choice(VALUED + ['alt-svc']) if rng.random() < .6 else rng.choice(names) for _ in range(k)]
    for _ in range(rng.randint(2, 5)):
        n = rng.choice(chosen)
        el = 'h_' + n.replace('-', '_')
        if el not in lex.el:
            el, s = '', rng.choice(['', 'a', 'a, b', ';', '"', 'x=y'])
        elif n in SINGLETON and rng.random() < .3:
            s = rng.choice(SINGLETON[n])
        elif n in NUMBERS and rng.random() < .6:
            s = rng.choice(['0', '1', '2', '10', '60', '007'])
        else:
            s = lex.sentence(el)
            if rng.random() < .25:
                s = lex.mutate(s)
        if len(s) > 80 or re.search(r'\d{9}', s) or (n == 'httpolice-silence' and re.search('10[12]', s)):
            s = 'x'
        m.append({'n': n, 'el': el, 's': octets(s), 't': rng.random() < .25})
    m.sort(key=lambda e: e['t'])
    return m


def show(case):
    return ['%s%s: %s' % ('(trailer) ' if e['t'] else '', e['name'], repr(bytes(e['s']).decode('latin-1'))) for e in case['m']]


def run(chk):
    rng = chk.rng
    r = chk.explore('CombineEnv', ENV % chk.scale(2, 3), workers=4, heap='4g')
    small = sorted(r.prints, key=str)
    chk.notes['messages_enumerated'] = len(small)
    lim = chk.scale(6000, 80000)
    if len(small) > lim:
        small = rng.sample(small, lim)
    lex = Lex(rng, grammar_dump(chk))
    names = sorted(e[2:].replace('_', '-') for e in lex.el if e.startswith('h_')) + UNKNOWN
    cases = [finish([dict(e) for e in m], rng, lex.el) for m in small]
    cases += [finish(rand_msg(rng, lex, names), rng, lex.el) for _ in range(chk.scale(7000, 150000))]
    parts = split_even(cases, 16)
    recs = [x for p in pmap(batch, parts) for x in p]
    order = [c for p in parts for c in p]
    for c, rec, bad in zip(order, recs, chk.judge('TraceCombine', 'INIT Init\nNEXT Next\n', recs)):
        if bad:
            chk.fail(bad, {'fields': show(c), 'ids': rec['ids'], 'views': rec['views'], 'queries': rec['queries'], 'exc': rec['exc']})
    for c in cases[-3:]:
        chk.sample(show(c))
