"""C37: the helper functions."""
from collections import OrderedDict

from vlib import guarded, pmap, split_even

ENV = 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Loop\nCONSTANT MaxLen = %d\n'


#: what names of variables are made of
PIECES = ['HTTP', 'HTTP', 'HTTP_X', 'X', 'CONTENT', 'LENGTH', 'HOST', 'TYPE', '', 'A1', '2B', 'x', 'HTTPS', 'HTTP_HTTP', 'Ab', 'CGI']


def codes(s):
    return list(s) if isinstance(s, bytes) else [ord(c) for c in s]


def text(x):
    return ''.join(map(chr, x))


def one(case, rng):
    import httpolice
    from httpolice import helpers
    entries = [(text(e['n']), text(e['v'])) for e in case['list']]
    if case['kind'] == 'pop':
        given = [(n, v.encode('iso-8859-1', 'replace')) for n, v in entries]
        case = dict(case, list=[{'n': codes(n), 'v': codes(v)} for n, v in given])
        got = helpers.pop_pseudo_headers(given)
        return dict(case, left=[{'n': codes(n), 'v': codes(v)} for n, v in given], map=[{'n': codes(n), 'v': codes(v)} for n, v in got.items()], exc='')
    env = OrderedDict()
    for n, v in entries:
        form = rng.random()
        if v.isdigit() and v.isascii() and str(int(v)) == v and form < .3:
            env[n] = int(v)
        elif form < .5 and all(ord(c) < 256 for c in v):
            env[n] = v.encode('iso-8859-1')
        else:
            env[n] = v
    if any(env[n] == 0 and env[n] != '' for n in env):      # 0 as a number counts as empty or not: leave it open
        env = OrderedDict((n, str(v) if v == 0 else v) for n, v in env.items())
    before = list(env.items())
    r = helpers.headers_from_cgi(env)
    if list(env.items()) != before:
        raise ValueError('the mapping was changed')
    httpolice.check_exchange(httpolice.Exchange(httpolice.Request('http', 'GET', '/', 'HTTP/1.1', r, b''), []))
    return dict(case, left=[{'n': codes(n), 'v': codes(v)} for n, v in r], map=[], exc='')


def batch(args):
    import random
    seed, cases = args
    out = []
    for n, case in cases:
        res = guarded(one, case, random.Random('%s/%d' % (seed, n)))
        out.append((case, res[1] if res[0] == 'ok' else dict(case, left=[], map=[], exc=res[1])))
    return out


def run(chk):
    rng = chk.rng
    r = chk.explore('HelpersEnv', ENV % chk.scale(3, 4), workers=4)
    cases = sorted(r.prints, key=str)
    chk.notes['lists_enumerated'] = len(cases)
    if len(cases) > chk.scale(6000, 60000):
        cases = rng.sample(cases, chk.scale(6000, 60000))
    names = ['HTTP_HOST', 'HTTP_ACCEPT', 'HTTP_X_FOO_BAR', 'HTTP_X1', 'HTTP_A__B', 'HTTP_TE', 'HTTP__X', 'HTTP_ETAG', 'CONTENT_LENGTH', 'CONTENT_TYPE', 'HTTP_CONTENT_LENGTH', 'HTTPS', 'HTTP', 'REQUEST_METHOD',
             'SERVER_NAME', 'REMOTE_ADDR', 'wsgi.input', 'http_foo', 'CONTENT_MD5', 'HTTP_http', 'REDIRECT_HTTP_X', 'HTTP_HOST_', 'HTTP_X-Y', '']
    pseudo = [':method', ':path', ':authority', ':scheme', ':status', ':', '::', 'a', 'Host', 'x:y', 'cookie', 'cookie', ' :a', 'a:', ':method', '']
    values = ['', '0', '1', 'a b', 'example.com', '12', 'é', 'ÿ', '☃', ' ', '007', 'text/html; charset=utf-8', 'a,b', '\t']
    for _ in range(chk.scale(3000, 60000)):
        if rng.random() < .4:
            es = [(rng.choice(pseudo), rng.choice(values)) for _ in range(rng.randint(0, 12))]
            cases.append({'kind': 'pop', 'list': [{'n': codes(n), 'v': codes(v)} for n, v in es]})
        else:
            own = {'_'.join(rng.choice(PIECES) for _ in range(rng.randint(1, 5))) for _ in range(rng.randint(0, 4))} - set(names)
            pool = names + sorted(own)
            es = [(n, rng.choice(values)) for n in rng.sample(pool, rng.randint(0, len(pool)))]
            cases.append({'kind': 'cgi', 'list': [{'n': codes(n), 'v': codes(v)} for n, v in es]})
    recs = [x for part in pmap(batch, [('%s/%d' % (chk.pid, chk.seed), p) for p in split_even(list(enumerate(cases)), 16)]) for x in part]
    for (case, rec), bad in zip(recs, chk.judge('TraceHelpers', 'INIT Init\nNEXT Next\n', [x[1] for x in recs])):
        if bad:
            chk.fail(bad, {'kind': rec['kind'], 'list': [[text(e['n']), text(e['v'])] for e in rec['list']], 'left': [[text(e['n']), text(e['v'])] for e in rec['left']], 'exc': rec['exc']})
    chk.sample({'kind': 'cgi', 'list': [[text(e['n']), text(e['v'])] for e in cases[-1]['list']]})
