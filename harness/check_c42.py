"""C42: the same message in another arrangement of its header fields."""
import collections
import random

import check_c09
import exrun
from exgen import Gen
from vlib import guarded, octets, pmap, split_even

ENV = 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Keeps\nINVARIANT Replays\nINVARIANT Undone\nCONSTANT MaxFields = %d\nCONSTANT MaxSteps = %d\n'
#: more than one element, where it matters what they are
LISTS = {'Accept': ['text/html;q=0.5, */*;q=0.1', 'text/*, application/json', '*/*;q=0, a/b'], 'Accept-Charset': ['utf-8, *;q=0', 'utf-8;q=0.5, foo'], 'Accept-Encoding': ['gzip, identity;q=0', 'x-gzip, br', 'br;q=0, gzip'],
         'Accept-Language': ['en, de;q=0.5', 'en, en', '*, fr'], 'Allow': ['GET, HEAD', 'PUT, FOO', 'GET, PUT, POST'], 'Cache-Control': ['no-cache, max-age=5', 'max-age=5, max-age=6', 'private="set-cookie, foo", no-store', 'no-store, public', 's-maxage=1, foo'],
         'Connection': ['close, upgrade', 'te, upgrade', 'keep-alive, host', 'close, close'], 'Content-Encoding': ['gzip, br', 'gzip, identity'], 'Content-Language': ['en, de'], 'Forwarded': ['for=a, for=_b', 'for="[::1]", host=a;proto=http'],
         'If-Match': ['"a", "b"', 'W/"a", "b,c"'], 'If-None-Match': ['"a", W/"b"', '"x", "x"'], 'Link': ['</a>; rel=next, </b>; rel="blocked-by"', '<a,b>; rel=next, </c>'], 'Pragma': ['no-cache, foo', 'foo=bar, no-cache'],
         'Prefer': ['respond-async, wait=5', 'return=minimal, return=representation', 'wait=5, wait=6', 'handling=lenient, foo'], 'Preference-Applied': ['return=minimal, respond-async', 'foo, wait=5'], 'TE': ['trailers, gzip', 'gzip, chunked', 'gzip;q=0.5, foo'],
         'Trailer': ['Date, Foo', 'Foo, Content-Length'], 'Transfer-Encoding': ['gzip, chunked', 'chunked, gzip', 'chunked, chunked', 'gzip, gzip, chunked'], 'Upgrade': ['h2c, websocket', 'h2, foo', 'TLS/1.0, HTTP/1.1'],
         'Vary': ['accept, host', 'foo, cookie', 'user-agent, prefer'], 'Via': ['1.1 a, 1.0 b (x, y)', '1.1 a, 1.1 a'], 'Warning': ['110 - "x", 199 a "b, c"', '214 - "x", 299 - "y"', '112 a "x" "Fri, 01 Jan 2016 10:00:00 GMT", 113 - "y"'],
         'Accept-Ranges': ['bytes, foo'], 'Accept-Patch': ['text/html, a/b'], 'Accept-Post': ['a/b, c/d'], 'Alt-Svc': ['h2=":443", h3=":1"; persist=1', 'h2=":443"; ma=5, http%2F1.1=":80"'], 'Content-Disposition': ['a'], 'Expect': ['100-continue'],
         'Access-Control-Allow-Headers': ['a, b'], 'Access-Control-Allow-Methods': ['GET, PUT'], 'Access-Control-Expose-Headers': ['a, b'], 'Access-Control-Request-Headers': ['a, b'], 'HTTPolice-Silence': ['1070, 1110', '1041, 1047 resp']}
NAMES = [n for n in LISTS if n not in ('Content-Disposition', 'Expect')]
SPLIT = [n for n in NAMES if n != 'Forwarded']      # 1297 is about how a Forwarded is written
#: single elements
PLAIN = {'Prefer': ['wait=5', 'return=minimal', 'respond-async'], 'Cache-Control': ['no-store', 'max-age=5'], 'Accept-Language': ['en'], 'Allow': ['GET'], 'Vary': ['cookie'], 'TE': ['gzip'], 'Connection': ['close'], 'Transfer-Encoding': ['chunked', 'gzip'],
         'Warning': ['199 a "b"'], 'Upgrade': ['h2c'], 'Accept-Encoding': ['x-gzip', 'gzip'], 'Content-Encoding': ['x-gzip', 'gzip'], 'If-None-Match': ['"x"'], 'Forwarded': ['for=a'], 'Link': ['</a>; rel=next'], 'Alt-Svc': ['h2=":443"'], 'HTTPolice-Silence': ['1070']}
#: lists in a request and a response that are compared
PAIRS = [*[('Upgrade', 'Upgrade', ['foo', 'bar/1', 'h2c', 'websocket', 'TLS/1.0'])] * 3, ('Prefer', 'Preference-Applied', ['wait=5', 'return=minimal', 'respond-async', 'foo', 'foo=bar']), ('If-None-Match', 'ETag', ['"a"', 'W/"a"', '"b"']),
         ('', 'Allow', ['GET', 'HEAD', 'PUT', 'POST', 'PATCH', 'foo']), ('Cache-Control', 'Cache-Control', ['no-cache', 'max-age=5', 'no-store', 'public', 'max-stale', 'foo']), ('Via', 'Via', ['1.1 a', '1.0 b', '2 c']), ('Pragma', 'Warning', ['no-cache', 'foo']),
         ('TE', 'Transfer-Encoding', ['gzip', 'chunked', 'trailers', 'deflate']), ('Connection', 'Connection', ['close', 'upgrade', 'keep-alive', 'te', 'foo']), ('Accept-Encoding', 'Content-Encoding', ['gzip', 'br', 'identity'])]
WS = [9, 32]


def commas(v):
    """Places of the commas between elements, from 1; none if nobody can tell."""
    if '\\' in v:
        return []
    out, end, depth = [], None, 0
    for k, c in enumerate(v, 1):
        if end:
            end = None if c == end else end
        elif depth:
            depth += (c == '(') - (c == ')')
        elif c in '"<':
            end = {'"': '"', '<': '>'}[c]
        elif c == '(':
            depth = 1
        elif c == ',':
            out.append(k)
    return [] if end or depth else out


def special(v):
    return v.strip(' \t').lower() in ('*', 'none', 'clear', '')


def filled(v):
    return any(c not in ', \t' for c in v)


def steps(h, lists, rng, n):
    """Rewrite h (a list of [name, value]); the steps."""
    out = []
    for _ in range(n):
        cands = []
        for k in range(1, len(h) + 1):
            (n1, v1), low = h[k - 1], h[k - 1][0].lower()
            if k < len(h) and low != h[k][0].lower() and not (k == 1 and 'host' in (low, h[k][0].lower())):
                cands.append(('swap', k, 0))
            if low in lists:
                if low in ('cache-control', 'prefer') and not special(v1) and filled(v1) and commas(v1 + ',') and not (low == 'prefer' and any(n.lower() == low and 'zq-unlisted' in v for n, v in h)):
                    cands.append(('dilute', k, 0))
                for at in commas(v1):
                    cands += [('pad', k, a) for a in (at, at + 1) if 2 <= a <= len(v1)]
                    if not special(v1[:at - 1]) and not special(v1[at:]) and filled(v1[:at - 1]) and filled(v1[at:]):
                        cands += [('split', k, at)] * 3
                if k < len(h) and low == h[k][0].lower() and all(not special(v) and filled(v) and commas(v + ',') for v in (v1, h[k][1])):
                    cands += [('join', k, 0)] * 3
        for k in range(1, len(h) + 2):
            if k > 1 or not h or h[0][0].lower() != 'host':
                cands.append(('add', k, 0))
        if not cands:
            break
        kind = rng.choice(sorted({c[0] for c in cands}) + [c[0] for c in cands if c[0] in ('split', 'join')][:2])
        op, k, at = rng.choice([c for c in cands if c[0] == kind])
        s = {'op': op, 'k': k, 'at': at, 'ws': rng.choice(WS), 'v': []}
        if op == 'swap':
            h[k - 1], h[k] = h[k], h[k - 1]
        elif op == 'add':
            v = rng.choice(['1', 'x, y', '', 'foo="bar"', '\xff'])
            s['v'] = octets(v.encode('latin-1'))
            h.insert(k - 1, ('zq-unlisted', v))
        elif op == 'dilute':
            h[k - 1] = (h[k - 1][0], 'zq-unlisted, ' + h[k - 1][1])
        elif op == 'split':
            name, v = h[k - 1]
            h[k - 1:k] = [(name, v[:at - 1].strip(' \t')), (name, v[at:].strip(' \t'))]
        elif op == 'join':
            h[k - 1:k + 1] = [(h[k - 1][0], h[k - 1][1] + ', ' + h[k][1])]
        else:
            name, v = h[k - 1]
            h[k - 1] = (name, v[:at - 1] + chr(s['ws']) + v[at - 1:])
        out.append(s)
    return out


def heads(x):
    return ([(x['req'], 4)] if x['req'] else []) + [(p, 3) for p in x['resps']]


def enrich(x, rng):
    for m, i in heads(x):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            n = rng.choice(NAMES)
            # longer lists, with equal elements too
            v = ', '.join(rng.choice(LISTS[n]) for _ in range(rng.choice([1, 1, 1, 2, 3])))
            if rng.random() < .3:
                v = ', '.join([rng.choice(PLAIN.get(n, [v]))] * 2)
            m[i].insert(rng.randint(1 if m[i] else 0, len(m[i])), (n, v))
            if rng.random() < .4:
                m[i].append((n.upper() if rng.random() < .3 else n, rng.choice(LISTS[n])))
    # lists on both sides that have elements in common
    if x['req'] and x['resps'] and rng.random() < .4:
        a, b, els = rng.choice(PAIRS)
        for m, i, n in [(x['req'], 4, a), (x['resps'][-1], 3, b)]:
            if n:
                m[i][:] = [f for f in m[i] if f[0].lower() != n.lower()]
                m[i].append((n, ', '.join(rng.choice(els) for _ in range(rng.choice([1, 2, 3, 4])))))
        if rng.random() < .5:
            x['resps'][-1][1] = rng.choice([101, 200, 304, 405, 412, 426])
    return x


def run_once(x):
    import httpolice
    exch = check_c09.make(x)
    httpolice.check_exchange(exch)
    return [sorted([i, n] for i, n in collections.Counter(c.id for c in o.notices).items()) for o in ([exch.request] if exch.request is not None else []) + list(exch.responses)] + [sorted([c.id, 1] for c in exch.notices)]


def both(x, y):
    return run_once(x), run_once(y)


def batch(args):
    seed, items, lists = args
    out = []
    for n in items:
        rng = random.Random('%s/%d' % (seed, n))
        x = check_c09.shared(rng) if rng.random() < .4 else check_c09.from_gen(exrun.concretize(Gen(rng).exchange(), rng))
        x = enrich(x, rng)
        x = {'req': x['req'] and list(x['req']), 'resps': [list(p) for p in x['resps']]}
        y = {'req': x['req'] and list(x['req']), 'resps': [list(p) for p in x['resps']]}
        gentle = rng.random() < .3      # fields only change places
        msgs = []
        for (m, i), (w, _) in zip(heads(x), heads(y)):
            h = [tuple(f) for f in w[i]]
            ss = steps(h, set() if gentle else lists, rng, rng.choice([0, 1, 2, 4, 8]))
            w[i] = h
            fs = lambda q: [{'n': octets(a.encode('latin-1')), 'v': octets(b.encode('latin-1'))} for a, b in q]
            msgs.append({'from': fs(m[i]), 'steps': ss, 'to': fs(h)})
            if i == 3 and w[2] and rng.random() < .3 and all(' ' <= c <= '~' for c in w[2]):
                w[2] = rng.choice(['Fine', 'Not Found', 'x'])
        res = guarded(both, x, y)
        ok = res[0] == 'ok'
        for k, m in enumerate(msgs):
            m.update(one=res[1][0][k] if ok else [], two=res[1][1][k] if ok else [])
        msgs.append({'from': [], 'steps': [], 'to': [], 'one': res[1][0][-1] if ok else [], 'two': res[1][1][-1] if ok else []})
        out.append(({'msgs': msgs, 'exc': '' if ok else res[1]}, x, y))
    return out


def run(chk):
    r = chk.explore('SameEnv', ENV % (chk.scale(2, 3), chk.scale(3, 3)), workers=8, heap='4g')
    lists = {n.lower() for n in SPLIT}
    chk.notes['rewritings_enumerated'] = len({tuple(p['ops']) for p in r.prints})
    n = chk.scale(6000, 150000)
    recs = [x for part in pmap(batch, [('%s/%d' % (chk.pid, chk.seed), p, lists) for p in split_even(list(range(n)), 32)]) for x in part]
    verdicts = chk.judge('TraceSame', 'INIT Init\nNEXT Next\n', [rec for rec, _, _ in recs])
    for (rec, x, y), bad in zip(recs, verdicts):
        if bad:
            chk.fail(bad, {'one': x, 'two': y, 'steps': [[s['op'] for s in m['steps']] for m in rec['msgs']], 'seen': [[m['one'], m['two']] for m in rec['msgs']], 'exc': rec['exc']})
    chk.notes['pairs'] = len(recs)
    chk.notes['left_open'] = sum(1 for e in chk.extra if e.get('open'))
    chk.notes['steps'] = dict(collections.Counter(s['op'] for rec, _, _ in recs for m in rec['msgs'] for s in m['steps']))
    chk.notes['pairs_with_notices'] = sum(any(m['one'] for m in rec['msgs']) for rec, _, _ in recs)
    chk.sample({'one': recs[0][1], 'two': recs[0][2]})
