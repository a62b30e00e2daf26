"""C33: letter case."""
import collections
import gzip
import os
import random
import shutil
import tempfile

from vlib import digest, guarded, octets, pmap, split_even

ENV = 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Sane\n'
BODIES = [b'', b'', b'hello', b'{"a": 1}', b'{"a": ', b'<a/>', b'<a', b'a=b&c=d', b'a b', b'--b\r\nContent-Disposition: form-data; name=x\r\n\r\nv\r\n--b--\r\n', b'--B\r\n\r\nx\r\n--B--\r\n', gzip.compress(b'{"a": 1}', mtime=0), b'\xff\xfe', None]
#: method, target, version, status
CONTEXTS = {'get': ('GET', 200), 'post': ('POST', 201), 'put': ('PUT', 204), 'head': ('HEAD', 200), 'options': ('OPTIONS', 200), 'connect': ('CONNECT', 200), 'partial': ('GET', 206), 'notmodified': ('GET', 304), 'auth': ('GET', 401),
            'proxyauth': ('GET', 407), 'switch': ('GET', 101), 'upgrade': ('GET', 426), 'unsupported': ('POST', 415), 'early': ('GET', 103), 'continue': ('POST', 100), 'redirect': ('GET', 301), 'old': ('GET', 200), 'h2': ('GET', 200), 'noreq': ('', 200), 'noresp': ('PATCH', 0)}


def skeleton(c, rng):
    m, s = CONTEXTS[c]
    target = {'CONNECT': 'example.com:443', 'OPTIONS': rng.choice(['*', '/x'])}.get(m, rng.choice(['/x', '/x?a=b', 'http://example.com/x']))
    return {'method': m, 'target': target, 'status': s, 'ver': {'old': 'HTTP/1.0', 'h2': 'HTTP/2'}.get(c, 'HTTP/1.1'), 'scheme': rng.choice(['http', 'https', None]),
            'host': rng.random() < .7, 'qbody': rng.choice(BODIES) if m in ('POST', 'PUT', 'PATCH') or rng.random() < .1 else b'',
            'sbody': b'' if s in (204, 304, 100, 101, 103) or m == 'HEAD' else rng.choice(BODIES), 'req': [], 'resp': []}


def assemble(sk, which):
    """(request headers, response headers, method) of one of the two texts."""
    out = {'req': [('Host', b'example.com')] if sk['host'] else [], 'resp': []}
    method = sk['method']
    for p in sk['parts']:
        if p['at'] == 'method':
            method = bytes(p[which]).decode()
        else:
            out[p['at']].append((bytes(p['h' if which == 'a' else 'h2']).decode(), bytes(p[which])))
    return out['req'], out['resp'], method


def seen(exch):
    r = []
    for m in [exch] + ([] if exch.request is None else [exch.request]) + list(exch.responses):
        r.append({'ids': sorted([i, n] for i, n in collections.Counter(c.id for c in m.notices).items()), 'data': digest([repr(getattr(m, a, '')) for a in ('body', 'decoded_body', 'unicode_body')])})
    return r


def by_api(sk, which):
    import httpolice
    q, s, method = assemble(sk, which)
    req = httpolice.Request(sk['scheme'], method, sk['target'], sk['ver'], q, sk['qbody']) if method else None
    resps = [httpolice.Response(sk['ver'], sk['status'], 'x', s, sk['sbody'])] if sk['status'] else []
    exch = httpolice.Exchange(req, resps)
    httpolice.check_exchange(exch)
    return seen(exch)


def frame(first, headers, body, framing):
    out = first + b'\r\n' + b''.join(n.encode() + b': ' + v + b'\r\n' for n, v in headers)
    if framing == 'chunked':
        return out + b'\r\n' + (b'%x\r\n%s\r\n' % (len(body), body) if body else b'') + b'0\r\n\r\n'
    return out + b'\r\n' + body


def by_stream(sk, which):
    """The same over the wire: chunked or with a length if the headers say so, or whatever follows."""
    import httpolice
    from httpolice.inputs import streams
    q, s, method = assemble(sk, which)
    d = tempfile.mkdtemp()
    try:
        inb, outb = os.path.join(d, 'in'), os.path.join(d, 'out')
        with open(inb, 'wb') as f:
            f.write(frame(b'%s %s %s' % (method.encode(), sk['target'].encode(), sk['ver'].encode()), q, sk['qbody'] or b'', sk['framing']))
            f.write(b'GET /second HTTP/1.1\r\nHost: a\r\n\r\n')
        with open(outb, 'wb') as f:
            if sk['status'] in (100, 103):
                f.write(frame(b'%s %d x' % (sk['ver'].encode(), sk['status']), s, b'', ''))
                f.write(b'HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx')
            elif sk['status']:
                f.write(frame(b'%s %d x' % (sk['ver'].encode(), sk['status']), s, sk['sbody'] or b'', sk['framing']))
            f.write(b'HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nxy')
        r = []
        for exch in streams.streams_input([inb, outb]):
            httpolice.check_exchange(exch)
            r += seen(exch)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(sk):
    how = by_stream if sk['stream'] else by_api
    return [how(sk, 'a'), how(sk, 'b')]


def batch(items):
    out = []
    for sk in items:
        res = guarded(one, sk)
        ok = res[0] == 'ok'
        out.append({'kind': sk['kind'], 'parts': [{k: p[k] for k in ('v', 'h', 'h2', 'a', 'b')} for p in sk['parts']], 'one': res[1][0] if ok else [], 'two': res[1][1] if ok else [], 'exc': '' if ok else res[1]})
    return out


def whole(t, x):
    """The impostor's text in its place in the template."""
    t = bytes(t)
    pieces = t.split(b'^')
    return octets(b''.join(p if k % 2 == 0 else bytes(x) for k, p in enumerate(pieces)))


def run(chk):
    rng = chk.rng
    r = chk.explore('CaseEnv', ENV, workers=8, heap='4g')
    varied = sorted((x for x in r.prints if x['kind'] == 'vary'), key=str)
    imps = sorted((x for x in r.prints if x['kind'] == 'impostor'), key=str)
    chk.notes['pairs_enumerated'] = {'variations': len(varied), 'impostors': len(imps)}
    cases = []

    def case(kind, picks):
        c = picks[0]['c']
        sk = skeleton(rng.choice(sorted(CONTEXTS)) if c == 'any' else c, rng)
        sk['parts'] = [{k: p[k] for k in ('at', 'v', 'h', 'h2', 'a', 'b')} for p in picks]
        sk['kind'] = kind
        sk['stream'] = rng.random() < .3 and sk['method'] != '' and sk['ver'] != 'HTTP/2' and kind == 'vary'
        sk['framing'] = rng.choice(['', '', 'chunked'])
        cases.append(sk)
    # every template at every place, in some context
    by = collections.defaultdict(list)
    for x in varied:
        by[bytes(x['h']), bytes(x['v']), x['at']].append(x)
    n = chk.scale(12, 40)
    for k in sorted(by):
        for x in rng.sample(by[k], min(n, len(by[k]))):
            for _ in range(chk.scale(1, 10)):
                case('vary', [x])
    for _ in range(chk.scale(4000, 100000)):
        xs = [rng.choice(varied) for _ in range(rng.choice([2, 3, 3, 4, 6]))]
        case('vary', xs)
    for x in imps if chk.thorough else rng.sample(imps, min(len(imps), 1200)):
        x = dict(x, b=whole(x['v'], x['b']))
        case('impostor', [x])
    for sk in cases:
        if sk['kind'] == 'impostor' and sk['parts'][0]['at'] == 'method' and not sk['method']:
            sk['method'] = 'GET'
    rng.shuffle(cases)
    recs = [x for part in pmap(batch, split_even(cases, 32)) for x in part]
    order = [x for part in split_even(cases, 32) for x in part]
    chk.notes['pairs_with_notices'] = sum(any(m['ids'] for m in r_['one']) for r_ in recs)
    verdicts = chk.judge('TraceCase', 'INIT Init\nNEXT Next\n', recs)
    for sk, rec, bad in zip(order, recs, verdicts):
        if bad:
            chk.fail(bad, describe(sk, rec))
    for sk, rec in list(zip(order, recs))[-3:]:
        chk.sample(describe(sk, rec))


def describe(sk, rec):
    show = lambda w: ['%s: %s' % (p['at'] + ' ' + bytes(p['h' if w == 'a' else 'h2']).decode(), bytes(p[w]).decode()) for p in sk['parts']]
    return {'kind': sk['kind'], 'start': [sk['method'], sk['target'], sk['status'], sk['ver'], sk['stream']], 'one': show('a'), 'two': show('b'), 'seen': str([[m['ids'] for m in rec['one']], [m['ids'] for m in rec['two']]]), 'bodies': repr([sk['qbody'], sk['sbody']]), 'exc': rec['exc']}
