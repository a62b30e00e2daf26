"""C35: whatever is given ends in reports or, for some formats, in an input error."""
import io
import json
import os
import random
import shutil
import tempfile

import check_c14
import check_c15
import check_c16
import check_c30
import exgen
import exrun
import headers
import lexgen
import render
import reports
from mutate import BITS, mutate_bytes
from vlib import guarded, pmap, split_even

ENV = 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Goes\nCONSTANTS Part = %d\n Parts = %d\n'
STATUSES = [200, 200, 200, 206, 304, 401, 416, 426, 301, 201, 103, 101, 204, 405, 412, 429, 100, 199, 299, 599, 600, 999, 511, 421, 503, 226]
METHODS = ['GET', 'POST', 'PUT', 'HEAD', 'OPTIONS', 'CONNECT', 'DELETE', 'PATCH', 'TRACE', 'FOO', 'M-SEARCH', 'PRI']
TYPES = [b'text/plain', b'application/json', b'text/html', b'application/xml', b'multipart/form-data; boundary=BND', b'application/x-www-form-urlencoded', b'multipart/byteranges; boundary=BND',
         b'text/plain; charset=utf-16', b'image/png', b'application/problem+json', b'application/foo+xml', b'multipart/mixed; boundary="BND"']
CODINGS = [b'gzip', b'deflate', b'br', b'compress', b'identity', b'gzip, gzip', b'foo', b'x-gzip']
BODIES = [b'', b'x', b'{}', b'[1', b'<a/>', b'<!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>', b'a=b&c=%zz', b'--BND\r\n\r\nx\r\n--BND--\r\n', b'--BND', b'\xff\xfe', b'\x1f\x8b\x08\x00', b'\x00' * 50, b'\xef\xbb\xbf{}', b'access_token=a&access_token=b']
#: bodies for the hard texts of the specification (others are above)
DEEP = {'multipart': b''.join(b'--B%s\r\nContent-Type: multipart/mixed; boundary=B%d\r\n\r\n' % (b'%d' % k if k else b'', k + 1) for k in range(1500)), 'json': b'[' * 100000, 'xml': b'<a>' * 100000,
        'object': b'{"a":' * 5000, 'form': b'a=b&' * 3000, 'parts': b'--B\r\n\r\n' * 2000, 'nul': b'\x00' * 5000, 'digits': b'1' * 5000, 'exponent': b'1e' + b'9' * 4000, 'string': b'"' + b'\\u0000' * 3000 + b'"'}
DEEPTYPES = {'multipart': b'multipart/mixed; boundary=B', 'xml': b'application/xml', 'form': b'application/x-www-form-urlencoded', 'parts': b'multipart/mixed; boundary=B', 'nul': b'text/plain; charset=utf-16'}


# ------------------------------------------------------------ the stages

def finish(exchs, rec):
    import httpolice
    for e in exchs:
        httpolice.check_exchange(e)
    rec['stages'].append('checked')
    httpolice.text_report(exchs, io.BytesIO())
    rec['stages'].append('text')
    httpolice.html_report(exchs, io.BytesIO())
    rec['stages'].append('html')


def stages(entry, want, make):
    """Go through the stages; `make' gives the exchanges."""
    from httpolice.inputs import InputError
    rec = {'entry': entry, 'want': want, 'stages': ['given'], 'exc': ''}

    def go():
        try:
            exchs = list(make())
        except InputError:
            rec['stages'].append('rejected')
            return
        rec['stages'].append('read')
        finish(exchs, rec)
    res = guarded(go)
    rec['exc'] = res[1] if res[0] == 'exc' else ''
    return rec


def files(entry, want, paths):
    from httpolice import inputs
    return stages(entry, want, lambda: inputs.formats[entry](paths))


# ------------------------------------------------------------ messages given as objects

def expand(t):
    return bytes(t['pre']) + bytes(t['rep']) * t['n'] + bytes(t['post'])


def name(t):
    if t['n']:
        return '%s%s*%d%s' % (bytes(t['pre']).decode('latin-1'), bytes(t['rep']).decode('latin-1'), t['n'], bytes(t['post']).decode('latin-1'))
    return bytes(t['pre']).decode('latin-1')


def api(places, rng, everywhere=False):
    """Messages with given texts in given places; the rest is random."""
    import httpolice
    q = {'method': rng.choice(METHODS), 'target': rng.choice(['/', '/a?b=c', '*', 'example.com:80', 'http://example.com/', '/?access_token=x']), 'scheme': rng.choice(['http', 'https', None, 'foo']),
         'version': rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None]), 'hdrs': [], 'trl': [], 'body': rng.choice([None, b'', b'', b'x'] + BODIES), 'remark': None}
    p = {'status': rng.choice(STATUSES), 'reason': rng.choice(['OK', '', None]), 'version': rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None]), 'hdrs': [], 'trl': [],
         'body': rng.choice([None, b'', b'x'] + BODIES), 'remark': None}
    for m in (q, p):
        if rng.random() < .5:
            m['hdrs'].append(('Content-Type', rng.choice(TYPES)))
        if rng.random() < .1:
            m['hdrs'].append(('Content-Encoding', rng.choice(CODINGS)))
    if rng.random() < .5:
        q['hdrs'].append(('Host', b'example.com'))
    if rng.random() < .3:
        p['hdrs'].append(('Date', b'Thu, 01 Jan 2015 00:00:00 GMT'))
    for where, data in places:
        text = data.decode('latin-1')
        if rng.random() < .12:                      # Unicode outside what HTTP can carry
            k = rng.randrange(len(text) + 1)
            text = text[:k] + rng.choice(['\u2603', '\u0130', '\U0001f600', '\ud800', '\u2028', '\u0661', '\uff21']) + text[k + rng.randrange(2):]
        sides = [q, p] if everywhere or rng.random() < .6 else [q] if rng.random() < .5 else [p]
        if where in ('method', 'target', 'scheme'):
            q[where] = text
        elif where == 'reason':
            p[where] = text
        elif where in ('version', 'remark', 'body'):
            for m in sides:
                m[where] = data if where == 'body' else text
        elif where == 'name':
            for m in sides:
                m['hdrs'].insert(rng.randrange(len(m['hdrs']) + 1), (text, b'x'))
        elif where == 'trailer':
            for m in sides:
                m['trl'].append((text, rng.choice([b'', b'x', data])))
        else:
            for m in sides:
                n = ''.join(w.capitalize() + '-' for w in where.split('-'))[:-1] if rng.random() < .7 else where
                (m['trl'] if rng.random() < .08 and not everywhere else m['hdrs']).append((n, data if rng.random() < .8 else text))
    def make():
        req = httpolice.Request(q['scheme'], q['method'], q['target'], q['version'], q['hdrs'], q['body'], q['trl'], remark=q['remark']) if rng.random() < .9 else None
        resps = [httpolice.Response(p['version'], p['status'], p['reason'], p['hdrs'], p['body'], p['trl'], remark=p['remark'])] if req is None or rng.random() < .9 else []
        return [httpolice.Exchange(req, resps)]
    return make


def deep(kind, rng):
    import httpolice
    ct = DEEPTYPES.get(kind, b'application/json')
    return lambda: [httpolice.Exchange(httpolice.Request('http', 'POST', '/', 'HTTP/1.1', [('Content-Type', ct)], DEEP[kind]), []) if rng.random() < .5 else
                    httpolice.Exchange(None, [httpolice.Response('HTTP/1.1', 200, 'OK', [('Content-Type', ct)], DEEP[kind])])]


def one_api(kind, p, rng):
    if kind == 'text':
        places = [(x, t) for x, t in ((p['p'], p['t']), (p['p2'], p['t2'])) if x]
        rec = stages('api', 'any', api([(x, expand(t)) for x, t in places], rng, p['kind'] == 'long'))
        return rec, {'place': p['p'], 'text': name(p['t']), 'place2': p['p2'], 'text2': name(p['t2'])}
    if kind == 'deep':
        return stages('api', 'any', deep(p, rng)), {'place': 'body', 'text': 'deep ' + p}
    if kind == 'header':
        places = [(n.decode('latin-1') if isinstance(n, bytes) else n, v) for n, v in p]
        return stages('api', 'any', api(places, rng)), {'places': repr(places)[:600]}
    if kind == 'rules':
        ex = exrun.concretize(p, rng)
        return stages('api', 'any', lambda: [exrun.build(ex, None)]), exrun.show(ex)
    if kind == 'hostile':
        exch, _ = reports.hostile_exchange(rng)
        return stages('api', 'any', lambda: [exch]), {'request': repr(exch.request), 'responses': repr(exch.responses)}
    c = None                        # a body
    while c is None:
        c = check_c30.complete(check_c30.rand_case(rng), rng)
    data = c['stages'][-1]
    if rng.random() < .4:
        data = mutate_bytes(rng, data)
    places = [('content-encoding', f.encode('latin-1')) for f in c['ceraw']] + ([('content-type', c['ctraw'].encode('latin-1'))] if c['ct']['has'] else []) + [('body', data)]
    return stages('api', 'any', api(places, rng)), {'places': repr(places)[:900]}


# ------------------------------------------------------------ files

def write(d, fname, data):
    path = os.path.join(d, fname)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)
    return path


def connection(rng):
    """Octets of a connection, more or less damaged."""
    r = render.Renderer(rng)
    reqf = ['none', 'cl', 'cl0', 'clbad', 'clhuge', 'cllong', 'chunked', 'chunkedtrl', 'techcl', 'gzchunked', 'badgzchunked', 'tebad', 'garbage']
    g = {'q': [(rng.choice(['GET', 'POST', 'HEAD', 'CONNECT', 'get', 'OPTIONS']), rng.choice(reqf)) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
         'r': [(rng.choice([100, 101, 103, 200, 204, 304, 404, 999, 0, 1]), rng.choice(reqf + ['close', 'gzip', 'defchunked', 'chunkedchunked'])) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
         't': rng.choice(['', '', 'q', 'r', 'g', 'gq', 'qr'])}
    c = r.connection(g)
    i, o = c['i'], c['o']
    x = rng.random()
    if x < .5:
        i, o = mutate_bytes(rng, i), mutate_bytes(rng, o)
    elif x < .6:
        i, o = mutate_bytes(rng, i, 12), mutate_bytes(rng, o, 12)
    elif x < .7:
        i, o = (b''.join(rng.choice(BITS + [bytes([rng.randrange(256)])]) for _ in range(rng.randrange(30))) for _ in 'io')
    return i, o


TCPNAMES = ['1000000000-10.0.0.1-1024-10.0.0.9-80-0', '1000000000-10.0.0.9-80-10.0.0.1-1024-0']
PICKNAMES = ['tcpick_000001_10.0.0.1_10.0.0.9_http.clnt.dat', 'tcpick_000001_10.0.0.1_10.0.0.9_http.serv.dat']


def one_file(entry, rng, d):
    """A file or files of a format, good or bad."""
    i, o = connection(rng)
    if entry == 'chunk-size':
        i = b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n' + b'1' * 4000 + b'\r\nx'
        return files('req-stream', 'accept', [write(d, 'i', i)]), {'place': 'chunk-size', 'text': '1*4000'}
    note = {'entry': entry, 'inbound': i.decode('latin-1'), 'outbound': o.decode('latin-1')}
    pi, po = write(d, 'i', i), write(d, 'o', o)
    if entry == 'req-stream':
        return files(entry, 'accept', rng.choice([[pi], [po], [pi, po], []])), note
    if entry == 'resp-stream':
        return files(entry, 'accept', rng.choice([[po], [pi], [po, pi], []])), note
    if entry == 'streams':
        odd = rng.random() < .1
        return files(entry, 'reject' if odd else 'accept', rng.choice([[pi], [pi, po, pi]]) if odd else rng.choice([[pi, po], [pi, po], [po, pi], [pi, po, po, pi]])), note
    if entry == 'combined':
        marks = [b'======== BEGIN INBOUND STREAM ========\r\n', b'======== BEGIN OUTBOUND STREAM ========\r\n']
        x = rng.random()
        want = 'any'
        pre = rng.choice([b'', b'x\r\n', b'\xff\x00\r\n', b'# \xe9\n', mutate_bytes(rng, b'preamble\r\n')])
        if x < .5:
            parts, want = [pre, marks[0], i, marks[1], o], 'any'
        elif x < .7:
            parts, want = rng.choice([[pre, i, o], [marks[1], o], [marks[0], i]]), 'any'
        elif x < .8:
            parts = [pre, marks[1], o, marks[0], i]
        else:
            parts = [mutate_bytes(rng, pre + marks[0] + i + marks[1] + o, rng.choice([1, 3, 20]))]
        data = b''.join(parts)
        if marks[0].rstrip() not in data or marks[1].rstrip() not in data:
            want = 'reject'
        return files(entry, want, [write(d, 'c', data)]), dict(note, file=data.decode('latin-1'))
    if entry in ('tcpflow', 'tcpick'):
        names = TCPNAMES if entry == 'tcpflow' else PICKNAMES
        k = rng.randrange(6)
        sub = {names[0]: i, names[1]: o} if k < 3 else {names[0]: i} if k == 3 else {names[1]: o} if k == 4 else {}
        want = 'accept'
        if rng.random() < .25:
            bad = mutate_bytes(rng, rng.choice(names).encode(), rng.choice([1, 2, 6])).decode('latin-1').replace('/', '').replace('\x00', '').strip('.') or 'x'
            if len(bad.encode('utf-8')) < 200 and bad not in sub:
                sub[bad] = rng.choice([i, o, b''])
                want = 'any'
        for n, data in sub.items():
            write(d, 'dir/' + n, data)
        os.makedirs(os.path.join(d, 'dir'), exist_ok=True)
        return files(entry, want, [os.path.join(d, 'dir')] * rng.choice([1, 1, 1, 2])), dict(note, files=sorted(sub))
    return one_har(rng, d)


def junk(rng, depth=0):
    x = rng.random()
    if x < .25 and depth < 3:
        return {rng.choice(['log', 'name', 'value', 'text', 'size', 'url', 'method', 'a', '']): junk(rng, depth + 1) for _ in range(rng.randint(0, 3))}
    if x < .4 and depth < 3:
        return [junk(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return rng.choice([None, True, 0, 1, -1, 10 ** 30, 1.5, 1e308, '', 'x', 'GET', 'HTTP/1.1', 'http://a/', 'h\xe9', '\ud800', '\x00', 200, 999, 1000, -200, 'base64', '/', '[::', 'http://[', '\u20ac', 'a' * 300])


def walk(x, path=()):
    yield path
    for k, v in (x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()):
        yield from walk(v, path + (k,))


def one_har(rng, d):
    es = [check_c16.from_pick(check_c16.rand_pick(rng), rng) for _ in range(rng.randint(1, 2))]
    doc = check_c16.document(es, es[0]['creator'], rng)
    x = rng.random()
    want = 'any'
    if x < .15:
        data, want = json.dumps(doc).encode(), 'accept'
    elif x < .7:                    # any values anywhere
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            paths = [p for p in walk(doc) if p]
            if not paths:
                break
            path = rng.choice(paths)
            at = doc
            for k in path[:-1]:
                at = at[k]
            if rng.random() < .2:
                del at[path[-1]]
            else:
                at[path[-1]] = junk(rng)
        data = json.dumps(doc).encode()
    elif x < .9:
        data = mutate_bytes(rng, json.dumps(doc).encode(), rng.choice([1, 2, 10]))
    else:
        data, want = rng.choice(check_c16.BROKEN), 'reject'
    return files('har', want, [write(d, 'x.har', data)]), {'entry': 'har', 'file': data.decode('latin-1')}


def one(item, rng):
    kind, p = item
    if kind != 'file':
        return one_api(kind, p, rng)
    with tempfile.TemporaryDirectory(dir=SCRATCH[0]) as d:
        return one_file(p, rng, d)


SCRATCH = [None]


def batch(args):
    seed, items, scratch = args
    SCRATCH[0] = scratch
    return [one(it, random.Random('%s/%d' % (seed, n))) for n, it in items]


def run(chk):
    rng = chk.rng
    parts = chk.scale(1801, 71)
    r = chk.explore('TotalEnv', ENV % (chk.seed % parts, parts), workers=4)
    picks = sorted(r.prints, key=str)
    chk.notes['texts_in_places'] = len(picks)
    items = [('text', p) for p in picks]
    items += [('deep', k) for k in DEEP] + [('file', 'chunk-size')]
    for cs in (headers.cases(chk, n=chk.scale(5000, 100000), mutated=.6),):
        group = []
        for c in cs:
            if c['k'].startswith('x_') or not c['es']:
                continue
            group.append([(c['name'], bytes(v)) for v in c['es']])
        k = 0
        while k < len(group):
            n = rng.choice([1, 1, 2, 3, 5])
            items.append(('header', [x for g in group[k:k + n] for x in g]))
            k += n
    gens = [exgen.Gen(rng, bad=b, few=f) for b, f in ((.3, 5), (.1, 8))]
    items += [('rules', gens[k % 2].exchange()) for k in range(chk.scale(2500, 60000))]
    items += [('hostile', None)] * chk.scale(1500, 30000) + [('body', None)] * chk.scale(2500, 60000)
    for f, n in (('req-stream', 700), ('resp-stream', 900), ('streams', 1800), ('combined', 900), ('tcpflow', 700), ('tcpick', 500), ('har', 3500)):
        items += [('file', f)] * chk.scale(n, n * 25)
    rng.shuffle(items)
    d = tempfile.mkdtemp(dir=chk.scratch)
    recs = [x for part in pmap(batch, [('%s/%d' % (chk.pid, chk.seed), p, d) for p in split_even(list(enumerate(items)), 64)]) for x in part]
    shutil.rmtree(d)
    for k in range(0, len(recs), 60000):
        some = recs[k:k + 60000]
        for (rec, note), bad in zip(some, chk.judge('TraceTotal', 'INIT Init\nNEXT Next\n', [x[0] for x in some])):
            if bad:
                chk.fail(bad, dict(note, entry=rec['entry'], want=rec['want'], stages=rec['stages'], exc=rec['exc'], error=rec['exc'].split(':')[0]))
    n = {}
    for rec, _ in recs:
        k = rec['entry'] + ' ' + rec['stages'][-1]
        n[k] = n.get(k, 0) + 1
    chk.notes['ends'] = n
    for _, note in recs[:3]:
        chk.sample({k: str(v)[:300] for k, v in note.items()})
