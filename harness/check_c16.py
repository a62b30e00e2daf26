"""C16: HAR files."""
import base64
import json
import os
import shutil
import tempfile

from vlib import guarded, pmap, split_even

ENV = 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Sane\n'
CREATORS = ['WebInspector', 'Firefox', 'F12 Developer Tools', 'Fiddler', 'Other']


def codes(s):
    return list(s) if isinstance(s, bytes) else [ord(c) for c in s]


# ------------------------------------------------------------------- entries
# A case holds ordinary text; `abstract` makes it the form of spec/Har.tla.

def headers(rng, host, pseudo=True):
    pool = [('Accept', '*/*'), ('X-Foo', 'bar'), ('accept', 'text/html'), ('Cookie', 'a=b'), ('X-Host', 'h'), ('EndTime', '12:00'), ('X-E', 'caf\xe9'), ('X-S', rng.choice(['caf\u2603', '\U0001f600x', '\u0130'])), ('Content-Length', '5'), ('X-Empty', '')]
    if pseudo:
        pool += [(':method', 'GET'), (':authority', 'h'), (':path', '/'), (':x', '')]
    hs = [rng.choice(pool) for _ in range(rng.randrange(5))]
    if host:
        hs.insert(rng.randrange(len(hs) + 1), (rng.choice(['Host', 'host', 'HOST']), 'h'))
    return hs


def from_pick(p, rng):
    dbg = rng.choice(['This is a CONNECT tunnel, through which encrypted HTTPS traffic flows. Fiddler can decrypt it', 'Fiddler', 'xFiddlery'])
    texts = {'none': None, 'plain': rng.choice(['hello', 'é☃', dbg, '\U0001f600', 'Zm9v']), 'other': 'x', 'bad64': rng.choice(['Zm9', 'Zg=', 'A', 'Zm9vY'])}
    raw = {'base64': rng.choice([b'hello', b'\x00\xff', b'a', b'fiddler', bytes(range(256))]), 'debug64': dbg.encode()}.get(p['text'], b'')
    t = texts.get(p['text'], base64.b64encode(raw).decode())
    enc = {'none': '', 'plain': '', 'debug64': 'base64'}.get(p['text'], p['text'])
    auth = rng.choice(['h', 'example.com:8080', '[::1]:80', 'h:443'])
    path = rng.choice(['', '/', '/a/b', '/a%20b', '/a;b', '/a;b/c;d=1', '//x', '/a:b', '/@', "/(x)'*", '/a;', '/~u/'])
    query = rng.choice([None, None, 'a=b', 'q=1&r=%41', 'a?b', '/x;y', ';'])
    scheme = rng.choice(['http', 'https', 'http', 'HTTPS', 'ws'])
    return {
        'creator': p['cr'],
        'req': {'method': 'CONNECT' if p['connect'] else rng.choice(['GET', 'POST', 'connect', 'X', 'OPTIONS']), 'scheme': scheme, 'auth': auth, 'path': path, 'query': query,
                'ver': rng.choice(['HTTP/1.1', 'HTTP/1.0', 'HTTP/2.0', 'http/2.0', '', 'unknown', 'h2', 'HTTP/2', 'xHTTP/1.1']), 'hdrs': headers(rng, p['host']),
                'size': p['rsize'] if p['rsize'] < 5 else rng.choice([1, 5, 10 ** 12]), 'post': {'none': None, 'text': rng.choice(['a=b', 'é☃', 'fiddler', '']), 'debug': dbg}[p['post']]},
        'resp': {'status': 200 + rng.choice([0, 1, 4, 99]) if p['status'] == 200 else p['status'] if p['status'] != 404 else rng.choice([404, 300, 199, 100, 407, 502]),
                 'reason': rng.choice(['OK', '', 'Not Found']), 'ver': rng.choice(['HTTP/1.1', 'HTTP/2.0', '', 'h2', 'HTTP/1.0']),
                 'hdrs': headers(rng, False) + rng.choice([[], [], [('EndTime', '1'), ('ClientToServerBytes', '2'), ('ServerToClientBytes', '3')], [('endtime', '1'), ('ServerToClientBytesX', '1')]]),
                 'size': p['size'] if p['size'] < 5 else rng.choice([1, 5]), 'csize': p['csize'] if p['csize'] < 5 else rng.choice([1, 5]), 'text': t, 'enc': enc, 'raw': raw}}


def rand_pick(rng):
    return {'cr': rng.choice(CREATORS + ['Fiddler', 'Other', 'Other']), 'connect': rng.random() < .3, 'host': rng.random() < .6, 'status': rng.choice([0, 200, 200, 200, 304, 404]),
            'rsize': rng.choice([-1, 0, 5]), 'size': rng.choice([-1, 0, 5]), 'csize': rng.choice([-1, 0, 5]), 'post': rng.choice(['none', 'text', 'debug']),
            'text': rng.choice(['none', 'plain', 'base64', 'bad64', 'other', 'debug64'])}


def url(q):
    return q['scheme'] + '://' + q['auth'] + q['path'] + ('' if q['query'] is None else '?' + q['query'])


def document(entries, creator, rng):
    out = []
    for e in entries:
        q, p = e['req'], e['resp']
        req = {'method': q['method'], 'url': url(q), 'httpVersion': q['ver'], 'cookies': [], 'headers': [{'name': n, 'value': v} for n, v in q['hdrs']], 'queryString': [], 'headersSize': -1, 'bodySize': q['size']}
        if q['post'] is not None:
            req['postData'] = {'mimeType': 'text/plain', 'text': q['post'], 'params': []}
        elif rng.random() < .2:
            req['postData'] = {'mimeType': '', 'params': []}
        content = {'size': p['csize'], 'mimeType': 'text/plain'}
        if p['text'] is not None:
            content['text'] = p['text']
        if p['enc']:
            content['encoding'] = {'base64': rng.choice(['base64', 'BASE64', 'Base64']), 'bad64': 'base64', 'other': rng.choice(['gzip', 'base32', 'utf-8', 'x'])}[p['enc']]
        resp = {'status': p['status'], 'statusText': p['reason'], 'httpVersion': p['ver'], 'cookies': [], 'headers': [{'name': n, 'value': v} for n, v in p['hdrs']], 'redirectURL': '', 'headersSize': -1, 'bodySize': p['size'], 'content': content}
        out.append({'startedDateTime': '2020-01-01T00:00:00Z', 'time': 1, 'request': req, 'response': resp, 'cache': {}, 'timings': {}})
    return {'log': {'version': '1.2', 'creator': {'name': creator, 'version': '1'}, 'entries': out}}


def abstract(e):
    hs = lambda xs: [{'n': codes(n), 'v': codes(v)} for n, v in xs]
    q, p = e['req'], e['resp']
    return {'req': {'method': codes(q['method']), 'scheme': codes(q['scheme']), 'auth': codes(q['auth']), 'path': codes(q['path']), 'query': {'has': q['query'] is not None, 'v': codes(q['query'] or '')},
                    'url': codes(url(q)), 'ver': codes(q['ver']), 'hdrs': hs(q['hdrs']), 'size': min(q['size'], 5), 'post': {'has': q['post'] is not None, 'text': codes(q['post'] or '')}},
            'resp': {'status': p['status'], 'reason': codes(p['reason']), 'ver': codes(p['ver']), 'hdrs': hs(p['hdrs']), 'size': p['size'], 'csize': p['csize'],
                     'text': {'has': p['text'] is not None, 'v': codes(p['text'] or ''), 'enc': p['enc'], 'raw': list(p['raw'])}}}


# ---------------------------------------------------------------- observing

def kind(x):
    from httpolice.structure import Unavailable
    return 'unknown' if x is None else 'there' if isinstance(x, Unavailable) else 'empty' if not x else 'ok'


def value(x):
    k = kind(x)
    return {'k': k, 'v': codes(x) if k == 'ok' else []}


def see(exch):
    q = exch.request
    hs = lambda m: [{'n': codes(str(e.name)), 'v': codes(e.value)} for e in m.header_entries]
    return {'req': {'scheme': codes(q.scheme), 'method': codes(str(q.method)), 'target': codes(q.target), 'ver': codes(str(q.version or '')), 'hdrs': hs(q), 'body': kind(q.body), 'text': value(q.unicode_body)},
            'resps': [{'status': int(p.status), 'reason': codes(p.reason or ''), 'ver': codes(str(p.version or '')), 'hdrs': hs(p), 'body': kind(p.body), 'decoded': value(p.decoded_body), 'text': value(p.unicode_body)}
                      for p in exch.responses]}


def read(paths):
    """What the HAR input gives for the files, and how it ends."""
    import httpolice
    from httpolice.inputs import InputError
    from httpolice.inputs.har import har_input
    got = []
    try:
        for exch in har_input(paths):
            got.append(see(exch))
            httpolice.check_exchange(exch)
    except InputError:
        return got, 'input'
    except Exception as e:      # pylint: disable=broad-except
        return got, '%s: %.200s' % (type(e).__name__, e)
    return got, ''


# ------------------------------------------------------------ wrong documents

PATHS = {'top': [], 'log': ['log'], 'creator': ['log', 'creator'], 'creatorname': ['log', 'creator', 'name'], 'entries': ['log', 'entries'], 'entry': ['log', 'entries', 0]}
for _n, _p in {'method': ['method'], 'url': ['url'], 'reqversion': ['httpVersion'], 'reqheaders': ['headers'], 'reqheader': ['headers', 0], 'reqname': ['headers', 0, 'name'], 'reqvalue': ['headers', 0, 'value'],
               'reqsize': ['bodySize'], 'post': ['postData'], 'posttext': ['postData', 'text'], 'request': []}.items():
    PATHS[_n] = ['log', 'entries', 0, 'request'] + _p
for _n, _p in {'status': ['status'], 'reason': ['statusText'], 'respversion': ['httpVersion'], 'respheaders': ['headers'], 'respheader': ['headers', 0], 'respname': ['headers', 0, 'name'],
               'respvalue': ['headers', 0, 'value'], 'content': ['content'], 'csize': ['content', 'size'], 'ctext': ['content', 'text'], 'cencoding': ['content', 'encoding'], 'respsize': ['bodySize'], 'response': []}.items():
    PATHS[_n] = ['log', 'entries', 0, 'response'] + _p
VALUES = {'null': [None], 'bool': [True, False], 'number': [5, -1, 1.5, 200], 'string': ['x', '200', 'HTTP/1.1'], 'list': [[1], [['a', 'b']], ['x']], 'dict': [{'a': 1}], 'emptystring': [''], 'emptylist': [[]], 'emptydict': [{}], 'zero': [0]}


def change(doc, f, t, rng):
    """The JSON text of a document with one value changed."""
    path = PATHS[f]
    if not path:
        return json.dumps(None if t == 'missing' else rng.choice(VALUES[t])) if t != 'missing' else ''
    at = doc
    for k in path[:-1]:
        at = at[k]
    if t == 'missing':
        if isinstance(at, list):
            at[0] = {}
        else:
            del at[path[-1]]
    else:
        at[path[-1]] = rng.choice(VALUES[t])
    return json.dumps(doc)


def simple(rng):
    p = rand_pick(rng)
    p.update(status=200, post='text', text=rng.choice(['plain', 'base64']), connect=False, csize=5)
    if p['cr'] == 'Fiddler':
        p['cr'] = 'Other'
    e = from_pick(p, rng)
    e['req']['hdrs'].insert(0, ('X', 'y'))
    e['resp']['hdrs'].insert(0, ('X', 'y'))
    e['req']['post'] = 'x'
    return e


BROKEN = [b'', b'{', b'null', b'[]', b'""', b'0', b'true', b'\xff', b'{"log": {}}', b'{"log": []}', b'{"log": {"creator": {"name": "x"}}}', b'\xef\xbb\xbf', b'\x1f\x8b\x08', b'{"log": {"entries": []}}', b'\xff\xfe{\x00}\x00',
          b'{"log": {"creator": {"name": "x"}, "entries": [null]}}', b'{"log": {"creator": {"name": "x"}, "entries": [[]]}}', b'{"log": {"creator": {"name": "x"}, "entries": {"a": 1}}}', b'{"log": {"creator": {"name": "x"}, "entries": "ab"}}',
          b'\xef\xbb\xbf\xef\xbb\xbf{}', b'{"log": {"creator": "x", "entries": []}}', b'{"log": {"creator": {"name": "x"}, "entries": [{}]}} x', b'GET / HTTP/1.1\r\n\r\n']


def one(item, d, rng):
    kind_, p = item
    path = os.path.join(d, 'x%d.har' % rng.randrange(10 ** 9))
    rec = {'kind': kind_, 'creator': 'Other', 'entries': [], 'want': 'ok'}
    note = None
    if kind_ == 'entries':
        es = p
        rec.update(creator=es[0]['creator'], entries=[abstract(e) for e in es])
        doc = document(es, es[0]['creator'], rng)
        text = json.dumps(doc, ensure_ascii=rng.random() < .5, indent=rng.choice([None, 2]))
        data = text.encode('utf-8')
        if rng.random() < .2:
            data = b'\xef\xbb\xbf' + data
        note = text
    elif kind_ == 'type':
        e = simple(rng)
        doc = document([e], e['creator'], rng)
        if p['pick']['f'] == 'cencoding':
            doc['log']['entries'][0]['response']['content']['encoding'] = 'base64'
        data = change(doc, p['pick']['f'], p['pick']['t'], rng).encode('utf-8')
        rec['want'] = p['want']
        note = '%s -> %s: %s' % (p['pick']['f'], p['pick']['t'], data.decode()[:900])
    elif kind_ == 'cut':            # a good document cut short
        e = simple(rng)
        data = json.dumps(document([e], e['creator'], rng)).encode('utf-8')
        data = data[:rng.randrange(len(data))]
        rec['want'], note = 'error', repr(data[-50:])
    else:
        data, rec['want'], note = p, 'error', repr(p[:200])
    paths = [path]
    with open(path, 'wb') as f:
        f.write(data)
    if kind_ == 'entries' and len(rec['entries']) > 1 and rng.random() < .5:        # the same entries, split over two files
        k = rng.randrange(len(p) + 1)
        for half, name in ((p[:k], path), (p[k:], path + '2')):
            with open(name, 'w', encoding='utf-8') as f:
                json.dump(document(half, p[0]['creator'], rng), f)
        paths = [path, path + '2']
    res = guarded(read, paths)
    rec['got'], rec['err'] = res[1] if res[0] == 'ok' else ([], 'harness: ' + res[1])
    for x in paths:
        os.unlink(x)
    return rec, note


def batch(args):
    import random
    seed, items, d = args
    return [one(it, d, random.Random('%s/%d' % (seed, n))) for n, it in items]


def run(chk):
    rng = chk.rng
    r = chk.explore('HarEnv', ENV, workers=4)
    picks = sorted(r.prints, key=str)
    entries = [p for p in picks if p['kind'] == 'entry']
    chk.notes['entries_enumerated'] = len(entries)
    lim = chk.scale(6000, len(entries))
    if len(entries) > lim:
        entries = rng.sample(entries, lim)
    items = [('entries', [from_pick(p['pick'], rng)]) for p in entries]
    for _ in range(chk.scale(2500, 40000)):
        cr = rng.choice(CREATORS)
        items.append(('entries', [from_pick(dict(rand_pick(rng), cr=cr), rng) for _ in range(rng.randint(1, 4))]))
    items += [('type', p) for p in picks if p['kind'] == 'type' for _ in range(chk.scale(3, 20))]
    items += [('cut', None)] * chk.scale(150, 2000) + [('broken', b) for b in BROKEN]
    rng.shuffle(items)
    d = tempfile.mkdtemp(dir=chk.scratch)
    parts = split_even(list(enumerate(items)), 16)
    recs = [x for part in pmap(batch, [('%s/%d' % (chk.pid, chk.seed), p, d) for p in parts]) for x in part]
    shutil.rmtree(d)
    for (rec, note), bad in zip(recs, chk.judge('TraceHar', 'INIT Init\nNEXT Next\n', [x[0] for x in recs])):
        if bad:
            chk.fail(bad, {'kind': rec['kind'], 'file': note, 'end': rec['err'], 'creator': rec['creator']})
    for rec, note in recs[:3]:
        chk.sample({'kind': rec['kind'], 'file': note[:600], 'end': rec['err']})
