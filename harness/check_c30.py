"""C30: decoding bodies."""
import codecs
import gzip
import json
import zlib

import brotli

from vlib import guarded, octets, pmap, split_even

ENV = ('INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Once\nINVARIANT Inverse\n'
       'CONSTANT MaxCodings = %d\nCONSTANT MaxLayers = %d\nCONSTANT MaxJson = %d\nCONSTANT MaxXml = %d\nCONSTANT MaxLines = %d\n')
PACK = {'gzip': gzip.compress, 'deflate': zlib.compress, 'br': brotli.compress}
UNPACK = {'gzip': gzip.decompress, 'deflate': zlib.decompress, 'br': brotli.decompress}


def unpacks(c, data):
    try:
        UNPACK[c](data)
    except Exception:       # pylint: disable=broad-except
        return False
    return True


def gzip_members(data, rng):
    if len(data) > 1 and rng.random() < .3:     # a gzip file may have several members
        k = rng.randrange(len(data))
        return gzip.compress(data[:k]) + gzip.compress(data[k:])
    if rng.random() < .3:                       # or a file name in its header
        return b'\x1f\x8b\x08\x08\x00\x00\x00\x00\x02\x03name.txt\x00' + gzip.compress(data)[10:]
    return gzip.compress(data, rng.choice([1, 6, 9]))


def wrap(layers, leaf, rng):
    """The octets under 0, 1, 2... layers, or None if some would decode by accident."""
    stages = [leaf]
    for l in layers:
        data = gzip_members(stages[-1], rng) if l['c'] == 'gzip' else PACK[l['c']](stages[-1])
        if not l['ok']:
            if len(data) < 3:
                return None
            how = rng.randrange(3)
            if how == 0 or l['c'] == 'br':
                data = data[:rng.randint(1, len(data) - 1)]
            elif how == 1:
                k = len(data) - (6 if l['c'] == 'gzip' else 2)       # a checksum
                data = data[:k] + bytes([data[k] ^ 0x5a]) + data[k + 1:]
            else:
                data = bytes([data[0] ^ 0xff]) + data[1:]
            if unpacks(l['c'], data):
                return None
        stages.append(data)
    for k, data in enumerate(stages):
        for c in UNPACK:
            if data and unpacks(c, data) and not (k > 0 and layers[k - 1]['ok'] and layers[k - 1]['c'] == c):
                return None
    return stages


# ------------------------------------------------------------------ rendering

def anycase(s, rng):
    k = rng.randrange(5)
    return s.upper() if k == 0 else s.title() if k == 1 else ''.join(rng.choice([c.lower(), c.upper()]) for c in s) if k == 2 else s


def quote(v, rng):
    tok = v and all(c.isalnum() or c in "!#$%&'*+-.^_`|~" for c in v)
    if tok and rng.random() < .5:
        return v
    return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')


BADCE = ['gzip;q=1', '"gzip"', 'gz ip', 'gzip/1', '(x)', 'gzip;', '=', 'gzip gzip', 'br, gz@ip']
UNKNOWN = ['zz', 'compress', 'exi', 'aes128gcm', 'chunked', 'gzip2', 'x-br', 'brotli', 'gzipp', '8bit', 'x-deflate']


def coding(c, rng):
    if c == 'gzip':
        return anycase(rng.choice(['gzip', 'gzip', 'x-gzip']), rng)
    return anycase(c, rng) if c in ('deflate', 'br') else rng.choice(UNKNOWN) if c == 'zz' else c


def fields(codings, rng):
    """Content-Encoding fields for a list of codings ('?': malformed field)."""
    r, cur = [], []
    for c in codings + [None]:
        if cur and (c in ('?', None) or rng.random() < .5):
            r.append({'ok': True, 'cs': cur})
            cur = []
        if c == '?':
            r.append({'ok': False, 'cs': []})
        elif c is not None:
            cur = cur + [coding(c, rng)]
    return r


def ctype(ct, rng):
    if not ct['ok']:
        return rng.choice(['application', '/json', 'application/json;', 'text/html; charset', 'a/b/c', 'application/json, text/html', 'application/json charset=utf-8', 'text/ html', '"a/b"'])
    r = anycase(ct['mt'], rng)
    for n, v in ct['ps']:
        r += rng.choice(['; ', ';', ' ; ', ';\t']) + anycase(n, rng) + '=' + quote(v, rng)
    return r


JP = {'Q': '"a"', 't': 'true', 'dq': '"', 'bs': '\\'}
XP = {'decl': ['<?xml version="1.0"?>', "<?xml version='1.0' encoding='UTF-8'?>", '<?xml version="1.0" standalone="yes" ?>'], 'com': ['<!-- c -->', '<!---->', '<!--<a>&-->'], 'pi': ['<?p d?>', '<?p?>', '<?xml-stylesheet href="x"?>'],
      'ws': [' ', '\n', '\t\r\n'], 'text': ['x', 'a b', '&#65;', 'é', '&#x263A;', '☃'], 'oa': ['<a>', '<a >', '<a x="1">', "<a x='&lt;' y=\"2\">"], 'ob': ['<b>', '<b\n>'], 'ca': ['</a>', '</a >'], 'cb': ['</b>'],
      'ea': ['<a/>', '<c />', '<n:x xmlns:n="urn:x"/>'], 'dt': ['<!DOCTYPE a>', '<!DOCTYPE a []>', '<!DOCTYPE a [<!ELEMENT a ANY>]>', '<!DOCTYPE a [ <!-- x --> <!ATTLIST a z CDATA "1"> ]>'],
      'dte': ['<!DOCTYPE a [<!ENTITY e "x">]>', '<!DOCTYPE a [<!ELEMENT a ANY><!ENTITY e SYSTEM "file:///x">]>', '<!DOCTYPE a [<!ENTITY a "1"><!ENTITY b "&a;&a;">]>', '<!DOCTYPE a [<!ENTITY % p "x">]>'],
      'amp': ['&amp;', '&lt;', '&quot;&apos;'], 'ent': ['&nope;', '&nbsp;'], 'cdata': ['<![CDATA[x]]>', '<![CDATA[<&]]>', '<![CDATA[]]>'], 'lt': ['< ', '<1'], 'bare': ['& ', '&;'], 'bad': None}


def xml(toks, rng):
    out = b''.join(b'\xff' if t == 'bad' else rng.choice(XP[t]).encode('utf-8') for t in toks)
    return out


MP = {'sep': '--%s\r\n', 'sepws': '--%s \t\r\n', 'end': '--%s--\r\n', 'text': 'x: y\r\n', 'sepx': '--%sx\r\n', 'dash': '--\r\n', 'nl': '\r\n', 'spsep': ' --%s\r\n'}
BOUNDARIES = ['B', 'simple boundary', "'()+_,-./:=?", 'a.b', '--', 'a*', 'A+', '=_x', '[x]', 'B-', 'x' * 70, '0', 'a|b', '$', '^x', 'b\\b']


def multi(seq, b, rng):
    s = ''.join(MP[p] % b if '%s' in MP[p] else MP[p] for p in seq)
    if s.endswith('\r\n') and rng.random() < .3:
        s = s[:-2]
    return s.encode('ascii')


JSONT = ['application/json', 'application/problem+json', 'image/x+json', 'application/vnd.api+json']
XMLT = ['application/xml', 'text/xml', 'image/svg+xml', 'application/atom+xml']
OTHERT = ['text/plain', 'application/octet-stream', 'text/html', 'application/jsonx', 'application/json-seq', 'text/json', 'application/xml-dtd', 'json/x', 'multipart', 'application/multipart', 'application/+jsonn']
MULTIT = ['multipart/form-data', 'multipart/mixed', 'multipart/byteranges', 'multipart/x']
GOODCS = ['utf-8', 'utf8', 'us-ascii', 'ascii', 'iso-8859-1', 'latin1', 'latin-1', 'utf-16le', 'utf-16be']
BADCS = ['foo', 'hex', 'rot13', 'base64', 'utf-99', '', 'zlib', 'x y', 'bz2', 'utf-9']
NOCT = {'has': False, 'ok': False, 'mt': '', 'ps': []}


def blank(rng, req=None):
    if req is None:
        req = rng.random() < .5
    return {'req': req, 'st': 0 if req else rng.choice([200, 200, 200, 404, 206, 206, 304, 204, 103, 500]),
            'meth': 'POST' if req else rng.choice(['', '', 'GET', 'GET', 'HEAD', 'POST', 'head']), 'av': 'bytes', 'codings': [], 'layers': [], 'leaf': b'', 'xml': [], 'ct': NOCT}


def full(rng):
    c = blank(rng)
    if not c['req']:
        c.update(st=200, meth='GET')
    return c


def has(mt, *ps):
    return {'has': True, 'ok': True, 'mt': mt, 'ps': list(ps)}


def rand_json(rng, depth=0):
    k = rng.randrange(9 if depth < 3 else 7)
    if k == 7:
        return [rand_json(rng, depth + 1) for _ in range(rng.randrange(4))]
    if k == 8:
        return {rng.choice(['a', 'é', '', 'k"', '☃', '\n']): rand_json(rng, depth + 1) for _ in range(rng.randrange(3))}
    return rng.choice([True, False, None, 0, -1, 12345, 1.5, -2e-7, 1e22, '', 'x', 'é☃', '\U0001f600', 'a\\b', '\x7f', '\u2028', '<a>'])


def json_text(rng):
    s = json.dumps(rand_json(rng), ensure_ascii=rng.random() < .5, indent=rng.choice([None, None, 1]))
    if rng.random() < .15:
        return rng.choice(['NaN', '[Infinity]', '-Infinity', '{"a": NaN}', "{'a': 1}", '[1,]', '{"a":1,}', '01', '+1', '.5', '1.', '\ufeff1', '"\x01"', '"a\tb"', '// x\n1', '[1 2]', 'True', 'nul', '"\\x41"', '"\\u12"', '\xa0 1', '1\x0b', '""""', '{1: 2}', '- 1', '1e', '"\\ud800"', '[]]', '\x00', '1\x00', '\v', ' '])
    while s and rng.random() < .25:
        k = rng.randrange(len(s))
        s = rng.choice([s[:k] + s[k + 1:], s[:k] + rng.choice('{}[]",:0-e.\\ ntf\x00\t') + s[k:], s[:k], s + s[k]])
    return s


def rand_leaf(rng, ct):
    mt = ct['mt'].lower()
    if rng.random() < .08:
        return b'', []
    if mt in JSONT or rng.random() < .1:
        cs = dict(ct['ps']).get('charset', 'utf-8')
        s = json_text(rng)
        try:
            return s.encode(cs if cs in GOODCS else 'utf-8', 'strict' if rng.random() < .5 else 'replace'), []
        except (UnicodeError, LookupError):
            return s.encode('utf-8'), []
    if mt in XMLT:
        toks = [rng.choice(['oa', 'text', 'amp', 'ob', 'cb', 'ca', 'ea', 'com', 'pi', 'ws', 'cdata', 'ent', 'lt', 'bare', 'bad', 'dt', 'dte', 'decl']) for _ in range(rng.randrange(4))] if rng.random() < .3 else rand_xml(rng)
        return xml(toks, rng), toks
    if mt in MULTIT:
        return multi([rng.choice(list(MP)) for _ in range(rng.randrange(7))], dict(ct['ps']).get('boundary', 'B'), rng), []
    if mt == 'application/x-www-form-urlencoded':
        s = ''.join(rng.choice(['a', '=', '&', '%20', '+', '1', '*', '-', '_', '.', 'Zz', '%', ''] + ([chr(rng.randrange(256))] if rng.random() < .1 else [])) for _ in range(rng.randrange(12)))
        return s.encode('latin-1'), []
    return rng.choice([b'hello world', 'é☃'.encode('utf-8'), b'caf\xe9', b'\x00\x01\x02', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\x80', b'\xe0\x80\xaf', b'\xf0\x9f\x98\x80', b'\x3d\xd8\x00\xde', b'\x3d\xd8a\x00', b'a\x00b', b'\xff\xfea\x00', b'\xef\xbb\xbfa',
                       bytes(rng.randrange(256) for _ in range(rng.randrange(1, 6))), bytes(rng.choice([0xc2, 0xa9, 0xe2, 0x98, 0x83, 0xf0, 0x9f, 0x41, 0xd8, 0xdc, 0]) for _ in range(rng.randrange(1, 7)))]), []


def rand_xml(rng):
    toks = []
    if rng.random() < .5:
        toks.append('decl')
    while rng.random() < .3:
        toks.append(rng.choice(['com', 'pi', 'ws']))
    if rng.random() < .3:
        toks.append(rng.choice(['dt', 'dt', 'dte']))
    def content(d):
        while rng.random() < .6:
            k = rng.choice(['text', 'amp', 'cdata', 'com', 'pi', 'ws', 'ea', 'el', 'el'])
            if k == 'el' and d < 3:
                e = rng.choice('ab')
                toks.append('o' + e)
                content(d + 1)
                toks.append('c' + e)
            elif k != 'el':
                toks.append(k)
    toks.append('oa')
    content(0)
    toks.append('ca')
    while rng.random() < .2:
        toks.append(rng.choice(['com', 'pi', 'ws']))
    if rng.random() < .2:
        k = rng.randrange(len(toks))
        toks[k:k + rng.randrange(2)] = [rng.choice(list(XP))]
    return toks


def rand_case(rng):
    c = blank(rng)
    r = rng.random()
    if r < .1:
        c['ct'] = NOCT
    elif r < .15:
        c['ct'] = {'has': True, 'ok': False, 'mt': '', 'ps': []}
    else:
        mt = rng.choice(rng.choice([JSONT, XMLT, MULTIT, OTHERT[:-4] + ['text/x'], ['application/x-www-form-urlencoded']]))
        if '/' not in mt:
            mt = 'text/plain'
        ps = []
        if rng.random() < .4:
            ps.append(('charset', rng.choice(GOODCS if rng.random() < .7 else BADCS)))
        if (mt in MULTIT and rng.random() < .85) or rng.random() < .05:
            ps.append(('boundary', rng.choice(BOUNDARIES)))
        if rng.random() < .2:
            ps.append((rng.choice(['q', 'profile', 'x-boundary', 'charsets']), rng.choice(['1', 'B', 'utf-16', 'a"b'])))
        rng.shuffle(ps)
        c['ct'] = {'has': True, 'ok': True, 'mt': mt, 'ps': ps}
    r = rng.random()
    c['av'] = 'none' if r < .04 else 'unav' if r < .08 else 'bytes'
    if rng.random() < .35:
        c['layers'] = [{'c': rng.choice(['gzip', 'deflate', 'br']), 'ok': rng.random() < .85} for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        c['codings'] = [l['c'] for l in c['layers']]
        while rng.random() < .25:
            c['codings'].insert(rng.randrange(len(c['codings']) + 1), rng.choice(['gzip', 'br', 'deflate', 'zz', '?']))
        if rng.random() < .15 and c['codings']:
            c['codings'].pop(rng.randrange(len(c['codings'])))
    elif rng.random() < .1:
        c['codings'] = [rng.choice(['gzip', 'br', 'deflate', 'zz', '?']) for _ in range(rng.randint(1, 3))]
    c['leaf'], c['xml'] = rand_leaf(rng, c['ct'])
    if not c['leaf'] and dict(c['ct']['ps']).get('charset') in BADCS:       # empty text is text in any encoding, or not: left open
        c['leaf'], c['xml'] = b'\xff', ['bad']
    return c


def enumerated(p, rng):
    """A case for what TLC enumerated."""
    c = full(rng)
    if p['kind'] == 'coding':
        c = blank(rng)
        c.update(codings=p['seq'], layers=p['layers'], leaf=rng.choice([b'hello', b'a' * 40, b'', 'é'.encode()]))
        if rng.random() < .5:
            c['ct'] = has(rng.choice(JSONT + OTHERT[:3]))
    elif p['kind'] == 'json':
        c.update(ct=has(rng.choice(JSONT)), leaf=''.join(JP.get(x, x) for x in p['seq']).encode())
    elif p['kind'] == 'xml':
        c.update(ct=has(rng.choice(XMLT)), leaf=xml(p['seq'], rng), xml=p['seq'])
    else:
        b = rng.choice(BOUNDARIES)
        c.update(ct=has(rng.choice(MULTIT), ('boundary', b)), leaf=multi(p['seq'], b, rng))
        if c['st'] == 206:
            c['st'] = 200
    return c


# ------------------------------------------------------------------- running

def show(x):
    from httpolice.structure import Unavailable
    if x is None:
        return {'k': 'none', 'v': []}
    if isinstance(x, Unavailable):
        return {'k': 'unav', 'v': []}
    return {'k': 'ok', 'v': list(x) if isinstance(x, bytes) else [ord(ch) for ch in x]}


def observe(c):
    import httpolice
    from httpolice.structure import Unavailable
    outer = c['stages'][-1]
    body = None if c['av'] == 'none' else Unavailable(outer) if c['av'] == 'unav' else outer
    hs = [(c['names'][0], f.encode('latin-1')) for f in c['ceraw']]
    if c['ct']['has']:
        at = c['ctpos'] % (len(hs) + 1)
        hs.insert(at, (c['names'][1], c['ctraw'].encode('latin-1')))
        if c['ctpast']:             # the last field counts
            hs.insert(at, (c['names'][1], c['ctpast'].encode('latin-1')))
    if c['req']:
        msg = httpolice.Request('http', c['meth'], '/', 'HTTP/1.1', hs, body)
        ex = httpolice.Exchange(msg, [])
    else:
        msg = httpolice.Response('HTTP/1.1', c['st'], 'OK', hs, body)
        ex = httpolice.Exchange(httpolice.Request('http', c['meth'], '/', 'HTTP/1.1', [], b'') if c['meth'] else None, [msg])
    httpolice.check_exchange(ex)
    return {'body': show(msg.decoded_body), 'text': show(msg.unicode_body), 'ids': [n.id for n in msg.notices]}


def complete(c, rng):
    c['stages'] = wrap(c['layers'], c['leaf'], rng)
    if c['stages'] is None:
        return None
    c['ce'] = fields(c['codings'], rng)
    c['ceraw'] = [', '.join(f['cs']) if f['ok'] else rng.choice(BADCE) for f in c['ce']]
    c.setdefault('ctraw', ctype(c['ct'], rng) if c['ct']['has'] else '')
    c['ctpos'] = rng.randrange(4)
    c['ctpast'] = rng.choice(['text/plain', 'multipart/mixed; boundary=zz', 'multipart/mixed', 'application/json; charset=utf-16', 'foo', 'application/xml']) if rng.random() < .06 else ''
    c['names'] = [anycase('content-encoding', rng), anycase('content-type', rng)]
    return c


def record(c):
    res = guarded(observe, c)
    case = {'req': c['req'], 'st': c['st'], 'meth': c['meth'], 'av': c['av'], 'layers': c['layers'], 'xml': c['xml'],
            'stages': [octets(s) for s in c['stages']], 'ce': [{'ok': f['ok'], 'cs': [octets(x) for x in f['cs']]} for f in c['ce']],
            'ct': dict(c['ct'], mt=octets(c['ct']['mt']), ps=[{'n': octets(n), 'v': octets(v)} for n, v in c['ct']['ps']])}
    none = {'k': '', 'v': []}
    return dict(res[1], c=case, exc='') if res[0] == 'ok' else {'c': case, 'exc': res[1], 'body': none, 'text': none, 'ids': []}


def batch(args):
    import random
    seed, items = args
    out = []
    for n, p in items:
        rng = random.Random('%s/%s' % (seed, n))
        for _ in range(20):
            c = complete(dict(p) if p and 'leaf' in p else rand_case(rng) if p is None else enumerated(p, rng), rng)
            if c is not None:
                out.append((c, record(c)))
                break
    return out


def explicit():
    """Inputs of the known findings, and some that need to be exact."""
    rng = __import__('random').Random(0)
    base = {'req': True, 'st': 0, 'meth': 'POST', 'av': 'bytes', 'codings': [], 'layers': [], 'leaf': b'', 'xml': [], 'ct': NOCT}
    yield 'quoted-pair-boundary', dict(base, ct=has('multipart/mixed', ('boundary', 'BND')), ctraw='multipart/mixed; boundary="\\BND"', leaf=b'--BND\r\n\r\nx\r\n--BND--\r\n')
    yield 'json-huge-integer', dict(base, ct=has('application/json'), leaf=b'[' + b'1' * 4301 + b']')
    # what comes late in a long body
    for tail in (b' c', b'%20', b'\xe9', b'', b'&"'):
        yield '', dict(base, ct=has('application/x-www-form-urlencoded'), leaf=b'a=' + b'b' * 2200 + tail)
    for tail in (b'"', b'\xff"', b'"x', b'', b'\xc3\xa9"'):
        yield '', dict(base, ct=has('application/json'), leaf=b'"' + b'b' * 2200 + tail)
    for k in range(256):
        yield '', dict(base, ct=has('application/x-www-form-urlencoded'), leaf=b'a=' + bytes([k]))
        yield '', dict(base, ct=has('application/json', *([('charset', 'iso-8859-1')] if rng.random() < .3 else [])), leaf=b'"' + bytes([k]) + b'"')


def readable(c):
    return {'message': 'request' if c['req'] else 'response %d to %s' % (c['st'], c['meth'] or 'unknown'), 'content_type': [c['ctpast'], c['ctraw']] if c['ct']['has'] else None, 'content_encoding': c['ceraw'],
            'layers': c['layers'], 'body': c['av'], 'leaf': repr(c['leaf'][:200])}


def run(chk):
    rng = chk.rng
    r = chk.explore('BodyEnv', ENV % chk.scale((2, 2, 3, 3, 3), (3, 3, 4, 4, 5)), workers=4)
    cases = sorted(r.prints, key=str)
    chk.notes['cases_enumerated'] = len(cases)
    lim = chk.scale(9000, 120000)
    if len(cases) > lim:
        cases = rng.sample(cases, lim)
    chk.notes['cases_enumerated_and_run'] = len(cases)
    cases += [None] * chk.scale(9000, 120000)
    labels = {}
    for lab, c in explicit():
        if lab:
            labels[len(cases)] = lab
        cases.append(c)
    parts = split_even(list(enumerate(cases)), 16)
    recs, labs = [], []
    for part, got in zip(parts, pmap(batch, [('%s/%d' % (chk.pid, chk.seed), p) for p in parts])):
        recs += got
    byleaf = {id_: lab for id_, lab in ((c['leaf'], labels[k]) for k, c in enumerate(cases) if k in labels)}
    for (c, rec), bad in zip(recs, chk.judge('TraceBody', 'INIT Init\nNEXT Next\n', [x[1] for x in recs])):
        if bad:
            chk.fail(bad, dict(readable(c), explicit=byleaf.get(c['leaf'], ''), got={'body': rec['body']['k'], 'text': rec['text']['k'], 'ids': rec['ids']}, exc=rec['exc']))
    for c, _ in recs[-900:-896]:
        chk.sample(readable(c))
