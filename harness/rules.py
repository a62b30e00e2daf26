"""C20-C28: the rules.  Each check replays (a) the exchanges TLC enumerated in the
scopes of spec/RulesEnv.tla and (b) random, larger ones; TLC judges them all
against spec/Rules.tla."""
import os
import re

import exgen
import exrun
from exgen import Gen, Render
from vlib import tmap


def rng_ids(text):
    r = set()
    for part in text.split():
        a, _, b = part.partition('-')
        r |= set(range(int(a), int(b or a) + 1))
    return r


#: what each property is about; see properties.jsonl
IDS = {
    'C20': '1021 1022 1028-1032 1041 1053 1056 1057 1059 1061-1063 1066-1068 1070 1093 1116 1213 1276 1285 1287-1290 1292 1295',
    'C21': '1018 1023 1052 1064 1076 1078-1080 1082-1084 1088 1089 1094 1110-1113 1118 1147 1167 1190 1194 1195 1198 1205 1217 1218-1220 1227 '
           '1235 1240 1243 1294 1310',
    'C22': '1019 1024 1033 1041 1058 1071-1074 1077 1081 1086 1087 1090 1092 1095-1106 1114 1115 1117 1199 1201 1203 1204 '
           '1214-1216 1221 1239 1242 1283 1284 1286 1291 1306',
    'C23': '1152 1153 1159-1166 1168-1188 1193 1202 1238 1241 1301-1303',
    'C24': '1120-1125 1127-1132 1134-1138 1141-1147 1149 1150 1200',
    'C25': '1020 1025 1030 1034 1047-1051 1054 1071 1228 1230-1234 1244-1246 1258 1260 1304 1305',
    'C26': '1196 1206-1212 1261-1274',
    'C27': '1045 1046 1055 1060 1085 1189-1192 1236 1237',
}
# everything the rules cover: a 103 response gets exactly what they leave
IDS['C28'] = ' '.join(IDS.values()) + ' 1035 1042 1109 1197 1277 1280 1293'

R, S = 'freq', 'fresp'
#: random generation: focus headers, methods, statuses, weights
FOCUS = {
    'C20': [dict(freq=['content-length', 'transfer-encoding', 'content-type', 'te', 'connection', 'host', 'expect', 'max-forwards', 'referer', 'user-agent',
                       'accept', 'accept-charset', 'accept-encoding', 'accept-language', 'prefer', 'prefer', 'content-encoding', 'content-range'], nresp=0)],
    'C21': [dict(fresp=['location', 'allow', 'accept-patch', 'accept-post', 'vary', 'link', 'date', 'last-modified', 'content-type', 'content-length',
                        'transfer-encoding', 'connection', 'www-authenticate', 'proxy-authenticate', 'strict-transport-security', 'retry-after', 'content-range'],
                 noreq=.5),
            dict(fresp=['link', 'link', 'link'], statuses=[451], nresp=1, noreq=.5)],
    'C22': [dict(freq=['content-type', 'content-length', 'expect', 'content-range', 'accept', 'accept-language', 'prefer', 'upgrade', 'if-range', 'prefer'],
                 fresp=['allow', 'accept-patch', 'preference-applied', 'preference-applied', 'upgrade', 'vary', 'content-type', 'transfer-encoding',
                        'content-length', 'connection', 'location', 'cache-control'], noreq=.03),
            dict(freq=['prefer', 'upgrade'], fresp=['preference-applied', 'upgrade', 'vary'], statuses=[200, 201, 204, 426, 101], noreq=0, nresp=1),
            dict(freq=['accept', 'accept-charset', 'accept-encoding', 'accept-language', 'accept-language'], statuses=[406], noreq=0, nresp=1),
            dict(methods=['CONNECT', 'HEAD', 'OPTIONS', 'PATCH', 'PUT'], fresp=['allow', 'accept-patch', 'connection', 'transfer-encoding', 'content-length'],
                 freq=['content-type', 'content-range'], statuses=[200, 201, 300, 301, 415], noreq=0, nresp=1)],
    'C23': [dict(freq=['cache-control', 'cache-control', 'pragma', 'warning'],
                 fresp=['cache-control', 'cache-control', 'age', 'age', 'date', 'expires', 'warning', 'pragma'], methods=['GET', 'GET', 'HEAD', 'POST', 'PUT'],
                 statuses=[200, 200, 203, 206, 301, 304, 404, 201, 307, 403, 428, 511, 103])],
    'C24': [dict(freq=['if-match', 'if-none-match', 'if-modified-since', 'if-unmodified-since', 'if-range', 'range', 'if'],
                 fresp=['etag', 'last-modified', 'content-range', 'content-type', 'content-encoding', 'content-location'],
                 methods=['GET', 'GET', 'GET', 'HEAD', 'POST', 'PUT', 'OPTIONS'], statuses=[200, 206, 206, 304, 412, 416, 428], noreq=.03),
            dict(freq=['if-none-match', 'if-modified-since', 'if-range', 'range'], fresp=['etag', 'last-modified', 'etag'],
                 methods=['GET'], statuses=[200, 206], noreq=0, nresp=1)],
    'C25': [dict(freq=['connection', 'upgrade', 'http2-settings', 'te', 'trailer', 'transfer-encoding', 'content-length', 'expect', 'keep-alive'],
                 fresp=['connection', 'upgrade', 'trailer', 'transfer-encoding', 'content-length', 'alt-svc', 'keep-alive'],
                 statuses=[100, 101, 101, 103, 200, 204, 421, 426]),
            dict(freq=['expect', 'upgrade', 'connection'], fresp=['upgrade', 'connection', 'alt-svc'], statuses=[100, 101, 102, 200, 421, 421], nresp=3, noreq=.05),
            dict(freq=['upgrade', 'http2-settings'], fresp=['upgrade', 'upgrade'], statuses=[101], noreq=0, nresp=1)],
    'C26': [dict(freq=['authorization', 'proxy-authorization', 'content-type', 'cache-control'],
                 fresp=['www-authenticate', 'www-authenticate', 'proxy-authenticate', 'cache-control'], statuses=[200, 400, 401, 401, 403, 407]),
            dict(freq=['authorization'], fresp=['www-authenticate'], statuses=[401, 400, 403], noreq=0, nresp=1, methods=['GET', 'POST']),
            dict(freq=['content-type'], fresp=['www-authenticate'], statuses=[401, 400, 403], noreq=0, nresp=1, methods=['POST'])],
    'C27': [dict(freq=['warning', 'via', 'cache-control', 'host'], fresp=['location', 'content-location', 'location', 'content-location', 'warning', 'via', 'cache-control'],
                 methods=['GET', 'GET', 'HEAD', 'POST', 'DELETE', 'CONNECT', 'OPTIONS'], statuses=[200, 201, 203, 204, 301, 302, 303, 307, 308, 300, 304, 206])],
    'C28': [dict(statuses=[103], nresp=1, noreq=.3), dict(statuses=[103, 103, 200], nresp=2, noreq=.1),
            dict(statuses=[103], nresp=1, noreq=.1, fresp=['cache-control', 'age', 'warning', 'expires', 'date', 'connection', 'upgrade', 'content-type', 'location',
                                                           'transfer-encoding', 'content-length', 'retry-after', 'allow', 'accept-patch', 'vary', 'preference-applied'])],
}
SCOPES = {
    'C20': ['c20-framing', 'c20-host', 'c20-values', 'c20-prefer'], 'C21': ['c21', 'c21-pairs'], 'C22': ['c22-pairs', 'c22-headers'],
    'C23': ['c23-resp', 'c23-pair'], 'C24': ['c24-cond', 'c24-range'], 'C25': ['c25-conn', 'c25-upgrade'], 'C26': ['c26-cred', 'c26-chal', 'c26-where'],
    'C27': ['c27-uri', 'c27-proxy'], 'C28': ['c28'],
}
ENV = 'INIT Init\nNEXT Next\nINVARIANT Emit\n%sCONSTANTS ScopeName = "%s"\n Part = %d\n Parts = %d\n Emitting = %s\n'


def enumerate_scope(chk, scope, want, invariants=(), workers=4):
    """Exchanges of a scope: all of them, or a share of about `want`."""
    inv = ''.join('INVARIANT %s\n' % i for i in invariants)
    total = chk.explore('RulesEnv', ENV % ('', scope, 0, 1, 'FALSE'), workers=workers).distinct
    parts = max(1, -(-total // want))
    r = chk.tlc('RulesEnv', ENV % (inv, scope, chk.seed % parts, parts, 'TRUE'), workers=workers, heap='3g')
    d = chk.notes.setdefault('scopes', {})
    d[scope] = {'exchanges_in_scope': total, 'replayed': len(r.prints), 'share': '1/%d' % parts}
    return r.prints


def norm(exs):
    """TLC prints empty sequences and empty strings alike where types are open."""
    for ex in exs:
        for m in ([] if 'none' in ex['req'] else [ex['req']]) + list(ex['resps']):
            for e in m['hdrs']:
                if e['n'] in Render.LISTS and not e['star'] and e['ok'] and e['v'] == '':
                    e['v'] = []
    return exs


def known(name):
    """A set of names of spec/Known.tla."""
    text = open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'Known.tla')).read()
    return sorted(re.findall(r'"([^"]*)"', re.search(r'(?m)^%s == TLCEval\(\{([^}]*)\}' % name, text).group(1)))


#: where a header is tried: (side, in a trailer, method, status, another header)
PLACES = [('q', False, 'GET', 200), ('q', False, 'HEAD', 304), ('q', False, 'POST', 412), ('q', False, 'GET', 428), ('q', False, 'GET', 406), ('q', True, 'POST', 200),
          ('p', False, 'GET', 200), ('p', False, 'GET', 100), ('p', False, 'GET', 304), ('p', False, 'HEAD', 204), ('p', False, 'PUT', 206), ('p', False, 'GET', 412),
          ('p', True, 'GET', 200)]


def table(rng):
    """Every known header, method and status, in a number of situations each."""
    g = Gen(rng, bad=0, few=1)

    def body(st='empty'):
        return {'st': st, 'kind': 'text', 'pairs': [], 'parts': []}

    def exchange(method, status, rbody='empty', **kw):
        ex = simple(method=method, status=status, **kw)
        if status in (206, 200) and method != 'HEAD' or rbody != 'empty':
            ex['resps'][0]['body'] = body('some')
        return ex

    for n in known('HdrKnown') + ['x-foo', 'foo']:
        for name in ('connection', 'trailer', 'vary'):
            if n == 'trailer' or name == 'vary' and n == '*':
                continue
            h = exgen.header(name, [n])
            for ex in ([exchange('GET', 200, req_headers=[h])] if name != 'vary' else []) + [exchange('GET', 200, resp_headers=[h])]:
                yield ex
        for side, trailer, method, status in PLACES:
            if n == 'host' and side == 'q' or trailer and n in ('transfer-encoding', 'content-length', 'trailer', 'host'):
                continue
            hs = [g.hdr(n, t=trailer)]
            if method == 'PUT' and n != 'if-range':
                ex = exchange(method, status, req_headers=[g.hdr('if-range')], resp_headers=hs)
            elif trailer:
                hs.insert(0, exgen.header('transfer-encoding', [{'i': 'chunked'}]))
                ex = exchange(method, status, **{'req_headers' if side == 'q' else 'resp_headers': hs})
            else:
                ex = exchange(method, status, **{'req_headers' if side == 'q' else 'resp_headers': hs})
            for m in [ex['req']] + ex['resps']:
                g.fix(m)
            yield ex
    for m in known('MethKnown') + ['FOO', 'get']:
        for st in (200, 201, 202, 204, 206, 301, 302, 303, 304, 405, 409, 421, 501, 428, 412, 100):
            yield exchange(m, st)
        yield exchange(m, 200, req_headers=[exgen.header('prefer', [{'n': 'respond-async', 'v': ''}])])
        yield exchange(m, 405, resp_headers=[exgen.header('allow', [m] if m == m.upper() else ['GET'])])
        yield exchange(m, 200, resp_headers=[exgen.header('allow', [m, 'GET'])])
        for h in ('content-length', 'content-type', 'transfer-encoding', 'cache-control', 'max-forwards', 'if-none-match'):
            yield exchange(m, 200, req_headers=[g.hdr(h)], body=body('some') if h.startswith('content') else None)
        for h in ('cache-control', 'age', 'etag', 'location', 'content-location'):
            yield exchange(m, 200, resp_headers=[g.hdr(h), g.hdr('date')])
    for st in sorted(set(Gen.STATUSES) | {198, 298, 398, 498, 598, 104, 227, 304, 418, 452}):
        for m in ('GET', 'HEAD', 'POST', 'CONNECT', 'DELETE'):
            yield exchange(m, st)
            yield exchange(m, st, 'some', resp_headers=[g.hdr('content-type')])
        for h in ('location', 'retry-after', 'content-length', 'transfer-encoding', 'allow', 'www-authenticate', 'vary', 'cache-control', 'age', 'upgrade',
                  'content-range', 'etag', 'expires', 'link', 'accept-patch', 'preference-applied'):
            yield exchange('GET', st, resp_headers=[g.hdr(h)])


def run(chk, ids=None, scopes=None, focus=None, quick=(4000, 9000), thorough=(200000, 150000), invariants=(), explicit=()):
    """`explicit`: (name, abstract exchange) pairs, with values written out."""
    ids = rng_ids(IDS[chk.pid]) if ids is None else ids
    scopes = SCOPES[chk.pid] if scopes is None else scopes
    focus = FOCUS[chk.pid] if focus is None else focus
    exs = []
    for part in tmap(lambda s: enumerate_scope(chk, s, chk.scale(quick[0], thorough[0]), invariants), scopes, 2):
        exs += norm(part)
    n = chk.scale(quick[1], thorough[1])
    gens = [(Gen(chk.rng, bad=b, few=few)) for b, few in ((.12, 4), (.05, 3), (.25, 6), (.1, 8))]
    for k in range(n):
        f = focus[k % len(focus)]
        g = gens[k // len(focus) % len(gens)]
        exs.append(g.exchange(**(f if k % 5 else {})))
    chk.notes['random_exchanges'] = n
    t = list(table(chk.rng))
    chk.notes['known_headers_methods_statuses'] = len(t)
    exs += t
    if explicit:
        exrun.run_exchanges(chk, [dict(ex, name=name) for name, ex in explicit], ids)
    for k in range(0, len(exs), 40000):
        exrun.run_exchanges(chk, exs[k:k + 40000], ids)


def simple(req_headers=(), resp_headers=(), method='GET', status=200, body=None, rbody=None):
    """A plain exchange over HTTP/1.1; headers are abstract entries, perhaps with 'raw'."""
    empty = {'st': 'empty', 'kind': 'text', 'pairs': [], 'parts': []}
    req = {'kind': 'req', 'method': method, 'mok': True, 'up': method.upper(), 'ver': 'HTTP/1.1', 'scheme': 'http',
           'tgt': exgen.tgt('/a', o=True, u=exgen.U('-', '-', '/a')), 'body': body or empty,
           'hdrs': [exgen.header('host', 'example.com')] + list(req_headers)}
    resp = {'kind': 'resp', 'status': status, 'rok': True, 'ver': 'HTTP/1.1', 'hdrs': list(resp_headers), 'body': rbody or empty}
    return {'req': req, 'resps': [resp]}
