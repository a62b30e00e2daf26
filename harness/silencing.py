"""C11, C12: notices and silencing.  Sequences of operations on real exchanges, judged by
spec/TraceNotices.tla."""
import re

from vlib import guarded, octets, pmap, split_even

#: (request or None, responses): (method, target, headers, body) and (status, headers, body)
TEMPLATES = [
    (('GET', '/', [], None), [(200, [], b'x')]),
    (('GET', '/', [('Host', 'a'), ('User-Agent', 'x'), ('If-Foo', 'y'), ('Allow', 'GET')], b'x'), [(204, [('Content-Type', 'text/plain'), ('Date', 'x')], b'y')]),
    (('POST', '*', [('Host', 'a b'), ('Content-Length', '5'), ('Accept', 'a/b;q=2')], b'hello'), [(100, [('Server', 'x')], b''), (301, [('Location', ' ')], b'')]),
    (None, [(405, [], b'x'), (200, [('Age', '-1'), ('Warning', '110 - "x"')], None)]),
    (('OPTIONS', 'http://[::1/', [('Host', 'x'), ('Host', 'y')], b''), []),
    (('get', '/a', [('Host', 'a'), ('Cookie', 'x'), ('X-Foo', '1'), ('Accept-Language', 'en;')], b''),
     [(401, [], b''), (200, [('Cache-Control', 'max-age=x, no-store'), ('ETag', 'abc')], b'abc')]),
    (('CONNECT', '/a', [('Host', 'a'), ('Content-Length', '1')], None), [(200, [('Content-Length', '3'), ('Transfer-Encoding', 'foo')], b'')]),
    (('GET', '/x', [('Host', 'a'), ('Authorization', 'Basic QUJDR'), ('Proxy-Authorization', 'Basic QUJDR')], b''), [(200, [('Content-Type', 'application/json')], b'{')]),
    (('PUT', '/x', [('Host', 'a'), ('Content-Range', 'bytes 3-2/4'), ('Expect', '200-ok')], b'{'), [(415, [], b''), (417, [('Vary', '*, Host')], b'')]),
]


def make(tmpl, lines):
    """The exchange of a template; `lines` are the HTTPolice-Silence lines of its messages, in order."""
    import httpolice
    req, resps = tmpl
    rest = list(lines)
    r = None
    if req is not None:
        method, target, headers, body = req
        r = httpolice.Request('http', method, target, 'HTTP/1.1', [(n, v) for n, v in headers] + [('HTTPolice-Silence', v) for v in rest.pop(0)], body)
    out = []
    for status, headers, body in resps:
        out.append(httpolice.Response('HTTP/1.1', status, 'x', headers + [('httpolice-silence', v) for v in rest.pop(0)], body))
    return httpolice.Exchange(r, out)


def parts(exch):
    return [exch] + ([] if exch.request is None else [exch.request]) + list(exch.responses)


def roles(tmpl):
    return ['exch'] + ([] if tmpl[0] is None else ['req']) + ['resp' for _ in tmpl[1]]


def n_messages(tmpl):
    return len(roles(tmpl)) - 1


def seen(exch):
    return [[c.id for c in o.notices] for o in parts(exch)]


def neutral(lines):
    """The same lines silencing nothing that exists."""
    names = {}
    return [[re.sub(b'[0-9]+', lambda m: names.setdefault(m.group(), b'%d' % (9000 + len(names))), v) for v in ls] for ls in lines]


def finds(tmpl, lines):
    import httpolice
    exch = make(tmpl, neutral(lines))
    httpolice.check_exchange(exch)
    return seen(exch)


def collection(ids, kind):
    if kind == 'gen':
        return (x for x in ids)
    if kind == 'iter':
        return iter(list(ids))
    if kind == 'keys':
        return {x: None for x in ids}.keys()
    return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[kind](ids)


KINDS = ['list', 'tuple', 'set', 'frozenset', 'gen', 'iter', 'keys']


def subject(about, via):
    """Something a notice may be about: equal whenever made from the same, different otherwise,
    though it may look the same."""
    from httpolice import structure
    if via == 'entry':
        return structure.HeaderEntry('X-About', about.encode())
    if via == 'param':
        return structure.Parametrized('x', about)
    if via == 'unavailable':
        return structure.Unavailable(about)
    if via == 'bytes':
        return about.encode()
    return ('about', about)


def play(case):
    """case: {'exchs': [[template number, lines]], 'ops': ...}; returns what was seen after each operation."""
    import httpolice
    exchs = [make(TEMPLATES[t], lines) for t, lines in case['exchs']]
    objs = [o for e in exchs for o in parts(e)]
    subjects = {}
    out = []
    for x in case['ops']:
        if x['op'] == 'check':
            httpolice.check_exchange(objs[x['o'] - 1])
        elif x['op'] == 'silence':
            objs[x['o'] - 1].silence(collection(x['ids'], x['as']))
        else:
            # equal, but not identical, whenever raised again
            objs[x['o'] - 1].complain(x['id'], place=subject(x['about'], case.get('via')), **({} if case.get('via') else {'extra': [x['about']]}))
        out.append([v for e in exchs for v in seen(e)])
    return out


def record(case):
    objs = []
    for n, (t, lines) in enumerate(case['exchs']):
        tmpl = TEMPLATES[t]
        ls = [[]] + lines
        for k, f in enumerate(finds(tmpl, lines)):
            objs.append({'exch': n + 1, 'role': roles(tmpl)[k], 'finds': f, 'lines': [octets(v) for v in ls[k]]})
    res = guarded(play, case)
    return {'objs': objs, 'ops': case['ops'], 'obs': res[1] if res[0] == 'ok' else [], 'exc': '' if res[0] == 'ok' else res[1]}


def _records(cases):
    return [record(c) for c in cases]


def run(chk, cases):
    recs = [r for part in pmap(_records, split_even(cases, 16)) for r in part]
    order = [c for part in split_even(cases, 16) for c in part]
    verdicts = chk.judge('TraceNotices', 'INIT Init\nNEXT Next\n', recs)
    for c, r, bad, x in zip(order, recs, verdicts, chk.extra):
        if bad:
            chk.fail(bad, {'exchanges': [{'template': TEMPLATES[t], 'silence lines': [[v.decode('iso-8859-1') for v in ls] for ls in lines]} for t, lines in c['exchs']],
                           'operations': c['ops'], 'found by the check': [o['finds'] for o in r['objs']], 'seen after each': r['obs'], 'exception': r['exc']})
        chk.notes['runs_that_hid_something'] = chk.notes.get('runs_that_hid_something', 0) + bool(x['hidden'])
    chk.notes['runs'] = chk.notes.get('runs', 0) + len(recs)
    chk.sample({'operations': order[0]['ops'][:8], 'seen': recs[0]['obs'][-1:]})
