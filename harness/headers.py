"""C10, C29 and the parts of C23 and C24 that are about single header lines:
sentences and near-sentences of the header grammars, judged by spec/TraceHeader.tla."""
import collections
import re

from lexgen import Lex
from vlib import guarded, octets, pmap, split_even
from exrun import tlaset

#: headers only found in responses (others are put into requests)
RESPONSE = {'accept-patch', 'accept-post', 'accept-ranges', 'access-control-allow-credentials', 'access-control-allow-headers', 'access-control-allow-methods',
            'access-control-allow-origin', 'access-control-expose-headers', 'access-control-max-age', 'age', 'allow', 'alt-svc', 'content-disposition',
            'content-range', 'cross-origin-resource-policy', 'etag', 'expires', 'last-modified', 'link', 'location', 'preference-applied',
            'proxy-authenticate', 'retry-after', 'server', 'strict-transport-security', 'vary', 'www-authenticate', 'x-content-type-options'}
#: silences that would hide what is observed
HIDING = re.compile('1000|10[14]|12|11|13')
SYNTAX_IDS = {1000}
SEMANTIC_IDS = {1014, 1015, 1017, 1107, 1108, 1119, 1151, 1222, 1223, 1225, 1226, 1247, 1248, 1249, 1250, 1251, 1252, 1253, 1254, 1256, 1257,
                1282, 1296, 1297, 1299, 1300, 1307, 1308, 1309}
ARGUMENT_IDS = {1154, 1155, 1156, 1157, 1158}
RANGE_IDS = {1133, 1148}


def message(case):
    """The message of a case, and an exchange with it."""
    import httpolice
    n = case['n']
    values = [bytes(e) for e in case['es']]
    tr = []
    method, target, reason, hdrs = 'GET', '/', 'OK', [('Host', 'example.com')]
    if case['k'].startswith('x_'):
        text = values[0].decode('iso-8859-1')
        if case['k'] == 'x_method':
            method = text
        elif case['k'] == 'x_name':
            hdrs.append((text, b'x'))
        elif case['k'] == 'x_reason':
            reason = text
        else:
            target = text
            method = {'x_target_connect': 'CONNECT', 'x_target_options': 'OPTIONS'}.get(case['k'], 'GET')
    elif n == 'host':
        hdrs = [(case['name'], v) for v in values]
    else:
        hdrs += [(case['name'], v) for v in values]
        if case['tr']:
            tr = [hdrs.pop()]
    if n in RESPONSE or case['k'] == 'x_reason':
        msg = httpolice.Response('HTTP/1.1', 200, reason, hdrs, None, tr)
        exch = httpolice.Exchange(None, [msg])
    else:
        msg = httpolice.Request('http', method, target, 'HTTP/1.1', hdrs, None, tr)
        exch = httpolice.Exchange(msg, [])
    return msg, exch


def observe(case):
    import httpolice
    msg, exch = message(case)
    httpolice.check_exchange(exch)
    ids = collections.Counter(c.id for c in msg.notices)
    syn = ids.pop({'x_method': 1292, 'x_name': 1293, 'x_reason': 1294}.get(case['k'], 1045 if case['k'].startswith('x_') else 1000), 0)
    return [syn, sorted([i, k] for i, k in ids.items())]


def _run(cases):
    out = []
    for c in cases:
        res = guarded(observe, c)
        syn, obs = res[1] if res[0] == 'ok' else (0, [])
        out.append({'k': c['k'], 'n': c['n'], 'es': c['es'], 'syn': syn, 'obs': obs, 'exc': '' if res[0] == 'ok' else res[1]})
    return out


def grammar_dump(chk):
    return chk.explore('GrammarDump', 'INIT Init\nNEXT Next\nINVARIANT Emit\n').prints


def cases(chk, only=None, n=10000, mutated=.5, lex=None):
    lex = lex or Lex(chk.rng, grammar_dump(chk))
    elements = sorted(e for e in lex.el if only is None or e in only)
    rng = chk.rng
    out = []
    for k in range(n):
        el = elements[k % len(elements)]
        name = el[2:].replace('_', '-') if el.startswith('h_') else ''
        m = rng.random() < mutated
        es = [lex.mutate(lex.sentence(el)) if m and rng.random() < .8 else lex.sentence(el)
              for _ in range(rng.choice([1, 1, 1, 1, 1, 2, 3]) if name and name != 'host' else 1)]
        if len(es) > 1 and rng.random() < .3:
            es[1] = es[0]
        es = [e for e in es if len(e) <= 100] or ['x']
        if name == 'httpolice-silence' and HIDING.search(' '.join(es)):
            continue
        out.append(case(el, es, rng))
    return out


def case(el, es, rng):
    name = el[2:].replace('_', '-') if el.startswith('h_') else ''
    spelled = name if rng.random() < .5 else name.title() if rng.random() < .8 else name.upper()
    return {'k': el, 'n': name, 'name': spelled, 'es': [octets(e) for e in es], 'tr': False}


def run(chk, ids, cs):
    recs = [r for part in pmap(_run, split_even(cs, 16)) for r in part]
    order = [c for part in split_even(cs, 16) for c in part]
    for k in range(0, len(recs), 40000):
        part = recs[k:k + 40000]
        verdicts = chk.judge('TraceHeader', 'INIT Init\nNEXT Next\nCONSTANT Ids = %s\n' % tlaset(ids), part)
        for r, c, bad, x in zip(part, order[k:], verdicts, chk.extra):
            if bad:
                chk.fail(bad, {'element': r['k'], 'lines': [repr(bytes(e).decode('iso-8859-1')) for e in r['es']],
                               'reported': {'syntax errors': r['syn'], 'others': r['obs']}, 'exception': r['exc'], 'name': c['name']})
            d = chk.notes.setdefault('lines_by_element', {}).setdefault(r['k'], [0, 0])
            d[0] += len({bytes(e) for e in r['es']})
            d[1] += x['wrong']
            for i in x['exp']:
                e = chk.notes.setdefault('expected_notice_counts', {})
                e[str(i)] = e.get(str(i), 0) + 1
    chk.notes['notices_never_expected'] = [i for i in ids if i != 1000 and str(i) not in chk.notes.get('expected_notice_counts', {})]
