"""C40: the facts in the explanation of a notice.

Exchanges as for C20-C28, messages with one interesting header as for C10 and C29, streams and
files; the explanations in the HTML report are taken apart (fixed and variable parts,
spec/KnownExplanations.tla) and TLC compares the variable parts with spec/Explain.tla."""
import copy
import io
import os
import random
import re

import check_c36 as c36
import exrun
import headers
import reports
import rules
from exgen import Gen, messages
from vlib import guarded, pmap, split_even, tmap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAIN = {'\u2018': "'", '\u2019': "'", '\u201c': '"', '\u201d': '"', '\u2013': '-', '\u2014': '--', '\u2026': '...', '\xa7': 'section', '\xa0': ' ', '\u2260': '!='}


def norm(s):
    """Plain punctuation."""
    return ''.join(PLAIN.get(c, c) for c in s)


def strings(s):
    return [p.replace('\\"', '"').replace('\\\\', '\\') for p in re.findall(r'"((?:[^"\\]|\\.)*)"', s)]


def pattern(fixed):
    """(inside fixed text, spaces are as good as other spaces)"""
    def part(f):
        words = [re.escape(w) for w in re.split(r'\s+', f)]
        r = r'\s+'.join(words)
        return re.sub(r'^\\s\+|\\s\+$', r'\\s', r)
    return re.compile('(.*?)'.join(map(part, fixed)) + r'\Z', re.S)


def table():
    if not table.memo:
        titles = c36.table()
        text = open(os.path.join(HERE, 'spec', 'KnownExplanations.tla')).read()
        for m in re.finditer(r'<<(\d+), <<(.*?)>>, <<(.*?)>>,\n    <<((?:"(?:[^"\\]|\\.)*"(?:,\s*)?)*)>>>>', text):
            table.memo[int(m.group(1))] = (strings(m.group(2)), strings(m.group(3)), titles[int(m.group(1))], pattern(strings(m.group(4))))
    return table.memo


table.memo = {}


def wording(node):
    """The notices in a part of the report, taken apart; IDs of those whose words are of another form."""
    got, odd = [], []
    for box in reports.find(node, reports.klass('complaints'), False):
        for n in reports.find(box, lambda x: reports.cls(x).startswith('notice '), False):
            h3 = reports.find(n, reports.tag('h3'), False)[0]
            i = int(reports.text(reports.find(h3, reports.klass('ident'))[0]))
            title = norm(reports.text([x for x in h3[2] if not isinstance(x, str) and x[0] == 'span' and reports.cls(x) != 'ident'][0])).strip()
            paras = [norm(reports.text(x)).strip() for x in n[2] if not isinstance(x, str) and x[0] == 'p']
            if i not in table():
                odd.append(i)
                continue
            _, _, tre, xre = table()[i]
            t = tre and next((f for f in (tre.match(a + title + b) for a in ('', ' ') for b in ('', ' ')) if f), None)
            x = xre.match(' | '.join(paras))
            if (tre and not t) or not x:
                odd.append(i)
            else:
                t, x = [list(f.groups()) if f else [] for f in (t, x)]
                got.append({'id': i, 't': t, 'x': x, 'tl': [v.lower() for v in t], 'xl': [v.lower() for v in x]})
    return got, odd


def report(exchs):
    import httpolice
    buf = io.BytesIO()
    httpolice.html_report(exchs, buf)
    p = reports.Reader()
    p.feed(buf.getvalue().decode('utf-8'))
    p.close()
    return p.root


def explained(exch):
    import httpolice
    httpolice.check_exchange(exch)
    got, odd = {'req': []}, []
    got.update((str(k + 1), []) for k in range(len(exch.responses)))
    for div in reports.find(report([exch]), reports.klass('exchange')):
        for k, sec in enumerate(reports.find(div, reports.tag('section'), False)):
            w = 'req' if exch.request is not None and k == 0 else str(k + (0 if exch.request is not None else 1))
            got[w], o = wording(sec)
            odd += o
    return got, odd


def record(ex):
    res = guarded(lambda: explained(exrun.build(ex, None)))
    clean = copy.deepcopy(ex)
    clean.pop('name', None)
    for m in messages(clean):
        del m['bodytext']
        m.pop('reasontext', None)
    return {'ex': clean, 'exc': '' if res[0] == 'ok' else res[1], 'got': res[1][0] if res[0] == 'ok' else {}, 'odd': res[1][1] if res[0] == 'ok' else []}


def batch(args):
    exs, seed = args
    out = []
    for k, ex in enumerate(exs):
        rng = random.Random('%s/%d' % (seed, k))
        exrun.concretize(ex, rng)
        out.append((record(ex), exrun.show(ex)))
    return out


def octs(x):
    return [[ord(c) for c in v] for v in x]


def lines(cases):
    """The same for messages with one interesting header."""
    out = []
    for c in cases:
        res = guarded(lambda: explained(headers.message(c)[1]))
        got, odd = res[1] if res[0] == 'ok' else ({}, [])
        got = [{'id': g['id'], 't': octs(g['t']), 'x': octs(g['x'])} for gs in got.values() for g in gs]
        out.append({'n': c['n'], 'k': c['k'], 'es': c['es'], 'got': got, 'odd': odd, 'exc': '' if res[0] == 'ok' else res[1]})
    return out


def exchanges(chk):
    exs = []
    for part in tmap(lambda s: rules.enumerate_scope(chk, s, chk.scale(300, 20000)), c36.SCOPES, 2):
        exs += rules.norm(part)
    focus = [f for pid in sorted(rules.FOCUS) for f in rules.FOCUS[pid]] + [{}]
    focus += 2 * [dict(freq=['upgrade', 'upgrade'], fresp=['upgrade', 'upgrade'], statuses=[200, 426], noreq=0, nresp=1),
                  dict(freq=['content-length'], statuses=[411], noreq=0, nresp=1, methods=['POST', 'PUT']),
                  dict(freq=['cache-control', 'cache-control'], fresp=['age', 'age', 'date'], statuses=[200], methods=['GET'], noreq=0, nresp=1),
                  dict(statuses=[204, 200, 201, 302, 405, 505], noreq=0, nresp=1),
                  dict(freq=['content-type'], fresp=['content-type', 'accept-patch', 'location', 'allow'], methods=['PATCH', 'OPTIONS', 'TRACE', 'CONNECT'], noreq=0, nresp=1)]
    gens = [Gen(chk.rng, bad=b, few=few) for b, few in ((.12, 4), (.05, 3), (.25, 6), (.1, 8))]
    for k in range(chk.scale(6000, 150000)):
        exs.append(gens[k // len(focus) % len(gens)].exchange(**focus[k % len(focus)]))
    n = chk.notes.setdefault('explanations_with_variable_parts', {})
    for i in range(0, len(exs), 40000):
        parts = [(p, '%s/%d/%d/%d' % (chk.pid, chk.seed, i, k)) for k, p in enumerate(split_even(exs[i:i + 40000], 16))]
        recs = [x for part in pmap(batch, parts) for x in part]
        for (rec, sh), bad in zip(recs, chk.judge('TraceExplain', 'INIT Init\nNEXT Next\n', [r for r, _ in recs])):
            if bad:
                chk.fail(bad, dict(sh, exc=rec['exc'], notices={w: [[g['id'], g['t'], g['x']] for g in gs] for w, gs in rec['got'].items()}))
        for rec, _ in recs:
            for gs in rec['got'].values():
                for g in gs:
                    if g['x']:
                        n[str(g['id'])] = n.get(str(g['id']), 0) + 1
        chk.sample(recs[0][1])


def single(chk):
    cs = [c for c in headers.cases(chk, n=chk.scale(6000, 100000), mutated=.3) if c['n']]
    recs = [r for part in pmap(lines, split_even(cs, 16)) for r in part]
    n = chk.notes.setdefault('explanations_of_lines', {})
    for k in range(0, len(recs), 40000):
        for r, bad in zip(recs[k:k + 40000], chk.judge('TraceLineExplain', 'INIT Init\nNEXT Next\n', recs[k:k + 40000])):
            for g in r['got']:
                if g['x']:
                    n[str(g['id'])] = n.get(str(g['id']), 0) + 1
            if bad:
                chk.fail(bad, {'header': r['n'], 'lines': [repr(bytes(e).decode('iso-8859-1')) for e in r['es']],
                               'notices': [[g['id']] + [''.join(map(chr, v)) for v in g['t'] + g['x']] for g in r['got']], 'exc': r['exc']})


LIMIT = 1 << 30


def sized(c):
    """The messages of a stream whose length is stated as the case says, or with a form."""
    from httpolice.framing1 import parse_streams
    from httpolice.stream import Stream
    import httpolice
    head = b'POST / HTTP/1.1\r\nHost: example.com\r\nContent-Type: %s\r\n' if c['req'] else b'HTTP/1.1 200 OK\r\nContent-Type: %s\r\n'
    head %= b'application/x-www-form-urlencoded' if c['k'] == 'form' else b'text/plain'
    if c['k'] == 'chunks':
        data = head + b'Transfer-Encoding: chunked\r\n\r\n'
        for z in c['z'][:-1]:
            data += b'%x\r\n%s\r\n' % (z, b'x' * z)
        data += (b'%X\r\n' if c['req'] else b'%x;a\r\n') % c['z'][-1] + b'y' * c['have']
    elif c['k'] == 'form':
        data = head + b'Content-Length: %d\r\n\r\n' % len(c['d']) + bytes(c['d'])
    else:
        data = head + b'Content-Length: ' + bytes(c['d']) + b'\r\n\r\n' + b'x' * c['have']
    stream = Stream(io.BufferedReader(io.BytesIO(data)), name='s')
    exchs = list(parse_streams(stream, None) if c['req'] else parse_streams(None, stream))
    for e in exchs:
        httpolice.check_exchange(e)
    got, odd = [], []
    for div in reports.find(report(exchs), reports.klass('exchange')):
        for sec in reports.find(div, reports.tag('section'), False):
            g, o = wording(sec)
            got += g
            odd += o
    return got, odd


def streams(cases):
    from check_c39 import characters
    out = []
    for c in cases:
        res = guarded(sized, c)
        got, odd = res[1] if res[0] == 'ok' else ([], [])
        told = []
        for g in got:
            if g['id'] == 1298:
                if g['x'][0] != ('chunked framing' if c['k'] == 'chunks' else 'Content-Length'):
                    odd.append(1298)
                told.append({'id': 1298, 'x': octs(g['x'][1:])})
            elif g['id'] == 1004:
                told.append({'id': 1004, 'x': octs(g['x'][:1])})
            elif g['id'] == 1005:
                told.append({'id': 1005, 'x': []})
            elif g['id'] == 1040:
                told.append({'id': 1040, 'x': [sorted(characters(g['x'][0]) or [])]})
        out.append((dict(c, got=told, odd=odd, exc='' if res[0] == 'ok' else res[1]), [[g['id'], g['x']] for g in got]))
    return out


def sizes(chk):
    rng = chk.rng
    cs = []
    for req in (False, True):
        for n in [0, 1, 5, 6, 9, 10, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 10, 2 * LIMIT - 1, 2 * LIMIT, 1 << 31, 1 << 32, 1 << 63, 10 ** 10, 10 ** 30, 1073741830, 999999999, 9999999999]:
            for zeros in ('', '0', '000'):
                cs.append({'k': 'length', 'req': req, 'd': octs([zeros + str(n)])[0], 'z': [], 'have': 5})
        for first in ([], [1], [5, 3], [2000], [1, 1, 1]):
            for z in {1, LIMIT - sum(first) - 1, LIMIT - sum(first), LIMIT - sum(first) + 1, LIMIT, LIMIT + 1, 2 * LIMIT - 3000, rng.randint(1, 2 * LIMIT - 3000)}:
                cs.append({'k': 'chunks', 'req': req, 'd': [], 'z': first + [z], 'have': 0})
        for _ in range(chk.scale(300, 20000)):
            d = bytes(rng.choice(b'abz019=&+%*-._AZ') for _ in range(rng.randint(0, 12)))
            for _ in range(rng.randint(0, 3)):
                k = rng.randint(0, len(d))
                d = d[:k] + bytes([rng.choice([rng.randrange(256), rng.randrange(33, 127), 32, 34, 39, 44, 47, 91, 96])]) + d[k:]
            cs.append({'k': 'form', 'req': req, 'd': list(d), 'z': [], 'have': 0})
    recs = [r for part in pmap(streams, split_even(cs, 16)) for r in part]
    for (r, shown), bad in zip(recs, chk.judge('TraceStreamFacts', 'INIT Init\nNEXT Next\nINVARIANT Bounded\n', [r for r, _ in recs])):
        if bad:
            chk.fail(bad, {'kind': r['k'], 'request': r['req'], 'text': repr(bytes(r['d'])), 'sizes': r['z'], 'exc': r['exc'], 'notices': shown})
    chk.notes['sizes_and_forms'] = len(recs)


def run(chk):
    exchanges(chk)
    single(chk)
    sizes(chk)
