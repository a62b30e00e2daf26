"""C36: each notice names what it is about.

Exchanges as for C20-C28; the titles in the text report are taken apart (fixed and variable
parts, spec/KnownNotices.tla) and TLC compares the variable parts with spec/Naming.tla."""
import copy
import io
import os
import random
import re

import exrun
import headers
import rules
from exgen import Gen, messages
from vlib import guarded, pmap, split_even, tmap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCOPES = ['c20-values', 'c21-pairs', 'c22-headers', 'c23-resp', 'c24-range', 'c25-conn', 'c26-chal', 'c28']


def table():
    r = {}
    for line in open(os.path.join(HERE, 'spec', 'KnownNotices.tla')):
        m = re.match(r'\s*<<(\d+), "(.)", <<(.*)>>>>,?$', line)
        if m:
            parts = [p.replace('\\"', '"').replace('\\\\', '\\') for p in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3))]
            r[int(m.group(1))] = re.compile('(.*?)'.join(re.escape(p) for p in parts) + r'\Z', re.S) if len(parts) > 1 else None
    return r


def titles(ex):
    """{where: titles taken apart}, IDs of notices whose title is of another form"""
    return taken_apart(exrun.build(ex, None))


def taken_apart(exch):
    import httpolice
    httpolice.check_exchange(exch)
    buf = io.BytesIO()
    httpolice.text_report([exch], buf)
    got = {'req': []}
    got.update((str(k + 1), []) for k in range(len(exch.responses)))
    # responses with no notices have no line of their own
    places = [str(k + 1) for k, r in enumerate(exch.responses) if r.notices]
    at, odd = 'req', []
    for line in buf.getvalue().decode('utf-8').split('\n'):
        if line.startswith('------------ response'):
            at = places.pop(0)
        m = re.match(r'[ECD] (\d+) (.*)$', line)
        if m:
            i = int(m.group(1))
            if table.memo.get(i) is not None:
                # (a title is stripped, and a variable part may be empty)
                f = next((f for f in (table.memo[i].match(a + m.group(2) + b) for a in ('', ' ') for b in ('', ' ')) if f is not None), None)
                if f is None:
                    odd.append(i)
                else:
                    got[at].append({'id': i, 'low': [x.lower() for x in f.groups()], 'raw': list(f.groups())})
    return got, odd


table.memo = None


def lines(cases):
    """The same for messages with one interesting header."""
    table.memo = table.memo or table()
    out = []
    for c in cases:
        res = guarded(lambda: taken_apart(headers.message(c)[1]))
        got, odd = res[1] if res[0] == 'ok' else ({}, [])
        got = [dict(g, oct=[[ord(x) for x in v] for v in g['low']]) for gs in got.values() for g in gs]
        out.append({'n': c['n'], 'es': c['es'], 'got': got, 'odd': odd, 'exc': '' if res[0] == 'ok' else res[1]})
    return out


def record(ex):
    res = guarded(titles, ex)
    clean = copy.deepcopy(ex)
    clean.pop('name', None)
    for m in messages(clean):
        del m['bodytext']
        m.pop('reasontext', None)
    return {'ex': clean, 'exc': '' if res[0] == 'ok' else res[1], 'got': res[1][0] if res[0] == 'ok' else {}, 'odd': res[1][1] if res[0] == 'ok' else []}


def batch(args):
    table.memo = table.memo or table()
    exs, seed = args
    out = []
    for k, ex in enumerate(exs):
        rng = random.Random('%s/%d' % (seed, k))
        exrun.concretize(ex, rng)
        out.append((record(ex), exrun.show(ex)))
    return out


def run(chk):
    exs = []
    for part in tmap(lambda s: rules.enumerate_scope(chk, s, chk.scale(500, 20000)), SCOPES, 2):
        exs += rules.norm(part)
    focus = [f for pid in sorted(rules.FOCUS) for f in rules.FOCUS[pid]] + [{}]
    gens = [Gen(chk.rng, bad=b, few=few) for b, few in ((.12, 4), (.05, 3), (.25, 6), (.1, 8))]
    for k in range(chk.scale(9000, 150000)):
        exs.append(gens[k // len(focus) % len(gens)].exchange(**focus[k % len(focus)]))
    for i in range(0, len(exs), 40000):
        parts = [(p, '%s/%d/%d/%d' % (chk.pid, chk.seed, i, k)) for k, p in enumerate(split_even(exs[i:i + 40000], 16))]
        recs = [x for part in pmap(batch, parts) for x in part]
        for (rec, sh), bad in zip(recs, chk.judge('TraceNaming', 'INIT Init\nNEXT Next\n', [r for r, _ in recs])):
            if bad:
                chk.fail(bad, dict(sh, exc=rec['exc'], titles=rec['got']))
        n = chk.notes.setdefault('titles_with_variable_parts', {})
        for rec, _ in recs:
            for gs in rec['got'].values():
                for g in gs:
                    n[str(g['id'])] = n.get(str(g['id']), 0) + 1
        chk.sample(recs[0][1])
    cs = [c for c in headers.cases(chk, n=chk.scale(4000, 100000), mutated=.4) if c['n']]
    recs = [r for part in pmap(lines, split_even(cs, 16)) for r in part]
    for k in range(0, len(recs), 40000):
        for r, bad in zip(recs[k:k + 40000], chk.judge('TraceLineNaming', 'INIT Init\nNEXT Next\n', recs[k:k + 40000])):
            if bad:
                chk.fail(bad, {'header': r['n'], 'lines': [repr(bytes(e).decode('iso-8859-1')) for e in r['es']], 'titles': [[g['id']] + g['raw'] for g in r['got']],
                               'exc': r['exc']})
    chk.notes['single_header_messages'] = len(recs)
