#!/usr/bin/env python3
"""Source of spec/KnownExplanations.tla: the words of the notices' titles and explanations, frozen
from the list of notices of the pinned commit (httpolice.reports.html.list_notices).  The checks
use the committed file as the oracle; they never regenerate it.  Run with /opt/venv/bin/python."""
import io
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), os.path.join(HERE, 'harness')]
import httpolice.reports.html
import lxml.etree
import reports
from check_c40 import norm

buf = io.BytesIO()
httpolice.reports.html.list_notices(buf)
p = reports.Reader()
p.feed(buf.getvalue().decode('utf-8'))
p.close()
# the list abbreviates "msg.status" to "status"
full = {}
for e in lxml.etree.parse(os.path.join(sys.path[0], 'httpolice', 'notices.xml')).getroot():
    if e.tag in ('error', 'comment', 'debug'):
        def refs(x):
            return [v.get('ref') if v.tag == 'var' else 'error' for v in x.iter('var', 'exception')]
        full[int(e.get('id'))] = (refs(e.find('title')), [r for c in e if c.tag != 'title' and isinstance(c.tag, str) for r in refs(c)])


def cut(node):
    """The fixed parts around the variables of an element."""
    r, n = [''], 0
    def go(x):
        nonlocal n
        if isinstance(x, str):
            r[-1] += x
        elif x[0] == 'var':
            r.append('')
            n += 1
        else:
            for y in x[2]:
                go(y)
    go(node)
    return r


def q(s):
    s = re.sub(r'\s+', ' ', norm(s))
    assert s.isascii(), s
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


o = ['-------------------------- MODULE KnownExplanations --------------------------',
     '(* The notices: number, what the variable parts of the title and of the explanation stand for, and the *)',
     '(* fixed parts of the explanation around them (paragraphs are separated by " | "), in plain punctuation. *)',
     '(* Frozen by tools/mkexplain.py; see DESIGN.md. *)',
     'EXTENDS Naturals, Sequences', 'ExplanationTable == <<']
rows = []
for n in reports.find(p.root, lambda x: reports.cls(x).startswith('notice ')):
    i = int(n[1]['id'])
    fixed = None
    for c in n[2]:
        if not isinstance(c, str) and c[0] == 'p':
            f = cut(c)
            f[0], f[-1] = f[0].lstrip(), f[-1].rstrip()
            fixed = f if fixed is None else fixed[:-1] + [fixed[-1] + ' | ' + f[0]] + f[1:]
    fixed = fixed or ['']
    t, x = full[i]
    assert len(fixed) == len(x) + 1, (i, x, fixed)
    rows.append('  <<%d, <<%s>>, <<%s>>,\n    <<%s>>>>' % (i, ', '.join(map(q, t)), ', '.join(map(q, x)), ',\n      '.join(map(q, fixed))))
o.append(',\n'.join(rows) + '>>')
o.append('=' * 77)
open(os.path.join(HERE, 'spec', 'KnownExplanations.tla'), 'w').write('\n'.join(o) + '\n')
print(len(rows))
