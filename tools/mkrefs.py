#!/usr/bin/env python3
"""Source of spec/KnownRefs.tla: what the notices refer to, frozen from httpolice/notices.xml of
the pinned commit.  The checks never regenerate it."""
import os
import sys
import xml.etree.ElementTree as E
base = sys.argv[1] if len(sys.argv) > 1 else '/repo'
root = E.parse(os.path.join(base, 'httpolice', 'notices.xml')).getroot()
out = []
for n in root:
    if n.tag not in ('error', 'comment', 'debug'):
        continue
    title = n.find('title')
    pos = {}
    for k, v in enumerate(title.iter('var')):
        pos.setdefault(v.get('ref'), k + 1)
    els = []
    for x in n.iter():
        e = None
        if x.tag in ('h', 'm', 'st') and x.get('ref') != 'no':
            name = ''.join(x.itertext()).strip()
            e = (x.tag, name.lower() if x.tag == 'h' else name, 0)
        elif x.tag in ('var', 'ref'):
            p = x.get('ref') or x.get('to')
            e = ('p', p, pos.get(p, 0))
        if e and e not in els:
            els.append(e)
    if els:
        out.append('    <<%s, <<%s>>>>' % (n.get('id'), ', '.join('<<"%s", "%s", %d>>' % e for e in els)))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'KnownRefs.tla'), 'w') as f:
    f.write('''------------------------------ MODULE KnownRefs ------------------------------
(* What each notice refers to, frozen from httpolice/notices.xml of the pinned commit by tools/mkrefs.py:
   <<"h", name, 0>>, <<"m", method, 0>>, <<"st", status, 0>>: protocol items named outright;
   <<"p", path, k>>: data of the message or of the finding (the k-th variable part of the title; 0: not in the title). *)
EXTENDS TLC
RefTable == TLCEval(<<
%s>>)
==============================================================================
''' % ',\n'.join(out))

# citations of headers, methods and status codes
sys.path.insert(0, base)
from httpolice import known      # noqa
cites = []
for knowledge, kind in known.classes.values():
    for key in sorted(knowledge):
        c = known.citation(key)
        if c:
            cites.append((kind, str(key) if kind == 'm' else str(key).lower(), c.url, ''.join(x if x.isascii() else '?' for x in ' '.join((known.title(key, with_citation=True) or '').split()))))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'KnownCites.tla'), 'w') as f:
    f.write('''------------------------------ MODULE KnownCites ------------------------------
(* Where the known protocol items are defined, frozen from the pinned commit by tools/mkrefs.py: <<kind, name (in lower case, except methods), URL, title>>. *)
EXTENDS TLC
CiteTable == TLCEval(<<
%s>>)
===============================================================================
''' % ',\n'.join('    <<"%s", "%s", "%s", "%s">>' % tuple(x.replace('\\', '\\\\').replace('"', '\\"') for x in c) for c in cites))
