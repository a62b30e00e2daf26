#!/usr/bin/env python3
"""Source of spec/Known.tla: the protocol knowledge the rules rely on, frozen from
httpolice/known/*.csv of the pinned commit.  The checks use the committed Known.tla
as the oracle; they never regenerate it."""
import csv, os, sys
base = sys.argv[1] if len(sys.argv) > 1 else '/repo'
K = os.path.join(base, 'httpolice', 'known')
def rows(n):
    with open(os.path.join(K, n + '.csv'), newline='') as f:
        return list(csv.DictReader(f))
def tset(xs, num=False):
    xs = list(xs)
    out, line = [], '    '
    for i, x in enumerate(xs):
        s = (x if num else '"%s"' % x.replace('\\', '\\\\')) + (', ' if i < len(xs) - 1 else '')
        if len(line) + len(s) > 110:
            out.append(line.rstrip()); line = '    '
        line += s
    out.append(line)
    return 'TLCEval({\n%s})' % '\n'.join(out)
o = ['---------------------------- MODULE Known ----------------------------',
     '(* Protocol knowledge, frozen from httpolice/known/*.csv of the pinned commit by tools/mkknown.py.',
     '   Names of case-insensitive things are in lower case. *)', 'EXTENDS TLC', '']
def d(name, xs, num=False):
    o.append('%s == %s\n' % (name, tset(xs, num)))
H = rows('header'); low = lambda r: r['key'].lower()
d('HdrKnown', [low(r) for r in H])
for name, col, val in [('HdrBadConn', 'bad_for_connection', 'True'), ('HdrBadTrailer', 'bad_for_trailer', 'True'),
                       ('HdrNotForReq', 'for_request', 'False'), ('HdrNotForResp', 'for_response', 'False'),
                       ('HdrPrecond', 'precondition', 'True'), ('HdrConneg', 'proactive_conneg', 'True'),
                       ('HdrRepMeta', 'representation_metadata', 'True'),
                       ('HdrSingle', 'rule', 'single'), ('HdrMulti', 'rule', 'multi'), ('HdrSpecial', 'rule', 'special'),
                       ('HdrQuotedComma', 'quoted_comma_bad', 'True'), ('HdrQuotedSemi', 'quoted_semicolon_bad', 'True')]:
    d(name, [low(r) for r in H if r[col] == val])
d('HdrDeprecated', [low(r) for r in H if r['iana_status'] in ('deprecated', 'obsoleted')])
d('HdrSyntax', [low(r) for r in H if r['syntax_symbol']])
M = rows('method')
d('MethKnown', [r['key'] for r in M])
for name, col, val in [('MethBody', 'defines_body', 'True'), ('MethNoBody', 'defines_body', 'False'), ('MethCacheable', 'cacheable', 'True'),
                       ('MethNotCacheable', 'cacheable', 'False'), ('MethSafe', 'safe', 'True')]:
    d(name, [r['key'] for r in M if r[col] == val])
S = rows('status_code')
for name, val in [('StNotAtAll', 'not_at_all'), ('StNotByDefault', 'not_by_default'), ('StByDefault', 'by_default')]:
    d(name, [r['key'] for r in S if r['cacheable'] == val], num=True)
C = rows('cache_directive')
for name, col, val in [('CcNotForReq', 'for_request', 'False'), ('CcNotForResp', 'for_response', 'False'), ('CcArgNo', 'argument', 'no'),
                       ('CcArgReq', 'argument', 'required'), ('CcToken', 'argument_form', 'token'), ('CcQuoted', 'argument_form', 'quoted_string'),
                       ('CcDelta', 'syntax_symbol', 'delta_seconds')]:
    d(name, [low(r) for r in C if r[col] == val])
d('CcNames', [low(r) for r in C if r['syntax_symbol'] in ('no_cache', 'private')])
T = rows('media_type')
print(T[0].keys())
for name, col, val in [('MtDeprecated', 'deprecated', 'True'), ('MtJson', 'is_json', 'True'), ('MtXml', 'is_xml', 'True'), ('MtNotPatch', 'patch', 'False')]:
    d(name, [low(r) for r in T if r[col] == val])
d('Libraries', [r['key'] for r in rows('product') if r['library'] == 'True'])
for name, f in [('HstsNo', 'hsts_directive'), ('PrefNo', 'preference'), ('FwdNo', 'forwarded_param'), ('AltNo', 'alt_svc_param')]:
    d(name, [low(r) for r in rows(f) if r['argument'] == 'no'])
    d(name[:-2] + 'Req', [low(r) for r in rows(f) if r['argument'] == 'required'])
o.append('=' * 70)
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Known.tla'), 'w').write('\n'.join(o) + '\n')
