"""Running the real stream analysis and recording what it produced."""
import os
import re
import tempfile
import zlib

from vlib import octets, pmap

NOTES = {1001, 1002, 1003, 1004, 1005, 1011, 1012, 1016, 1224, 1027, 1298}
CFG = '''INIT Init
NEXT Next
INVARIANT InvConservation
INVARIANT InvReported
INVARIANT InvFinalLast
INVARIANT InvNoBody
PROPERTY Progress
'''


def gz(b):
    c = zlib.compressobj(9, zlib.DEFLATED, 16 + zlib.MAX_WBITS)
    return c.compress(b) + c.flush()


PAYLOADS = [b'hello', b'', b'x' * 40, b'abc', b'a\r\n', b'\r\n\r\n', b'l1\nl2\r\nHTTP/1.1 200 OK\r\n\r\n', b'0\r\n\r\n']
CODEC_PAIRS = [('gzip', b'', b''), ('deflate', b'', None), ('gzip', b'notgzip', None), ('deflate', b'notgzip', None)]
for _p in PAYLOADS:
    CODEC_PAIRS.append(('gzip', gz(_p), _p))
    CODEC_PAIRS.append(('deflate', zlib.compress(_p), _p))
    CODEC_PAIRS.append(('gzip', gz(gz(_p)), gz(_p)))
    CODEC_PAIRS.append(('gzip', gz(zlib.compress(_p)), zlib.compress(_p)))
    CODEC_PAIRS.append(('deflate', zlib.compress(gz(_p)), gz(_p)))
    if _p:
        CODEC_PAIRS.append(('gzip', _p, None))
        CODEC_PAIRS.append(('deflate', _p, None))
CODEC = [{'c': c, 'i': octets(i), 'ok': o is not None, 'o': octets(o or b'')} for c, i, o in CODEC_PAIRS]


def _entries(es):
    return [[octets(str(e.name)), octets(bytes(e.value))] for e in es]


def _body(b):
    from httpolice.structure import okay
    if b is not None and okay(b):
        return {'k': 'b', 'b': octets(bytes(b))}
    return {'k': 'u' if b is not None else 'n', 'b': []}


def _msg(m, is_req):
    counts = {}
    for c in m.notices:
        if c.id in NOTES:
            counts[c.id] = counts.get(c.id, 0) + 1
    off = re.search(r', offset (\d+)$', m.remark or '')
    return {'off': int(off.group(1)) if off else -2,
            'a': octets(str(m.method) if is_req else '%03d' % int(m.status)),
            'b': octets(m.target if is_req else m.reason),
            'ver': octets(str(m.version)),
            'hdrs': _entries(m.header_entries),
            'body': _body(m.body),
            'trl': _entries(m.trailer_entries),
            'notes': sorted([k, v] for k, v in counts.items())}


NOMSG = {'off': -1, 'a': [], 'b': [], 'ver': [], 'hdrs': [], 'body': {'k': 'u', 'b': []}, 'trl': [], 'notes': []}


def project(exchanges):
    ev = []
    for ex in exchanges:
        for c in ex.notices:
            off = c.context.get('offset')
            ev.append({'k': 'box', 'id': c.id, 'off': off if isinstance(off, int) else -1,
                       'on': False, 'req': NOMSG, 'resps': []})
        if ex.request is not None or ex.responses:
            ev.append({'k': 'exch', 'id': 0, 'off': -1, 'on': ex.request is not None,
                       'req': _msg(ex.request, True) if ex.request is not None else NOMSG,
                       'resps': [_msg(r, False) for r in ex.responses]})
        elif not ex.notices:
            ev.append({'k': 'empty', 'id': 0, 'off': -1, 'on': False, 'req': NOMSG, 'resps': []})
    return ev


def run_real(case, scratch):
    """case: {'i': bytes|None, 'o': bytes|None, 'fmt': streams|combined}"""
    from httpolice import inputs
    d = tempfile.mkdtemp(dir=scratch)
    paths = {}
    try:
        if case.get('fmt') == 'combined':
            p = os.path.join(d, 'c.txt')
            with open(p, 'wb') as f:
                f.write(b'preamble\r\n======== BEGIN INBOUND STREAM ========\r\n' + case['i'] +
                        b'======== BEGIN OUTBOUND STREAM ========\r\n' + case['o'])
            return project(list(inputs.formats['combined']([p])))
        for k in 'io':
            if case[k] is not None:
                paths[k] = os.path.join(d, k)
                with open(paths[k], 'wb') as f:
                    f.write(case[k])
        if len(paths) == 2:
            exs = inputs.formats['streams']([paths['i'], paths['o']])
        elif 'i' in paths:
            exs = inputs.formats['req-stream']([paths['i']])
        else:
            exs = inputs.formats['resp-stream']([paths['o']])
        return project(list(exs))
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def record(case, scratch):
    rec = {'in': {'on': case['i'] is not None, 's': octets(case['i'] or b'')},
           'out': {'on': case['o'] is not None, 's': octets(case['o'] or b'')},
           'codec': CODEC if case.get('codec') and _coded(case) else [], 'obs': [], 'exc': ''}
    if 'fi' in case:
        rec.update(cut=True, fin={'on': case['fi'] is not None, 's': octets(case['fi'] or b'')},
                   fout={'on': case['fo'] is not None, 's': octets(case['fo'] or b'')})
    try:
        rec['obs'] = run_real(case, scratch)
    except Exception as e:      # pylint: disable=broad-except
        rec['exc'] = '%s: %.100s' % (type(e).__name__, e)
    return rec


def _coded(case):
    x = ((case['i'] or b'') + (case['o'] or b'')).lower()
    return b'gzip' in x or b'deflate' in x


def _records(args):
    return [record(c, args[1]) for c in args[0]]


def show(case):
    return {k: (v.decode('latin-1') if isinstance(v, bytes) else v) for k, v in case.items()}


def run_cases(chk, cases, clauses=None, module='TraceFraming', cfg=CFG):
    """Run, record, have TLC judge, and report."""
    parts = [cases[k:k + 200] for k in range(0, len(cases), 200)]
    recs = [r for rs in pmap(_records, [(p, chk.scratch) for p in parts]) for r in rs]
    verdicts = chk.judge(module, cfg, recs)
    for c, r, v in zip(cases, recs, verdicts):
        if clauses is not None:
            v = [x for x in v if x in clauses or x == 'exception']
        if v:
            chk.fail(v, {'case': show(c), 'observed': summary(r), 'exc': r['exc']})
    return recs, verdicts


def summary(rec):
    def t(x):
        return bytes(x).decode('latin-1')
    out = []
    for e in rec['obs']:
        if e['k'] == 'box':
            out.append('box %d@%d' % (e['id'], e['off']))
        else:
            ms = ([e['req']] if e['on'] else []) + e['resps']
            out.append([[m['off'], t(m['a']), t(m['b']), len(m['hdrs']), m['body']['k'], t(m['body']['b'])[:80],
                         len(m['trl']), m['notes']] for m in ms])
    return out
