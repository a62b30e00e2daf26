"""C41: the objects of the Python API."""
import http
import io
import random
import re

import check_c09
from exgen import Gen
import exrun
from vlib import digest, guarded, pmap, split_even

ENV = 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Alike\nINVARIANT Quiet\nINVARIANT Repeats\nPROPERTY Stays\nCONSTANT MaxLen = %d\n'
PLAIN = {'vals': 'bytes', 'list': 'list', 'pair': 'plain', 'trl': 'none', 'status': 'number', 'xs': 'list'}
WIDE = ['\u2603', '\u0130', '\U0001f600', '\u0100']


def codes(s):
    return list(s) if isinstance(s, (bytes, bytearray)) else [ord(c) for c in s]


def opt(x):
    return {'has': False, 'v': []} if x is None else {'has': True, 'v': codes(x)}


def fields(hs):
    return [{'n': codes(n), 'v': codes(v)} for n, v in hs]


# ------------------------------------------------------------------- given

def given(x):
    out = []
    if x['req']:
        s, m, t, v, h, b, tr = x['req']
        out.append({'kind': 'req', 'scheme': opt(s), 'method': codes(m), 'target': codes(t), 'ver': opt(v), 'status': 0, 'reason': opt(None), 'hdrs': fields(h), 'trl': fields(tr),
                    'body': opt(b), 'remark': opt(x['remark'])})
    for v, st, r, h, b, tr in x['resps']:
        out.append({'kind': 'resp', 'scheme': opt(None), 'method': [], 'target': [], 'ver': opt(v), 'status': st, 'reason': opt(r), 'hdrs': fields(h), 'trl': fields(tr),
                    'body': opt(b), 'remark': opt(x['remark'])})
    return out


def build(x, form, rng):
    """The exchange, in a form; and what tells whether the caller's own objects are as before."""
    import httpolice
    own = []

    def keep(o):
        own.append((o, list(o)))
        return o

    def pairs(hs):
        r = []
        for n, v in hs:
            wide = any(ord(c) > 255 for c in v)
            r.append((n, v if wide or form['vals'] == 'text' or form['vals'] == 'mixed' and rng.random() < .5 else v.encode('iso-8859-1')))
        if form['pair'] == 'entry':
            r = list(httpolice.Request('http', 'GET', '/', 'HTTP/1.1', r, b'').header_entries)
        return keep(tuple(r) if form['list'] == 'tuple' else r)

    def trailer(hs):
        return None if not hs and form['trl'] == 'none' else pairs(hs)

    def status(n):
        return http.HTTPStatus(n) if form['status'] == 'enum' and n in list(map(int, http.HTTPStatus)) else n
    body = lambda s: s if s is None else s.encode('iso-8859-1')
    req = None
    if x['req']:
        s, m, t, v, h, b, tr = x['req']
        req = httpolice.Request(s, m, t, v, pairs(h), body(b), trailer(tr), remark=x['remark']) if x['remark'] is not None or rng.random() < .5 else httpolice.Request(s, m, t, v, pairs(h), body(b), trailer(tr))
    resps = keep([httpolice.Response(v, status(st), r, pairs(h), body(b), trailer(tr), remark=x['remark']) for v, st, r, h, b, tr in x['resps']])
    exch = httpolice.Exchange(req, resps)

    def same():
        # the same objects in the caller's lists, and those in the exchange
        return all(len(o) == len(was) and all(p is q for p, q in zip(o, was)) for o, was in own) and exch.request is req and \
            len(exch.responses) == len(resps) and all(p is q for p, q in zip(exch.responses, resps))
    return exch, same


# -------------------------------------------------------------------- seen

def text(x):
    return None if x is None else str.__str__(x) if isinstance(x, str) else x


def snapshot(exch):
    out = []
    if exch.request is not None:
        q = exch.request
        out.append({'kind': 'req', 'scheme': opt(text(q.scheme)), 'method': codes(text(q.method)), 'target': codes(text(q.target)), 'ver': opt(text(q.version)), 'status': 0, 'reason': opt(None)})
    for p in exch.responses:
        out.append({'kind': 'resp', 'scheme': opt(None), 'method': [], 'target': [], 'ver': opt(text(p.version)), 'status': int(p.status), 'reason': opt(text(p.reason))})
    for m, o in zip(out, check_c09.parts(exch)):
        if o.body is not None and not isinstance(o.body, bytes):
            raise TypeError('the body is %r' % type(o.body))
        m.update(hdrs=fields(o.header_entries), trl=fields(o.trailer_entries), body=opt(o.body), remark=opt(o.remark))
    return out


def values(exch):
    """What the header fields are taken to say."""
    return digest([[(str.__str__(v.name).lower(), re.sub(r'0x[0-9a-f]+', '', repr(v.value)), bool(v.is_present)) for v in m.headers] for m in check_c09.parts(exch)])


def found(exch):
    return [[{'id': c.id, 'sev': c.severity.name} for c in o.notices] for o in [exch] + check_c09.parts(exch)]


def bag(exch):
    return [sorted(c['id'] for c in ns) for ns in found(exch)]


def look(exch):
    for m in check_c09.parts(exch):
        repr(m), m.headers.content_type.value, m.decoded_body, m.unicode_body, m.json_data
        [c.severity for c in m.notices]
    repr(exch)


def report(kind, exchs, form):
    import httpolice
    f = io.BytesIO()
    (httpolice.text_report if kind == 'text' else httpolice.html_report)(iter(exchs) if form['xs'] == 'iter' else exchs, f)
    return f.getvalue()


def play(x, ops, form, rng):
    import httpolice
    fresh = values(build(x, form, rng)[0])
    plain = build(x, form, rng)[0]
    httpolice.check_exchange(plain)
    plain = bag(plain)
    exch, same = build(x, form, rng)
    snaps, obs = [], []
    for op in ['new'] + ops:
        out = ''
        if op == 'check':
            httpolice.check_exchange(exch)
        elif op == 'look':
            look(exch)
        elif op == 'text':
            out = digest(sorted(report(op, [exch], form).decode().splitlines()))
        elif op == 'html':
            out = digest(check_c09.canonical(report(op, [exch], form).decode()))
        s = snapshot(exch)
        if s not in snaps:
            snaps.append(s)
        obs.append({'notices': found(exch), 'bag': bag(exch), 'same': same(), 'out': out})
        if 'check' in ops[:len(obs) - 1]:
            obs[-1]['vals'] = values(exch)
    return snaps, {'exc': '', 'fresh': fresh, 'plain': plain, 'obs': [dict({'vals': fresh}, **o) for o in obs]}


def run_one(x, ops, forms, rng):
    snaps, runs = [], []
    for form in forms:
        res = guarded(play, x, ops, form, rng)
        if res[0] == 'ok':
            runs.append(res[1][1])
            snaps += [s for s in res[1][0] if s not in snaps]
        else:
            runs.append({'exc': res[1], 'fresh': '', 'plain': [], 'obs': []})
    return {'kind': 'run', 'given': given(x), 'snaps': snaps, 'ops': ops, 'runs': runs}


def several(xs, form, rng):
    import httpolice
    exchs = []
    for x in xs:
        e, _ = build(x, form, rng)
        httpolice.check_exchange(e)
        exchs.append(e)
    return report('text', exchs, form), [report('text', [e], PLAIN) for e in exchs]


def example(rng):
    x = check_c09.shared(rng) if rng.random() < .6 else check_c09.from_gen(exrun.concretize(Gen(rng).exchange(), rng))
    x['remark'] = rng.choice([None, None, 'from x', '', '\u2603 <b>'])
    return x


def widen(x, rng):
    msgs = ([x['req']] if x['req'] else []) + x['resps']
    for m in msgs:
        i = 4 if m is x['req'] else 3
        m[i] = [(n, v[:1] + rng.choice(WIDE) + v[1:] if rng.random() < .5 else v) for n, v in m[i]]
    return x


def pad(x, rng):
    for m, i in ([(x['req'], 4)] if x['req'] else []) + [(p, 3) for p in x['resps']]:
        for j in (i, len(m) - 1):
            m[j] = [(n, rng.choice(['%s ', ' %s', '\t%s', '%s\t ', '%s\r', '%s\xa0', '\x0c%s', '']).replace('%s', v) if rng.random() < .4 else v) for n, v in m[j]]
    return x


def batch(args):
    seed, items = args
    out = []
    for n, (kind, ops, forms) in items:
        rng = random.Random('%s/%d' % (seed, n))
        if kind == 'cat':
            xs = [example(rng) for _ in range(rng.randint(0, 4))]
            res = guarded(several, xs, forms[0], rng)
            out.append(({'kind': 'cat', 'exc': '' if res[0] == 'ok' else res[1], 'whole': list(res[1][0]) if res[0] == 'ok' else [], 'parts': [list(p) for p in res[1][1]] if res[0] == 'ok' else []}, xs))
            continue
        x = example(rng)
        if kind == 'wide':
            x = widen(x, rng)
        elif rng.random() < .3:
            x = pad(x, rng)
        out.append((run_one(x, ops, forms, rng), x))
    return out


def order():
    import httpolice
    S = list(httpolice.Severity)
    return {'kind': 'order', 'pairs': [{'a': a.name, 'b': b.name, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b} for a in S for b in S]}


def run(chk):
    rng = chk.rng
    r = chk.explore('ApiEnv', ENV % chk.scale(4, 5), workers=4)
    forms = sorted((p['form'] for p in r.prints if 'form' in p), key=str)
    ops = sorted((p['ops'] for p in r.prints if 'ops' in p), key=str)
    chk.notes.update(forms=len(forms), operation_sequences=len(ops))
    items = [('run', rng.choice(ops), [PLAIN, f, rng.choice(forms)]) for f in forms for _ in range(chk.scale(6, 40))]
    items += [('run', o, [PLAIN, rng.choice(forms)]) for o in ops for _ in range(chk.scale(2, 8))]
    items += [('wide', rng.choice(ops), [rng.choice(forms)]) for _ in range(chk.scale(250, 4000))]
    items += [('cat', [], [rng.choice(forms)]) for _ in range(chk.scale(250, 4000))]
    parts = [('%s/%d' % (chk.pid, chk.seed), p) for p in split_even(list(enumerate(items)), 16)]
    recs = [x for part in pmap(batch, parts) for x in part] + [(order(), None)]
    order_of = [it for _, p in parts for _, it in p] + [('order', [], [])]
    for (rec, x), it, bad in zip(recs, order_of, chk.judge('TraceApi', 'INIT Init\nNEXT Next\n', [c for c, _ in recs])):
        if bad:
            chk.fail(bad, {'kind': rec['kind'], 'given': x, 'operations': it[1], 'forms': it[2], 'seen': [[o['notices'] for o in q['obs']] for q in rec.get('runs', [])],
                           'exception': [q['exc'] for q in rec.get('runs', [])] or rec.get('exc'), 'held': rec.get('snaps')})
    chk.notes['runs'] = sum(len(rec.get('runs', [])) for rec, _ in recs)
    chk.notes['runs_with_notices'] = sum(1 for rec, _ in recs for q in rec.get('runs', []) if q['obs'] and any(q['obs'][-1]['notices']))
    chk.sample({'operations': order_of[0][1], 'forms': order_of[0][2], 'given': recs[0][1]})
