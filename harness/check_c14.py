"""C14: merging connections by time."""
import os
import random
import tempfile
from datetime import datetime, timedelta

from vlib import guarded, pmap, split_even

ENV = '''INIT Init
NEXT Next
INVARIANT Emit
INVARIANT Ordered
INVARIANT Live
INVARIANT Sorted
INVARIANT NoJump
CONSTANT NConns = %d
CONSTANT MaxEvs = %d
CONSTANT MaxTime = %d
'''
BASE = datetime(1994, 11, 15)
UNIX = 784857600
UNIT = 1000
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def date(t, rng):
    d = BASE + timedelta(seconds=t * UNIT)
    if rng.random() < .15:
        full = {'Tue': 'Tuesday', 'Wed': 'Wednesday'}[DAYS[d.weekday()]]
        return '%s, %02d-%s-%02d %02d:%02d:%02d GMT' % (full, d.day, MONTHS[d.month - 1], d.year % 100, d.hour, d.minute, d.second)
    return '%s, %02d %s %d %02d:%02d:%02d GMT' % (DAYS[d.weekday()], d.day, MONTHS[d.month - 1], d.year, d.hour, d.minute, d.second)


def no_date(rng):
    return rng.choice(['', '', 'Date: yesterday\r\n', 'Date:\r\n', 'Date: Tue, 15 Nov 1994\r\n', 'Last-Modified: %s\r\n' % date(1, rng), 'Date: Tue, 32 Nov 1994 08:12:31 GMT\r\n'])


def event(t, kind, label, rng, tmax):
    """(abstract exchange, request bytes, response bytes) at time t (0: unknown)."""
    rd, resps = 0, []
    def response(d, a):
        return {'d': d, 'a': a}
    if kind == 'req':
        rd = t
    else:
        n_early = rng.choice([0, 0, 0, 1, 2]) if kind == 'both' else 0
        n = n_early + 1
        if kind == 'both' and t and rng.random() < .4:
            rd = t
            resps = [response(rng.randint(0, tmax), rng.choice([-1, 0, 1])) for _ in range(n)]
        elif not t:
            resps = [response(0, rng.choice([-1, -1, 0, 1])) for _ in range(n)]
        else:
            k = rng.randrange(n)
            a = rng.choice([-1, -1, 0, 1, 1])
            a = min(a, t - 1)
            resps = [response(0, rng.choice([-1, 1])) for _ in range(k)] + [response(t - max(a, 0), a)] + \
                [response(rng.randint(0, tmax), rng.choice([-1, 0, 1])) for _ in range(n - k - 1)]
    i = o = b''
    if kind != 'resp':
        i = 'GET %s HTTP/1.1\r\nHost: a\r\n%s\r\n' % (label, 'Date: %s\r\n' % date(rd, rng) if rd else no_date(rng))
        i = i.encode()
    for n, x in enumerate(resps):
        last = n == len(resps) - 1
        o += ('HTTP/1.1 %s\r\nX-Id: %s\r\n%s%s%s\r\n' % (
            '204 No Content' if last else '103 Early Hints', label, 'Date: %s\r\n' % date(x['d'], rng) if x['d'] else no_date(rng),
            {-1: rng.choice(['', '', 'Age: x\r\n', 'Age: 999999999999\r\n', 'Age: -1\r\n']), 0: 'Age: 0\r\n'}.get(x['a'], 'Age: %d\r\n' % (x['a'] * UNIT)), '')).encode()
    return {'rd': rd, 'resps': resps}, i, o


def label_of(exch):
    if exch.request is not None:
        return str(exch.request.target)
    if exch.responses:
        for e in exch.responses[0].header_entries:
            if str(e.name).lower() == 'x-id':
                return bytes(e.value).decode('iso-8859-1')
        return '?'
    return 'box' + '+'.join(str(n.id) for n in exch.notices)


def one(case, rng, d):
    from httpolice import inputs
    conns = case['conns']
    fmt = case['fmt']
    tmax = max([e['rd'] for c in conns for e in c['evs']] + [c['hint'] for c in conns] + [1])
    out_conns, labels, paths = [], [], []
    names = []
    root = os.path.join(d, 'dir')
    os.mkdir(root)
    for c, conn in enumerate(conns, 1):
        kind = {'req-stream': 'req', 'resp-stream': 'resp', 'streams': 'both'}.get(fmt) or rng.choice(['both', 'both', 'both', 'req', 'resp', 'junk'] if rng.random() < .4 else ['both'])
        evs, i, o = {}, b'', b''
        for k, e in enumerate(conn['evs'], 1):
            lab = '/c%d/%d' % (c, k)
            evs[lab], a, b = event(e['rd'], kind, lab, rng, tmax) if kind != 'junk' else ({}, b'', b'')
            i += a
            o += b
        if kind == 'junk':
            i, o = b'\x16\x03\x01 junk\r\n', b'junk'
        elif rng.random() < .12:
            i += b'garbage\r\n\r\n' if kind != 'resp' else b''
            o += b'garbage\r\n' if kind != 'req' else b''
        pi, po = os.path.join(d, '%d.i' % c), os.path.join(d, '%d.o' % c)
        files = []
        for p, data, on in ((pi, i, kind != 'resp'), (po, o, kind != 'req')):
            if on:
                with open(p, 'wb') as f:
                    f.write(data)
                files.append(p)
        if kind == 'junk':
            alone = ['box1279']
        else:
            alone = [label_of(x) for x in inputs.formats[{'both': 'streams', 'req': 'req-stream', 'resp': 'resp-stream'}[kind]](files)]
            if fmt in ('tcpflow', 'tcpick') and kind != 'both':
                alone.insert(0, 'box1278')
        none = {'rd': 0, 'resps': []}
        out_conns.append({'hint': conn['hint'] if fmt == 'tcpflow' else 0, 'evs': [evs.get(l, none) for l in alone]})
        labels.append(alone)
        if fmt == 'tcpflow':
            h1 = UNIX + conn['hint'] * UNIT
            h2 = h1 + rng.choice([0, 1, 5000])
            if rng.random() < .5:
                h1, h2 = h2, h1
            if kind in ('req', 'resp'):
                h1 = h2 = UNIX + conn['hint'] * UNIT
            if kind != 'resp':
                names.append((pi, '%d-10.0.0.%d-1000-10.0.1.1-80-0' % (h1, c)))
            if kind != 'req':
                names.append((po, '%d-10.0.1.1-80-10.0.0.%d-1000-0' % (h2, c)))
        elif fmt == 'tcpick':
            if kind != 'resp':
                names.append((pi, 'tcpick_%06d_10.0.0.%d_10.0.1.1_http.clnt.dat' % (c, c)))
            if kind != 'req':
                names.append((po, 'tcpick_%06d_10.0.0.%d_10.0.1.1_http.serv.dat' % (c, c)))
        else:
            paths += files
    if names:
        rng.shuffle(names)
        for src, dst in names:
            os.rename(src, os.path.join(root, dst))
        paths = [root]
    got = [label_of(x) for x in inputs.formats[fmt](paths)]
    return {'conns': out_conns, 'labels': labels, 'out': got, 'exc': ''}


def batch(args):
    seed, cases = args
    out = []
    for n, case in cases:
        with tempfile.TemporaryDirectory(prefix='merge-') as d:
            res = guarded(one, case, random.Random('%s/%d' % (seed, n)), d)
        out.append((n, case, res[1] if res[0] == 'ok' else {'conns': [], 'labels': [], 'out': [], 'exc': res[1]}))
    return out


def run(chk):
    rng = chk.rng
    configs = []
    for shape in chk.scale([(2, 2, 2), (3, 1, 2)], [(2, 2, 3), (3, 1, 3), (2, 3, 1)]):
        r = chk.explore('MergeEnv', ENV % shape, workers=8, heap='6g')
        configs += sorted(r.prints, key=str)
    chk.notes['sets_of_connections_enumerated'] = len(configs)
    keep = rng.sample(configs, min(len(configs), chk.scale(2500, 30000)))
    cases = []
    for conns in keep:
        hinted = conns[0]['hint'] > 0
        cases.append({'conns': conns, 'fmt': 'tcpflow' if hinted else rng.choice(['streams', 'streams', 'tcpick', 'tcpick', 'req-stream', 'resp-stream'])})
    for _ in range(chk.scale(2500, 40000)):
        fmt = rng.choice(['tcpflow'] * 4 + ['streams', 'streams', 'tcpick', 'tcpick', 'req-stream', 'resp-stream'])
        tmax = rng.choice([2, 4, 8, 20])
        few = rng.choice([.05, .3, .7])
        conns = []
        for _c in range(rng.randint(2, 6)):
            h = rng.randint(1, tmax) if fmt == 'tcpflow' else 0
            t, evs = h, []
            for _e in range(rng.randint(1, 5)):
                t = min(tmax, t + rng.randint(0, 2)) if rng.random() < .7 else rng.randint(1, tmax)
                evs.append({'rd': 0 if rng.random() < few else t, 'resps': []})
            conns.append({'hint': h, 'evs': evs})
        cases.append({'conns': conns, 'fmt': fmt})
    recs = [x for part in pmap(batch, [('%s/%d' % (chk.pid, chk.seed), p) for p in split_even(list(enumerate(cases)), 32)]) for x in part]
    verdicts = chk.judge('TraceMerge', 'INIT Init\nNEXT Next\n', [x[2] for x in recs])
    for (n, case, r), bad in zip(recs, verdicts):
        if bad:
            chk.fail(bad, {'n': n, 'fmt': case['fmt'], 'record': r})
    chk.notes['exchanges_merged'] = sum(len(x[2]['out']) for x in recs)
    chk.notes['by_format'] = {f: sum(1 for x in recs if x[1]['fmt'] == f) for f in sorted({x[1]['fmt'] for x in recs})}
    chk.sample({'fmt': recs[-1][1]['fmt'], 'record': recs[-1][2]})
