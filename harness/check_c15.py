"""C15: capture directories, and the same traffic in every format."""
import io
import os
import random
import re
import tempfile

import framing
import reports
from envgen import gen
from render import Renderer
from vlib import guarded, octets, pmap, split_even

ENV = '''INIT Init
NEXT Next
INVARIANT Emit
INVARIANT Partition
INVARIANT OrderFree
INVARIANT Sensible
CONSTANT MaxFiles = %d
CONSTANT NumIsTime = %s
'''
HEADS = {
    'req': [b'GET /f%d HTTP/1.1', b'POST http://a/f%d HTTP/1.0', b'foo /f%d?x HTTP/1.1', b'OPTIONS * HTTP/1.1'],
    'resp': [b'HTTP/1.1 200 OK', b'HTTP/1.0 404 ', b'HTTP/1.1 599 x y z', b'HTTP/1.1 302 HTTP/1.1'],
    'junk': [b'', b'\x16\x03\x01\x02', b'HTTP/2.0 200 OK', b'GET / HTTP/2.0', b'PRI * HTTP/2.0', b'HTTP/1.1 20 OK', b'GET /a b HTTP/1.1', b' / HTTP/1.1', b'GET / FOO/1.1',
             b'RTSP/1.0 200 OK', b'SSH-2.0-foo', b'200 OK HTTP/1.x', b'GET  HTTP/1.1', b'x HTTP/1.1 200 OK', b'hello', b'HTTP/1.1200 OK', b'FTP /f HTTP/11'],
}
BAD = {'tcpflow': ['foo', '10.0.0.1-1024-10.0.0.2-80', '010.000.000.001.01024-010.000.000.002.00080', '1000000000-10.0.0.1-1024-10.0.0.2-80', 'x-10.0.0.1-1024-10.0.0.2-80-0',
                   'report.xml.bak', '1000000000-10.0.0.1-1024-10.0.0.2-http-0', '99999999999999999-10.9.0.1-1024-10.0.0.2-80-0'],
       'tcpick': ['foo', 'tcpick_10.0.0.1_10.0.0.2_http.clnt.dat', 'tcpick_000001_10.0.0.1_10.0.0.2_http.both.dat', 'tcpick_000001_10.0.0.1_10.0.0.2_http.clnt', 'tcpick_x_10.0.0.1_10.0.0.2_http.clnt.dat',
                  '1000000000-10.0.0.1-1024-10.0.0.2-80-0']}
HOSTS = {'a': ('10.0.0.1', 1024), 'b': ('10.0.0.1', 1025), 'c': ('10.0.0.3', 1024), 's': ('10.0.0.9', 80), 't': ('10.0.0.9', 8080), 'v': ('0000:00', 443)}


def describe(exchs, paths):
    """A string for every exchange (the order of the notices of a message is immaterial)."""
    import httpolice
    out = []
    for e in exchs:
        if e.request is None and not e.responses:
            ids = [n.id for n in e.notices]
            if ids in ([1278], [1279]):
                buf = io.BytesIO()
                httpolice.html_report([e], buf)
                s = buf.getvalue().decode('utf-8')
                out.append(' '.join([str(ids[0])] + [paths[p] for p in sorted(paths, key=lambda p: int(paths[p][1:])) if p in s]))
            else:
                out.append('box %s' % ids)
            continue
        httpolice.check_exchange(e)
        d = []
        if e.request is not None:
            r = e.request
            d.append('%s %s %s %s %s' % (r.scheme, r.method, r.target, [(str(a), bytes(b)) for a, b in r.header_entries], r.body))
        for r in e.responses:
            d.append('%d %s %s %s' % (r.status, r.reason, [(str(a), bytes(b)) for a, b in r.header_entries], r.body))
        out.append('%s %s' % (d, [sorted(n.id for n in o.notices) for o in [e, e.request] + e.responses if o is not None]))
    return out


def content(has, k, rng):
    head = rng.choice(HEADS[has])
    head = head % k if b'%d' in head else head
    if has == 'junk' and rng.random() < .3:
        return head, head
    end = rng.choice([b'\r\n', b'\r\n', b'\n'])
    if has == 'req':
        data = head + end + b'Host: f%d\r\n\r\n' % k
        if rng.random() < .3:
            data += b'GET /f%d/2 HTTP/1.1\r\nHost: a\r\n\r\n' % k
    else:
        data = head + end + b'X-F: %d\r\nContent-Length: 0\r\n\r\n' % k
        if rng.random() < .3:
            data += b'HTTP/1.1 404 Not Found\r\nX-F: %d\r\nContent-Length: 2\r\n\r\nhi' % k
    return head, data


def one(case, rng, d):
    from httpolice import inputs
    fmt, files = case['fmt'], case['files']
    ren = {}
    dirs = {}
    full = []
    fs = []
    datas = []
    for k, f in enumerate(files, 1):
        top = dirs.setdefault(f['dir'], os.path.join(d, 'dir%d' % f['dir']))
        os.makedirs(top, exist_ok=True)
        head, data = content(f['has'], k, rng)
        (sh, sp), (dh, dp) = HOSTS[f['src']], HOSTS[f['dst']]
        if fmt == 'tcpflow':
            name = '%d-%s-%d-%s-%d-%d' % (1000000000 + f['time'], sh, sp, dh, dp, k if case.get('dup') else rng.choice([0, 0, 2]))
        else:
            sh, dh = '%s.%d' % (sh, sp), '%s.%d' % (dh, dp)         # (no ports in these names)
            client, server, side = (sh, dh, 'clnt') if f['src'] in 'abc' else (dh, sh, 'serv')
            name = 'tcpick_%06d_%s_%s_%s.%s.dat' % (f['num'], client, server, rng.choice(['http', 'http']), side)
        path = os.path.join(top, name)
        full.append(path)
        datas.append(data)
        fs.append(dict(f, head=octets(head)))
    order = list(range(len(files)))
    rng.shuffle(order)
    for k in order:
        with open(full[k], 'xb') as f:
            f.write(datas[k])
    paths = {p: 'f%d' % k for k, p in enumerate(full, 1)}
    alone = []
    for j, f in enumerate(files):
        for x, y, a in ((j, None, 'req-stream'), (None, j, 'resp-stream')):
            alone.append({'in': 0 if x is None else x + 1, 'out': 0 if y is None else y + 1, 'exchs': describe(inputs.formats[a]([full[j]]), {})})
        for k, g in enumerate(files):
            if k != j and f['dir'] == g['dir'] and (f['src'], f['dst'], f['num']) == (g['dst'], g['src'], g['num']):
                alone.append({'in': j + 1, 'out': k + 1, 'exchs': describe(inputs.formats['streams']([full[j], full[k]]), {})})
    names = 'good'
    if case.get('bad'):
        names = 'bad'
        with open(os.path.join(rng.choice(sorted(dirs.values())), rng.choice(BAD[fmt])), 'xb') as f:
            f.write(b'x')
    elif fmt == 'tcpflow' and rng.random() < .3:
        for n in ('report.xml', 'alerts.txt'):
            with open(os.path.join(rng.choice(sorted(dirs.values())), n), 'wb') as f:
                f.write(b'<x/>')
    tops = sorted(dirs.values())
    rng.shuffle(tops)
    r = {'kind': 'dir', 'fs': fs, 'names': names, 'path': ['f%d' % k for k in range(1, len(files) + 1)], 'alone': alone, 'got': [], 'err': False, 'fmts': [], 'exc': ''}
    listdir = os.listdir

    def shuffled(*args):
        x = listdir(*args)
        rng.shuffle(x)
        return x
    try:
        os.listdir = shuffled
        r['got'] = describe(inputs.formats[fmt](tops), paths)
    except inputs.InputError:
        r['err'] = True
    finally:
        os.listdir = listdir
    return r


def same(case, rng, d):
    """The same traffic in several formats."""
    from httpolice import inputs
    i, o = case['i'], case['o']
    pi, po, pc = os.path.join(d, 'i'), os.path.join(d, 'o'), os.path.join(d, 'c')
    for p, s in ((pi, i), (po, o), (pc, b'x\r\n======== BEGIN INBOUND STREAM ========\r\n' + i + b'======== BEGIN OUTBOUND STREAM ========\r\n' + o)):
        with open(p, 'wb') as f:
            f.write(s)
    runs = [('streams', [pi, po]), ('combined', [pc])]
    for fmt, (a, b) in (('tcpflow', ('1000000000-10.0.0.1-1024-10.0.0.9-80-0', '1000000000-10.0.0.9-80-10.0.0.1-1024-0')),
                        ('tcpick', ('tcpick_000001_10.0.0.1_10.0.0.9_http.clnt.dat', 'tcpick_000001_10.0.0.1_10.0.0.9_http.serv.dat'))):
        os.mkdir(os.path.join(d, fmt))
        for name, s in ((a, i), (b, o)):
            with open(os.path.join(d, fmt, name), 'wb') as f:
                f.write(s)
        runs.append((fmt, [os.path.join(d, fmt)]))
    return {'kind': 'same', 'fs': [], 'names': 'good', 'path': [], 'alone': [], 'err': False, 'exc': '', 'fmts': [f for f, _ in runs],
            'got': [describe(inputs.formats[f](p), {}) for f, p in runs]}


MARK = {'in': b'======== BEGIN INBOUND STREAM ========\r\n', 'out': b'======== BEGIN OUTBOUND STREAM ========\r\n',
        'lfin': b'======== BEGIN INBOUND STREAM ========\n', 'lfout': b'======== BEGIN OUTBOUND STREAM ========\n'}
TEXT = [b'Some comment.\r\n', b'\r\n', 'Комментарий — “x”\r\n'.encode('utf-8'), b'======== BEGIN INBOUND STREAM\r\n', b'======== begin outbound stream ========\r\n',
        b'GET /t HTTP/1.1\r\nHost: t\r\n\r\n', b'HTTP/1.1 200 OK\r\n\r\n', b'======== BEGIN OUTBOUND STREAM ========\r', b'======= BEGIN INBOUND STREAM =======\r\n',
        b'x' * 700 + b'\r\n']
NAMES = ['a', 'b.txt', 'c.https', 'd.noscheme', 'e.https.txt', 'f.http', 'https', 'g.noscheme.https', 'h.https.noscheme', 'i.https/a', 'j.noscheme/b.txt', 'k.httpsx', 'noscheme']


def bare(exchs):
    """Exchanges without schemes and notices about the messages; the schemes."""
    out, schemes = [], []
    for e in exchs:
        d = [n.id for n in e.notices]
        for m in [e.request] + list(e.responses):
            if m is not None:
                d.append([str(getattr(m, 'method', None) or int(m.status)), str(getattr(m, 'target', None) or getattr(m, 'reason', '')), str(m.version),
                          [(str(a), bytes(b)) for a, b in m.header_entries], repr(m.body)])
        if e.request is not None:
            schemes.append('none' if e.request.scheme is None else str(e.request.scheme))
        out.append(str(d))
    return out, schemes


def combined(case, rng, d):
    from httpolice import inputs
    files, paths = [], []
    for n, (ps, name) in enumerate(case['comb']):
        started = False
        data = []
        for k, p in enumerate(ps):
            started = started or p == 'in'
            if p == 'req':
                x = rng.choice([b'GET /r%d HTTP/1.1\r\nHost: a\r\n\r\n' % k, b'POST /r%d HTTP/1.1\r\nHost: a\r\nContent-Length: 3\r\n\r\nabc' % k if started else b'r%d\r\n' % k])
            elif p == 'resp':
                x = rng.choice([b'HTTP/1.1 404 Not Found\r\nX: %d\r\n\r\n' % k, b'HTTP/1.1 200 OK\r\nX: %d\r\nContent-Length: %d\r\n\r\n' % (k, rng.choice([0, 42, 41])),
                                b'HTTP/1.1 204 No Content\r\n\r\n'])
            elif p == 'text':
                x = rng.choice(TEXT)
                if not started and not x.endswith(b'\n'):
                    x = b'\r\n'
            else:
                x = MARK[p]
            data.append(x)
        # a text that ends in CR must not make a marker together with what follows
        path = os.path.join(d, '%d' % n, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(b''.join(data))
        paths.append(path)
        alone = []
        for i, p in enumerate(ps):
            for o in range(i + 1, len(ps)):
                if p == 'in' and ps[o] == 'out':
                    ab = [os.path.join(d, '%d-%s' % (n, x)) for x in 'io']
                    for q, part in zip(ab, (data[i + 1:o], data[o + 1:])):
                        with open(q, 'wb') as f:
                            f.write(b''.join(part))
                    exchs = list(inputs.formats['streams'](ab))
                    alone.append({'in': i + 1, 'out': o + 1, 'exchs': bare(exchs)[0], 'nreq': len(bare(exchs)[1])})
        files.append({'ps': ps, 'name': octets(path.encode('ascii')), 'alone': alone})
    r = {'kind': 'combined', 'fs': [], 'names': '', 'path': [], 'alone': [], 'err': False, 'exc': '', 'fmts': [], 'got': [], 'files': files, 'schemes': []}
    try:
        r['got'], r['schemes'] = bare(inputs.formats['combined'](paths))
    except inputs.InputError:
        r['err'] = True
    return r


def batch(args):
    seed, cases = args
    out = []
    for n, case in cases:
        with tempfile.TemporaryDirectory(prefix='pair-') as d:
            res = guarded(one if 'files' in case else combined if 'comb' in case else same, case, random.Random('%s/%d' % (seed, n)), d)
        out.append((n, case, res[1] if res[0] == 'ok' else {'kind': 'same', 'fs': [], 'names': '', 'path': [], 'alone': [], 'err': False, 'got': [], 'fmts': [], 'exc': res[1]}))
    return out


def ambiguous(fs):
    return any(f is not g and f['dir'] == g['dir'] and (f['src'], f['dst'], f['num'], f['time'], f['has']) == (g['dst'], g['src'], g['num'], g['time'], g['has']) and f['has'] != 'junk'
               for f in fs for g in fs)


def unique(fs):
    return len({(f['dir'], f['src'], f['dst'], f['num']) for f in fs}) == len(fs)


def run(chk):
    rng = chk.rng
    cases = []
    for fmt, flag in (('tcpflow', 'FALSE'), ('tcpick', 'TRUE')):
        r = chk.explore('PairingEnv', ENV % (chk.scale(2, 3), flag), workers=8, heap='6g')
        found = sorted(r.prints, key=str)
        chk.notes['%s_directories_enumerated' % fmt] = len(found)
        cases += [{'fmt': fmt, 'files': f, 'dup': not unique(f)} for f in rng.sample(found, min(len(found), chk.scale(1300, 20000))) if fmt == 'tcpflow' or unique(f)]
    for _ in range(chk.scale(1200, 30000)):
        fmt = rng.choice(['tcpflow', 'tcpick'])
        fs = []
        for _f in range(rng.randint(2, 7)):
            n = rng.randint(1, 3)
            ends = [rng.choice('abc'), rng.choice('stv')]
            if fs and rng.random() < .6:
                g = rng.choice(fs)
                f = dict(g, src=g['dst'], dst=g['src'], has=rng.choice(['req', 'resp', 'junk']) if rng.random() < .3 else {'req': 'resp', 'resp': 'req', 'junk': 'junk'}[g['has']])
                if fmt == 'tcpflow':
                    f['time'] = n
            else:
                if rng.random() < .3:
                    ends.reverse()
                f = {'dir': rng.randint(1, 2), 'src': ends[0], 'dst': ends[1], 'num': n if fmt == 'tcpick' else 0, 'time': n, 'has': rng.choice(['req', 'resp', 'resp', 'req', 'junk'])}
            if unique(fs + [f]) or (fmt == 'tcpflow' and rng.random() < .1):
                fs.append(f)
        if not ambiguous(fs):
            cases.append({'fmt': fmt, 'files': fs, 'bad': rng.random() < .08, 'dup': not unique(fs)})
    g = gen(chk, methods=['GET', 'CONNECT', 'HEAD'], reqf=['none', 'cl', 'garbage'], statuses=[101, 100, 200], respf=['cl', 'none', 'garbage', 'chunked'],
            tails=['', 'q', 'g'], maxreq=2, maxresp=1, must=False)
    ren = Renderer(rng)
    for x in rng.sample(g, min(len(g), chk.scale(400, 8000))):
        c = ren.connection(x)
        if c['i'] is not None and c['o'] is not None and re.match(rb'(GET|HEAD) [^ ]+ HTTP/1\.[0-9]\s*$', c['i'].split(b'\n')[0]) and b'======== BEGIN' not in c['i']:
            cases.append({'i': c['i'], 'o': c['o'], 'fmt': 'same'})
    r = chk.explore('CombinedEnv', 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Whole\nINVARIANT Stable\nINVARIANT Ignored\nCONSTANT MaxPieces = %d\n' % chk.scale(5, 6), workers=8)
    found = sorted(r.prints, key=str)
    chk.notes['combined_files_enumerated'] = len(found)
    whole = [ps for ps in found if 'in' in ps and 'out' in ps[ps.index('in'):]]
    for ps in rng.sample(whole, min(len(whole), chk.scale(700, 8000))) + rng.sample(found, chk.scale(150, 2000)):
        cases.append({'comb': [(ps, rng.choice(NAMES))] + [(rng.choice(whole), rng.choice(NAMES)) for _ in range(rng.choice([0, 0, 0, 1, 2]))], 'fmt': 'combined'})
    recs = [x for part in pmap(batch, [('%s/%d' % (chk.pid, chk.seed), p) for p in split_even(list(enumerate(cases)), 32)]) for x in part]
    verdicts = chk.judge('TracePairing', 'INIT Init\nNEXT Next\n', [x[2] for x in recs])
    for (n, case, r), bad in zip(recs, verdicts):
        if bad:
            chk.fail(bad, {'n': n, 'case': framing.show(case) if 'i' in case else case, 'got': r['got'], 'err': r['err'], 'exc': r['exc'], 'fs': [bytes(f['head']).decode('latin-1') for f in r['fs']]})
    chk.notes['by_kind'] = {f: sum(1 for x in recs if x[1]['fmt'] == f) for f in ('tcpflow', 'tcpick', 'same', 'combined')}
    chk.notes['input_errors'] = sum(1 for x in recs if x[2]['err'])
    chk.sample({'case': recs[5][1], 'got': recs[5][2]['got']})
