"""C13: exit status and -s of the command-line tool."""
import io
import json
import os
import subprocess
import sys
import tempfile

import reports
from vlib import REPO, guarded, pmap, split_even

ENV = '''INIT Init
NEXT Next
INVARIANT Emit
INVARIANT Quiet
INVARIANT Monotone
INVARIANT SilencingHelps
INVARIANT BrokenFails
CONSTANT MaxPaths = %d
'''
FORMATS = ['combined', 'streams', 'req-stream', 'resp-stream', 'tcpflow', 'tcpick', 'har']
SEVS = {'D': ['D'], 'C': ['C'], 'E': ['E'], 'CE': ['C', 'E'], 'DC': ['D', 'C'], 'mutedE': ['E'], 'mutedsome': ['E', 'C']}
# A request and a response with a notice of that severity each
REQ = {'D': [('Content-Encoding', 'foo')], 'C': [('X-Foo', 'bar')], 'E': [('Age', 'x')]}
RESP = {'D': [('Content-Encoding', 'foo')], 'C': [('X-Foo', 'bar')], 'E': [('Allow', '@')]}


def heads(kind, rng):
    """Header entries of the request and of the response."""
    req = [('Host', 'example.com'), ('User-Agent', 'demo')]
    resp = [('Date', 'Tue, 15 Nov 1994 08:12:31 GMT'), ('Content-Type', 'text/plain')]
    for s in SEVS.get(kind, []):
        side = rng.choice(['req', 'resp', 'both'])
        if side != 'resp':
            req += REQ[s]
        if side != 'req':
            resp += RESP[s]
    if kind.startswith('muted'):
        where = [x for x in (req, resp)]
        for x in where:
            x.append(('HTTPolice-Silence', rng.choice(['1000', '1000, 1063, 1064', '1064,1000'])))
    return req, resp


def wire(first, hdrs, body):
    return (first + '\r\n' + ''.join('%s: %s\r\n' % h for h in hdrs) + 'Content-Length: %d\r\n\r\n' % len(body)).encode() + body


def write(path, data):
    with open(path, 'wb') as f:
        f.write(data)
    return path


def make(fmt, kind, rng, d, n):
    """Paths of one input, and whether it is broken."""
    req_h, resp_h = heads(kind, rng)
    coded = any(k == 'Content-Encoding' for k, _ in req_h)
    req = wire('POST / HTTP/1.1' if coded else 'GET / HTTP/1.1', req_h + ([('Content-Type', 'text/plain')] if coded else []), b'x' if coded else b'')
    if not coded:
        req = req.replace(b'Content-Length: 0\r\n', b'')
    resp = wire('HTTP/1.1 200 OK', resp_h, b'hi')
    if fmt != 'har' and rng.random() < .35:
        # what is wrong is wrong in one of the interim responses
        parts = [resp_h[:2] if rng.random() < .7 else resp_h, resp_h[2:], []][::rng.choice([1, 1, -1])]
        resp = b''.join(('HTTP/1.1 %s\r\n' % rng.choice(['100 Continue', '102 Processing']) + ''.join('%s: %s\r\n' % h for h in x) + '\r\n').encode()
                        for x in parts[1:]) + wire('HTTP/1.1 200 OK', parts[0], b'hi')
    p = os.path.join(d, 'i%d' % n)
    broken = kind in ('missing', 'wrongtype', 'malformed')
    if kind == 'malformed' and fmt in ('req-stream', 'resp-stream', 'streams'):
        kind = 'wrongtype'          # any bytes at all are a stream
    if fmt in ('tcpflow', 'tcpick'):
        if kind == 'missing':
            return [p], broken
        if kind == 'wrongtype':
            return [write(p, b'x')], broken
        os.mkdir(p)
        names = {'tcpflow': ['1000000000-10.0.0.1-1024-10.0.0.2-80-0', '1000000001-10.0.0.2-80-10.0.0.1-1024-0'],
                 'tcpick': ['tcpick_000001_10.0.0.1_10.0.0.2_http.clnt.dat', 'tcpick_000001_10.0.0.1_10.0.0.2_http.serv.dat']}[fmt]
        shape = rng.random()
        if shape < .7 or kind == 'clean':
            write(os.path.join(p, names[0]), req)
            write(os.path.join(p, names[1]), resp)
        elif shape < .85:
            write(os.path.join(p, names[0]), req)       # with a standalone 1278
        else:
            write(os.path.join(p, names[0]), b'\x16\x03\x01')
            write(os.path.join(p, names[1]), b'\x16\x03\x02')
        if kind == 'malformed':
            write(os.path.join(p, rng.choice(['foo', 'tcpick_x', '12-34', 'tcpick_1_a_b_c.dat'])), b'x')
        return [p], broken
    if fmt == 'streams':
        paths = [write(p + 'i', req), write(p + 'o', resp)]
        if broken:
            k = rng.randrange(2)
            if kind == 'missing':
                paths[k] += 'x'
            else:
                paths[k] = d
        return paths, broken
    if kind == 'missing':
        return [p], broken
    if kind == 'wrongtype':
        os.mkdir(p)
        return [p], broken
    if fmt == 'req-stream':
        return [write(p, req)], broken
    if fmt == 'resp-stream':
        return [write(p, resp)], broken
    if fmt == 'combined':
        if kind == 'malformed':
            return [write(p, rng.choice([b'', b'GET / HTTP/1.1\r\n\r\n', b'======== BEGIN INBOUND STREAM ========\r\n' + req, b'======== BEGIN INBOUND STREAM ========\n' + req]))], broken
        return [write(p, b'about\r\n======== BEGIN INBOUND STREAM ========\r\n' + req + b'======== BEGIN OUTBOUND STREAM ========\r\n' + resp)], broken
    entry = {'request': {'method': 'GET', 'url': 'http://example.com/', 'httpVersion': 'HTTP/1.1', 'bodySize': 0,
                         'headers': [{'name': a, 'value': b} for a, b in req_h if a != 'Content-Encoding']},
             'response': {'status': 200, 'statusText': 'OK', 'httpVersion': 'HTTP/1.1', 'bodySize': 2, 'content': {'size': 2, 'text': 'hi'},
                          'headers': [{'name': a, 'value': b} for a, b in resp_h]}}
    doc = {'log': {'creator': {'name': 'x'}, 'entries': [entry]}}
    if kind == 'malformed':
        return [write(p, rng.choice([b'', b'{', b'[]', b'{"log": {}}', b'\xff', b'null', json.dumps({'log': {'creator': {'name': 'x'}, 'entries': [{}]}}).encode()]))], broken
    return [write(p, json.dumps(doc).encode())], broken


def in_process(argv):
    import httpolice.cli
    from httpolice.util.text import MockStdio
    out, err = MockStdio(), MockStdio()
    code = httpolice.cli.run_cli(httpolice.cli.parse_args(['httpolice'] + argv), out, err)
    return code, out.buffer.getvalue(), err.buffer.getvalue()


def as_process(argv):
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from httpolice.cli import main; main()'] + argv, env=dict(os.environ, PYTHONPATH=REPO),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, check=False)
    return p.returncode, p.stdout, p.stderr


def flat(data):
    """Notices of an HTML report, in order."""
    html, _ = reports.read_html(data)
    return [x for e in html['exchs'] for x in [n for s in e['secs'] for n in s['notices']] + e['own']]


def one(case, rng, d, process):
    fmt = case['fmt']
    paths, broken = [], False
    for n, kind in enumerate(case['in']):
        ps, b = make(fmt, kind, rng, d, n)
        paths += ps
        broken = broken or b
    if fmt == 'streams' and rng.random() < .05:
        paths.pop()
        broken = True
    tool = as_process if process else in_process
    base = ['-i', fmt]
    out = ['-o', case['out']] if case['out'] == 'html' or rng.random() < .5 else []
    try:
        _, b0, _ = in_process(base + out + paths)
    except Exception:       # the run below says
        b0 = b''
    r = {'broken': broken, 'fail': case['fail'], 'ids': [], 'base': [], 'text': [], 'hbase': [], 'html': [], 'out': case['out'], 'code': 0, 'err': False, 'exc': ''}
    if case['out'] == 'text':
        lines = reports.read_text(b0)[0]
        r['base'] = lines
        seen = []
        for l in lines:
            s = ''.join(map(chr, l))
            if s[:2] in ('D ', 'C ', 'E ') and s[2:6].isdigit():
                seen.append((s[0], int(s[2:6])))
    else:
        r['hbase'] = flat(b0) if b0 else []
        seen = [(n['sev'], n['id']) for n in r['hbase']]
    sil = case['sil']
    ids = sorted({i for s, i in seen if sil in ('all', s)}) if sil in ('all', 'D', 'C', 'E') else \
        sorted({i for _, i in seen if rng.random() < .5}) if sil == 'some' else [1001, 1234] if sil == 'other' else []
    rng.shuffle(ids)
    r['ids'] = ids
    opts = []
    for i in ids:
        opts += rng.choice([['-s', str(i)], ['--silence', str(i)], ['--silence=%d' % i], ['-s%d' % i]])
    if case['fail'] != 'none':
        opts += rng.choice([['--fail-on', case['fail']], ['--fail-on=' + case['fail']]])
    if rng.random() < .1:
        opts.append('--full-traceback')
    argv = base + out + opts + paths if rng.random() < .5 else opts + base + out + paths
    r['code'], b1, err = tool(argv)
    r['err'] = b'httpolice: ' in err
    if case['out'] == 'text':
        r['text'] = reports.read_text(b1)[0]
    else:
        r['html'] = flat(b1) if b1 else []
    return r, argv


def batch(args):
    import random
    seed, cases = args
    out = []
    for n, case in cases:
        rng = random.Random('%s/%d' % (seed, n))
        with tempfile.TemporaryDirectory(prefix='cli-') as d:
            res = guarded(one, case, rng, d, case.get('process', False))
        if res[0] == 'ok':
            out.append((n, case, res[1][0], res[1][1]))
        else:
            out.append((n, case, {'broken': False, 'fail': 'none', 'ids': [], 'base': [], 'text': [], 'hbase': [], 'html': [], 'out': 'text', 'code': 0, 'err': False, 'exc': res[1]}, []))
    return out


def run(chk):
    r = chk.explore('CliEnv', ENV % chk.scale(2, 3), workers=4)
    cmds = sorted(r.prints, key=str)
    chk.notes['command_lines_enumerated'] = len(cmds)
    # every single-input command line in every format, and a share of the longer ones
    cases = [dict(c, fmt=f) for c in cmds if len(c['in']) == 1 for f in FORMATS]
    more = [c for c in cmds if len(c['in']) > 1]
    cases += [dict(c, fmt=chk.rng.choice(FORMATS)) for c in chk.rng.sample(more, min(len(more), chk.scale(2500, 40000)))]
    for c in chk.rng.sample(range(len(cases)), 24):
        cases[c]['process'] = True
    numbered = list(enumerate(cases))
    recs = [x for part in pmap(batch, [('%s/%d' % (chk.pid, chk.seed), p) for p in split_even(numbered, 32)]) for x in part]
    verdicts = chk.judge('TraceCli', 'INIT Init\nNEXT Next\n', [x[2] for x in recs], heap='3g')
    for (n, case, r, argv), bad in zip(recs, verdicts):
        if bad:
            chk.fail(bad, {'n': n, 'case': case, 'argv': argv, 'code': r['code'], 'ids': r['ids'], 'exc': r['exc'],
                           'base': [''.join(map(chr, l)) for l in r['base']][:30], 'text': [''.join(map(chr, l)) for l in r['text']][:30]})
    chk.notes['exit_statuses'] = {str(k): sum(1 for x in recs if x[2]['code'] == k) for k in (0, 1)}
    chk.sample({'case': recs[0][1], 'argv': recs[0][3]})
