"""C06: start lines and header blocks."""
import framing
from check_c05 import frags
from mutate import mutate_bytes
from render import Renderer

CLAUSES = {'headers', 'startline', 'trailers', 'notices', 'offset', 'count', 'box', 'event', 'attribution'}
FRAGS = [b'A', b':', b' ', b'\t', b'\r', b'\n', b'\r\n', b'x,y']
LINE = [b'GET', b' ', b'/', b'HTTP/1.1', b'\t', b'\r', b'HTTP/1.', b'200', b'1']


def cases_of(chk):
    rng = chk.rng
    cases = []
    fr = frags(chk, len(FRAGS), chk.scale(4, 5))
    fl = frags(chk, len(LINE), chk.scale(4, 5))
    chk.notes['fragment_sequences_enumerated'] = len(fr) + len(fl)
    if chk.thorough:
        rng.shuffle(fr)
        rng.shuffle(fl)
        fr, fl = fr[:20000], fl[:20000]
    else:
        rng.shuffle(fl)
        fl = fl[:2500]
    nq, nr = b'GET /2 HTTP/1.1\r\n\r\n', b'HTTP/1.1 200 OK\r\n\r\n'
    for f in fr:
        x = b''.join(FRAGS[k - 1] for k in f)
        pre, post = rng.choice([b'', b'', b'B: c\r\n']), rng.choice([b'\r\n\r\n', b'\r\n\r\n', b'\n\n', b'\r\n', b': \r\n\r\n'])
        if rng.random() < .5:
            cases.append({'i': b'GET / HTTP/1.1\r\n' + pre + x + post + nq, 'o': None})
        elif rng.random() < .7:
            cases.append({'i': None, 'o': b'HTTP/1.1 204 OK\r\n' + pre + x + post + nr})
        else:
            cases.append({'i': None, 'o': b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n' + pre + x + post + nr})
    for f in fl:
        x = b''.join(LINE[k - 1] for k in f)
        if rng.random() < .5:
            cases.append({'i': rng.choice([b'', b'GET ', b'GET / ']) + x + rng.choice([b'', b'1', b' HTTP/1.1']) + b'\r\nA: b\r\n\r\n' + nq,
                          'o': None})
        else:
            cases.append({'i': None, 'o': rng.choice([b'', b'HTTP/1.1 ', b'HTTP/1.1 200']) + x + rng.choice([b'', b' ', b' OK']) +
                          b'\r\nA: b\r\n\r\n' + nr})
    # line length limit
    for n in (16380, 16381, 16382, 16383, 16384, 16385, 16386):
        for e in (b'\r\n', b'\n'):
            pad = b'a' * (n - len(e))
            cases.append({'i': b'GET / HTTP/1.1\r\nA:' + pad[2:] + e + b'B: c\r\n\r\n', 'o': None})
            cases.append({'i': b'GET /' + pad[:-14] + b' HTTP/1.1' + e + b'B: c\r\n\r\n', 'o': None})
            cases.append({'i': None, 'o': b'HTTP/1.1 200 ' + pad[13:] + e + b'B: c\r\n\r\n'})
            cases.append({'i': b'GET / HTTP/1.1\r\nA: b' + e + b' ' + pad[1:] + e + b'B: c\r\n\r\n', 'o': None})
    r = Renderer(rng)
    for _ in range(chk.scale(2500, 30000)):
        h = b''.join(r.field(rng.choice([b'A', b'B', b'C-D', b'']), rng.choice([b'', b'v', b'v  w', b'\xe9', b':', b' : '])) for _ in range(rng.randint(0, 4)))
        if rng.random() < .5:
            cases.append({'i': mutate_bytes(rng, r.request(['GET', 'none'])[:-2] + h + b'\r\n') + nq, 'o': None})
        else:
            cases.append({'i': None, 'o': mutate_bytes(rng, r.response([204, 'none'])[:-2] + h + b'\r\n') + nr})
    chk.sample(framing.show(cases[300]))
    return cases


def run(chk):
    framing.run_cases(chk, cases_of(chk), CLAUSES)
