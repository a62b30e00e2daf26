"""C02: conservation of the bytes of a connection; leftovers are reported."""
import framing
from envgen import gen
from mutate import mutate
from render import Renderer

CLAUSES = {'offset', 'count', 'box', 'event', 'attribution'}


def run(chk):
    g = gen(chk, methods=['GET', 'CONNECT'], reqf=['none', 'cl', 'clbad', 'garbage', 'gzip', 'cllong'],
            statuses=[101, 100, 200, 204], respf=['cl', 'clbad', 'garbage', 'cllong', 'none'],
            tails=['', 'q', 'r', 'g', 'gq', 'qr'], maxreq=1, maxresp=1, must=False)
    g2 = gen(chk, methods=['GET'], reqf=['none', 'garbage', 'clbad'], statuses=[101, 100, 200],
             respf=['cl', 'garbage', 'clhuge'], tails=['', 'q', 'g', 'qr'], maxreq=2, maxresp=2, must=False)
    chk.rng.shuffle(g2)
    g += g2[:chk.scale(1500, 20000)]
    r = Renderer(chk.rng)
    cases = [{'i': i, 'o': o, 'fmt': f} for i in (b'', b'\n', b'GET / HTTP/1.1\r\n\r\n')
             for o in (b'', b'\n', b'HTTP/1.1 200 OK\r\n\r\n') for f in ('streams', 'combined')]
    cases += [{'i': b'', 'o': None}, {'i': None, 'o': b''}]
    for x in g:
        c = r.connection(x, fmt=chk.rng.choice(['streams', 'combined']))
        cases.append(c)
        if chk.rng.random() < .2:
            cases.append(dict(c, i=None, fmt='streams'))
        if chk.rng.random() < .2:
            cases.append(dict(c, o=None, fmt='streams'))
    for _ in range(chk.scale(1500, 20000)):
        cases.append(mutate(chk.rng, r.connection(chk.rng.choice(g))))
    chk.notes['connections_enumerated'] = len(g)
    chk.sample(framing.show(cases[40]))
    framing.run_cases(chk, cases, CLAUSES)
