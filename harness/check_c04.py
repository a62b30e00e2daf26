"""C04: attribution of responses to requests."""
import framing
from envgen import gen
from render import Renderer

CLAUSES = {'count', 'attribution', 'event', 'offset', 'startline', 'box', 'body'}


def run(chk):
    small = dict(methods=['GET', 'HEAD', 'CONNECT'], reqf=['none'], statuses=[100, 101, 200, 204], respf=['cl'])
    g = gen(chk, maxreq=2, maxresp=chk.scale(2, 3), must=False, tails=['', 'r'], **small)
    g += gen(chk, methods=['GET', 'HEAD', 'POST'], reqf=['cl'], statuses=[102, 103, 200, 404], respf=['cl', 'none', 'chunked'],
             tails=[''], maxreq=1, maxresp=2)
    r = Renderer(chk.rng)
    cases = []
    for x in g:
        c = r.connection(x, fmt=chk.rng.choice(['streams', 'combined']))
        cases.append(c)
    # longer pipelines
    for _ in range(chk.scale(2500, 30000)):
        nq = chk.rng.randint(1, 6)
        qs = [[chk.rng.choice(['GET', 'GET', 'HEAD', 'POST', 'CONNECT' if chk.rng.random() < .1 else 'GET']),
               chk.rng.choice(['none', 'none', 'cl', 'chunked', 'clbad' if chk.rng.random() < .1 else 'none'])] for _ in range(nq)]
        rs = []
        for _ in range(nq + chk.rng.choice([-1, 0, 0, 0, 1, 2])):
            while chk.rng.random() < .25:
                rs.append([chk.rng.choice([100, 102, 103, 199]), 'none'])
            rs.append([chk.rng.choice([200, 201, 204, 304, 404, 500, 200, 101 if chk.rng.random() < .2 else 200]),
                       chk.rng.choice(['cl', 'chunked', 'cl0', 'none' if chk.rng.random() < .1 else 'cl'])])
        cases.append(r.connection({'q': qs, 'r': rs, 't': ''}, fmt=chk.rng.choice(['streams', 'combined'])))
    for c in list(cases):
        if chk.rng.random() < .05:
            cases.append(dict(c, i=None, fmt='streams'))
    chk.notes['connections_enumerated'] = len(g)
    chk.sample(framing.show(cases[-1]))
    framing.run_cases(chk, cases, CLAUSES)
