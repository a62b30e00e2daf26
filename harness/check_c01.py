"""C01: body delimiting."""
import framing
from envgen import gen
from render import Renderer

CLAUSES = {'body', 'offset', 'notices', 'count', 'attribution', 'event', 'box'}
REQF = ['none', 'cl', 'cl0', 'clbad', 'clhuge', 'cllong', 'clzero', 'cl2', 'cl2bad', 'clbad2', 'chunked', 'techcl', 'clte',
        'gzip', 'identity', 'tebad', 'te2', 'tebad2', 'te2bad', 'chunkedfoo', 'foochunked']
RESPF = REQF + ['close', 'gzchunked', 'chunkedtrl']


def run(chk):
    g = gen(chk, methods=['GET', 'HEAD', 'CONNECT', 'POST'], reqf=['none', 'cl', 'chunked'],
            statuses=[100, 101, 103, 199, 200, 204, 299, 304, 404], respf=RESPF, tails=['', 'qr'], maxreq=1, maxresp=1)
    g += gen(chk, methods=['GET', 'POST', 'HEAD', 'CONNECT', 'connect', 'head'], reqf=REQF,
             statuses=[200, 204, 300], respf=['none', 'cl', 'chunked'], tails=['qr'], maxreq=1, maxresp=1)
    if not chk.thorough:
        chk.rng.shuffle(g)
        g = g[:6000]
    # every kind of status code, with each way to delimit a body
    g += gen(chk, methods=['GET', 'HEAD', 'CONNECT'], reqf=['none'],
             statuses=[100, 101, 102, 103, 104, 150, 199, 200, 201, 202, 203, 204, 205, 206, 207, 226, 299, 300, 301, 303, 304, 305, 307, 399, 400, 404, 408, 413, 416, 426,
                       499, 500, 501, 503, 505, 599, 600, 604, 704, 904, 999], respf=['none', 'cl', 'chunked'], tails=['qr'], maxreq=1, maxresp=1)
    r = Renderer(chk.rng)
    cases = []
    for x in g:
        c = r.connection(x, fmt=chk.rng.choice(['streams', 'streams', 'combined']))
        cases.append(c)
        if chk.rng.random() < .15:
            cases.append(dict(c, i=None, fmt='streams'))
        if chk.rng.random() < .1:
            cases.append(dict(c, o=None, fmt='streams'))
    # exact boundary of the size limit
    for n in (1073741823, 1073741824, 1073741825):
        cases.append({'i': b'POST / HTTP/1.1\r\nContent-Length: %d\r\n\r\nabc' % n, 'o': None})
        cases.append({'i': None, 'o': b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\nabc' % n})
    chk.notes['connections_enumerated'] = len(g)
    chk.sample(framing.show(cases[0]))
    framing.run_cases(chk, cases, CLAUSES)
