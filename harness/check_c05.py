"""C05: chunked framing and transfer codings."""
import zlib

import framing
from envgen import gen
from framing import gz
from mutate import mutate_bytes
from render import Renderer

CLAUSES = {'body', 'trailers', 'notices', 'offset', 'count', 'box', 'event', 'attribution', 'headers'}
FRAGS = [b'0', b'3', b'A', b'abc', b'0123456789', b'\r\n', b'\n', b';x', b' ', b'T: v']


def frags(chk, k, n):
    r = chk.explore('FragEnv', 'INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS K = %d\n MaxLen = %d\n' % (k, n))
    return sorted(r.prints)


def cases_of(chk):
    cases = []
    rng = chk.rng
    fr = frags(chk, len(FRAGS), 4)
    chk.notes['fragment_sequences_enumerated'] = len(fr)
    if not chk.thorough:
        rng.shuffle(fr)
        fr = fr[:4000]
    head = b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n'
    rhead = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
    for f in fr:
        x = b''.join(FRAGS[k - 1] for k in f)
        end = rng.choice([b'\r\n', b'0\r\n\r\n', b'\r\n0\r\n\r\n', b'\r\n\r\n', b''])
        pre = rng.choice([b'', b'', b'2\r\nhi\r\n'])
        if rng.random() < .5:
            cases.append({'i': head + pre + x + end + b'GET / HTTP/1.1\r\n\r\n', 'o': None})
        else:
            cases.append({'i': None, 'o': rhead + pre + x + end + b'HTTP/1.1 200 OK\r\n\r\n'})
    # chunk sizes as such
    for size in [b'0', b'00000000', b'3', b'03', b'3 ', b'3\t', b' 3', b'0x3', b'+3', b'-3', b'3_0', b'', b';', b'3;', b'3 ;x=y', b'g',
                 b'3\x0b', b'3\r', b'3h', b'40000000', b'3fffffff', b'40000001', b'FFFFFFFFFFFFFFFFFF', b'\xb3', b'3\xa0', b'3;\r',
                 b'0' * 300 + b'3', b'3;' + b'x' * 300, b'3.0', b'3\x85', b'80000000', b'ffffffff', b'100000000', b'7fffffff',
                 b'3ffffff9', b'3ffffffa', b'3ffffffb', b'3ffffffc', b'3ffffffe']:
        for e in (b'\r\n', b'\n'):
            for prev in (b'', b'5\r\nhello\r\n', b'5\r\nhello\r\n2\r\nhi\r\n'):
                b = prev + size + e + b'abc\r\n0\r\n\r\n'
                cases.append({'i': head + b, 'o': None})
                cases.append({'i': None, 'o': rhead + b + b'HTTP/1.1 204 X\r\n\r\n'})
    # codings
    kinds = ['gzchunked', 'gz2chunked', 'defchunked', 'defgzchunked', 'gzdefchunked', 'badgzchunked', 'chunkedchunked',
             'foochunked', 'chunkedfoo', 'gzip', 'identity', 'tebad', 'te2', 'tebad2', 'te2bad', 'chunkedtrl', 'chunked']
    g = gen(chk, methods=['POST', 'HEAD'], reqf=kinds, statuses=[200, 304], respf=kinds, tails=['', 'qr'])
    r = Renderer(rng)
    for x in g:
        for _ in range(chk.scale(1, 6)):
            cases.append(r.connection(x))
    te_words = [b'gzip', b'x-gzip', b'deflate', b'chunked', b'compress', b'br', b'foo', b'identity', b'gzip;a=b', b'chunked;a',
                b'GZip', b'', b'"q"', b'foo;a="b,chunked"', b'x-deflate']
    for _ in range(chk.scale(1200, 12000)):
        n = rng.randint(1, 4)
        words = [rng.choice(te_words) for _ in range(n)]
        if rng.random() < .6:
            words.append(b'chunked')
        hdr = b''
        while words:
            k = rng.randint(1, len(words))
            hdr += b'Transfer-Encoding: ' + rng.choice([b',', b', ', b' ,\t', b',,']).join(words[:k]) + b'\r\n'
            words = words[k:]
        d = rng.choice([b'hello', gz(b'hello'), gz(gz(b'hello')), zlib.compress(b'hello'), gz(zlib.compress(b'hello')),
                        zlib.compress(gz(b'hello')), b''])
        body = r.chunked(d)
        if rng.random() < .5:
            cases.append({'i': b'POST / HTTP/1.1\r\n' + hdr + b'\r\n' + body + b'GET / HTTP/1.1\r\n\r\n', 'o': None, 'codec': True})
        else:
            cases.append({'i': None, 'o': b'HTTP/1.1 200 OK\r\n' + hdr + b'\r\n' + rng.choice([body, d]), 'codec': True})
    # damage
    for _ in range(chk.scale(1500, 20000)):
        b = mutate_bytes(rng, r.chunked(rng.choice([b'hello world', b'x' * 40, b'a\r\nb'])))
        cases.append({'i': head + b + b'GET / HTTP/1.1\r\n\r\n', 'o': None})
    chk.sample(framing.show(cases[100]))
    return cases


def run(chk):
    framing.run_cases(chk, cases_of(chk), CLAUSES)
