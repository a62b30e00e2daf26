"""Rendering the abstract messages of FramingEnv as octets, with lexical variation."""
import zlib

from framing import PAYLOADS, gz


class Renderer:
    def __init__(self, rng, plain=False):
        self.rng = rng
        self.plain = plain

    def coin(self, p):
        return (not self.plain) and self.rng.random() < p

    def eol(self):
        return b'\n' if self.coin(0.03) else b'\r\n'

    def case(self, s):
        if self.coin(0.2):
            return bytes(s.lower() if self.rng.random() < .5 else s.upper())
        return s

    def field(self, name, value):
        name = self.case(name)
        pre = self.rng.choice([b' ', b' ', b' ', b'', b'\t', b'   ']) if not self.plain else b' '
        post = b' ' if self.coin(0.1) else b''
        fold = b''
        if self.coin(0.03):
            fold = self.eol() + self.rng.choice([b' ', b'\t']) + b' '
        return name + b':' + fold + pre + value + post + self.eol()

    def filler(self):
        r = b''
        while self.coin(0.3):
            r += self.field(self.rng.choice([b'X-Foo', b'Host', b'Date', b'Server', b'Content-Type', b'X']),
                            self.rng.choice([b'', b'bar', b'a, b', b'Content-Length: 5', b'"x:y"', b'\xe9\xff', b'a:b:c']))
        return r

    def chunked(self, data, trailers=None, pieces=None):
        out = b''
        if pieces is None:
            pieces, d = [], data
            while d:
                n = self.rng.randint(1, len(d)) if not self.plain else len(d)
                pieces.append(d[:n])
                d = d[n:]
        for p in pieces:
            size = b'%x' % len(p)
            if self.coin(0.3):
                size = size.upper()
            if self.coin(0.2):
                size = b'0' * self.rng.randint(1, 9) + size
            ext = self.rng.choice([b';a=b', b';a="b;c"', b' ;x', b' ', b'\t ', b';']) if self.coin(0.2) else b''
            out += size + ext + self.eol() + p + self.eol()
        out += self.rng.choice([b'0', b'0', b'00', b'0;x=y']) if not self.plain else b'0'
        out += self.eol()
        if trailers is None:
            trailers = self.filler() if self.coin(0.2) else b''
        return out + trailers + self.eol()

    def framed(self, f):
        """(header lines, body octets) for a framing kind."""
        d = self.rng.choice(PAYLOADS[:1] if self.plain else PAYLOADS)
        cl, te = b'Content-Length', b'Transfer-Encoding'
        H = self.field
        n = b'%d' % len(d)
        if f == 'none':
            return b'', b''
        if f == 'close':
            return b'', d
        if f == 'cl':
            return H(cl, n), d
        if f == 'cl0':
            return H(cl, b'0'), b''
        if f == 'clbad':
            return H(cl, self.rng.choice([b'abc', b'-1', b'+5', b'5,5', b'', b'0x5', b'5 5', b'5.0', b'1_0', b'\xb2'])), d
        if f == 'clhuge':
            return H(cl, self.rng.choice([b'1073741825', b'99999999999999999999', b'2147483648'])), d
        if f == 'cllong':
            return H(cl, b'%d' % (len(d) + self.rng.randint(1, 2000))), d
        if f == 'clzero':
            return H(cl, b'000' + n), d
        if f == 'cl2':
            return H(cl, b'1') + H(cl, n), d
        if f == 'cl2bad':
            return H(cl, n) + H(cl, b'x'), d
        if f == 'clbad2':
            return H(cl, b'x') + H(cl, n), d
        if f == 'chunked':
            return H(te, self.case(b'chunked')), self.chunked(d)
        if f == 'chunkedtrl':
            return H(te, b'chunked'), self.chunked(d, trailers=H(b'X-T', b'1') + (H(b'X-U', b'') if self.coin(.5) else b''))
        if f == 'techcl':
            return H(te, b'chunked') + H(cl, b'3'), self.chunked(d)
        if f == 'clte':
            return H(cl, b'3') + H(te, b'chunked'), self.chunked(d)
        if f == 'gzchunked':
            return H(te, self.rng.choice([b'gzip, chunked', b'x-gzip,chunked', b'GZIP ,, Chunked'])), self.chunked(gz(d))
        if f == 'gz2chunked':
            return (H(te, b'gzip') + H(te, b'gzip,chunked')), self.chunked(gz(gz(d)))
        if f == 'defchunked':
            return H(te, b'deflate, chunked'), self.chunked(zlib.compress(d))
        if f == 'defgzchunked':
            return H(te, b'deflate, gzip, chunked'), self.chunked(gz(zlib.compress(d)))
        if f == 'gzdefchunked':
            return H(te, b'gzip, deflate, chunked'), self.chunked(zlib.compress(gz(d)))
        if f == 'badgzchunked':
            return H(te, b'gzip, chunked'), self.chunked(b'notgzip')
        if f == 'chunkedchunked':
            return H(te, b'chunked, chunked'), self.chunked(d)
        if f == 'foochunked':
            return H(te, self.rng.choice([b'foo, chunked', b'compress, chunked', b'gzip;q=1, chunked', b'foo;a="b,c", chunked'])), self.chunked(d)
        if f == 'chunkedfoo':
            return H(te, self.rng.choice([b'chunked, foo', b'chunked;a=b', b'chunked, chunkedx'])), self.chunked(d)
        if f == 'gzip':
            return H(te, b'gzip'), gz(d)
        if f == 'identity':
            return H(te, b'identity'), d
        if f == 'tebad':
            return H(te, self.rng.choice([b'', b',', b'chunked foo', b'chunked,;', b'"chunked"', b'gzip, chunked;=', b'(x)'])), self.chunked(d)
        if f == 'te2':
            return H(te, b'gzip') + H(b'X-Y', b'z') + H(te, b'chunked'), self.chunked(gz(d))
        if f == 'tebad2':
            return H(te, b'@@') + H(te, b'chunked'), self.chunked(d)
        if f == 'te2bad':
            return H(te, b'chunked') + H(te, b'@'), self.chunked(d)
        raise KeyError(f)

    def target(self):
        if self.plain:
            return b'/'
        return self.rng.choice([b'/', b'/a?b', b'*', b'http://x/', b'x:80', b'', b'\xe9'])

    def request(self, kind):
        meth, f = kind
        if f == 'garbage':
            return self.rng.choice([b'GET /\r\n\r\n', b'GET / HTTP/11\r\n\r\n', b'GET  / HTTP/1.1\r\n\r\n', b'\r\n\r\n',
                                    b'GET / HTTP/1.1\r\nfoo\r\n\r\n', b'GET / http/1.1\r\n\r\n', b'GET / HTTP/1.1 \r\n\r\n',
                                    b'GET / HTTP/1.1', b'GET / HTTP/1.1\r\nA: b', b'\x16\x03\x01\x00'])
        h, b = self.framed(f)
        ver = self.rng.choice([b'HTTP/1.1', b'HTTP/1.1', b'HTTP/1.0', b'HTTP/2.0']) if not self.plain else b'HTTP/1.1'
        return (meth.encode() + b' ' + self.target() + b' ' + ver + self.eol() + self.filler() + h + self.filler() +
                self.eol() + b)

    def response(self, kind):
        status, f = kind
        if f == 'garbage':
            return self.rng.choice([b'HTTP/1.1 200\r\n\r\n', b'HTTP/1.1  200 OK\r\n\r\n', b'HTTP/1.1 2000 OK\r\n\r\n', b'\r\n',
                                    b'HTTP/1.1 200 OK\r\nfoo\r\n\r\n', b'HTTP/1.1 OK 200\r\n\r\n', b'HTTP/1.1 200 OK',
                                    b'HTTP/1.1 200 OK\r\nA: b', b'<html>', b'http/1.1 200 OK\r\n\r\n', b'HTTP/1.1 \xb2\xb9\xb2 OK\r\n\r\n'])
        h, b = self.framed(f)
        ver = self.rng.choice([b'HTTP/1.1', b'HTTP/1.1', b'HTTP/1.0']) if not self.plain else b'HTTP/1.1'
        reason = self.rng.choice([b'OK', b'', b'Not  Found', b'\xe9', b' x ']) if not self.plain else b'OK'
        return (ver + b' %03d ' % status + reason + self.eol() + self.filler() + h + self.filler() + self.eol() + b)

    def tail(self, t):
        """(inbound extra, outbound extra)"""
        if t == 'q':
            return b'GET /tail HTTP/1.1\r\n\r\n', b''
        if t == 'r':
            return b'', b'HTTP/1.1 404 Tail\r\nContent-Length: 0\r\n\r\n'
        if t == 'g':
            return b'', b'garbage'
        if t == 'gq':
            return b'\x00garbage\r\n', b''
        if t == 'qr':
            return b'GET /tail HTTP/1.1\r\n\r\n', b'HTTP/1.1 404 Tail\r\nContent-Length: 0\r\n\r\n'
        return b'', b''

    def connection(self, g, fmt='streams'):
        i = b''.join(self.request(k) for k in g['q'])
        o = b''.join(self.response(k) for k in g['r'])
        a, b = self.tail(g['t'])
        return {'i': i + a, 'o': o + b, 'fmt': fmt, 'codec': True}
