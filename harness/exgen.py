"""Abstract exchanges (the format of spec/Rules.tla) and their rendering.

`render(ex, rng)` turns the abstract value of every header into text, choosing
freely among the spellings that mean the same; `Gen` invents abstract exchanges.
"""
import base64
import time

TCHAR = "!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


# ---------------------------------------------------------------- rendering

class Render:
    def __init__(self, rng, wild=True):
        self.rng, self.wild = rng, wild
        self.now = int(time.time())

    def pick(self, *xs):
        return self.rng.choice(xs)

    def p(self, prob):
        return self.wild and self.rng.random() < prob

    def case(self, s):
        if not self.p(.25):
            return s
        k = self.rng.randrange(4)
        if k == 0:
            return s.upper()
        if k == 1:
            return s.lower()
        if k == 2:
            return s.title()
        return ''.join(self.pick(c.upper(), c.lower()) for c in s)

    def ows(self):
        return self.pick('', '', '', ' ', '\t', '  ') if self.p(.3) else ''

    def osp(self):                  # usual: one space
        return self.pick('', ' ', '\t', '   ') if self.p(.3) else ' '

    def commas(self, xs, may_be_empty=False):
        out = []
        for x in xs:
            out.append(x)
            while self.p(.05):
                out.append('')
        if xs and self.p(.05):
            out.insert(0, '')
        r = ''
        for k, x in enumerate(out):
            if k:
                r += self.ows() + ',' + self.osp()
            r += x
        return r.strip(' \t')

    def quote(self, s, odd=True):
        r = '"'
        for c in s:
            if c in '"\\' or (odd and self.p(.05) and c.isprintable()):
                r += '\\' + c
            else:
                r += c
        return r + '"'

    def tq(self, s):
        """token or quoted-string"""
        if s and all(c in TCHAR for c in s) and not self.p(.3):
            return s
        return self.quote(s)

    def params(self, pairs, sep='='):
        r = ''
        for k, v in pairs:
            r += self.ows() + ';' + self.osp() + self.case(k) + sep + self.tq(v)
        return r

    def qval(self, q):
        """thousandths"""
        if q == 1000:
            return self.pick('1', '1.0', '1.000', '1.')
        s = '0.%03d' % q
        while s.endswith('0') and not self.p(.3):
            s = s[:-1]
        if q == 0 and self.p(.5):
            s = self.pick('0', '0.')
        return s

    def date(self, rel):
        t = self.now + rel
        g = time.gmtime(t)
        days = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
        full = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
        mon = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'][g.tm_mon - 1]
        hms = '%02d:%02d:%02d' % (g.tm_hour, g.tm_min, g.tm_sec)
        k = self.rng.random()
        if self.wild and k < .12:
            return '%s %s %2d %s %d' % (days[g.tm_wday], mon, g.tm_mday, hms, g.tm_year)
        if self.wild and k < .3 and g.tm_year < 2000:
            return '%s, %02d-%s-%02d %s GMT' % (full[g.tm_wday], g.tm_mday, mon, g.tm_year % 100, hms)
        return '%s, %02d %s %d %s GMT' % (days[g.tm_wday], g.tm_mday, mon, g.tm_year, hms)

    def num(self, n):
        return ('0' * self.rng.randint(1, 3) if self.p(.05) else '') + str(n)

    # -- one method per shape --

    def bad_date(self):
        return self.pick('yesterday', '0', '', 'Mon, 30 Feb 2016 10:00:00 GMT', 'Fri, 01 Jan 2016 25:00:00 GMT',
                         'Fri, 1 Jan 2016 10:00:00 GMT', 'Fri, 01 Jan 2016 10:00:00 +0000', 'fri, 01 Jan 2016 10:00:00 GMT',
                         '2016-01-01T10:00:00Z', 'Fri, 01 Jan 2016 10:00:00', 'Fri 01 Jan 2016 10:00:00 GMT')

    def uri(self, u):
        r = ''
        if u['s'] != '-':
            r += u['s'] + ':'
        if u['a'] != '-':
            r += '//' + u['a']
        r += ('/' if u['p']['abs'] else '') + '/'.join(u['p']['segs'])
        if u['q'] != '-':
            r += '?' + u['q']
        if u['f'] != '-':
            r += '#' + u['f']
        return r

    def etag(self, t):
        return ('W/' if t['w'] else '') + '"' + t['t'] + '"'

    def cc(self, d):
        r = self.case(d['d'])
        if d['k'] == 'none':
            return r
        raw = d['raw']
        if d['k'] == 'names':
            names = [self.case(x) for x in raw.split(',') if x]
            if len(names) == 1 and self.p(.5):
                return r + '=' + names[0]
            return r + '=' + self.quote(self.commas(names), odd=False)
        if d['k'] == 'num':
            raw = self.num(d['num'])
        return r + '=' + self.tq(raw)

    def auth_params(self, ps):
        out = []
        for x in ps:
            eq = self.pick(' = ', '= ', '\t=') if self.p(.1) else '='
            tok = x['v'] and all(c in TCHAR for c in x['v'])
            if x.get('qd', True) or not tok:
                out.append(self.case(x['n']) + eq + self.quote(x['v']))
            else:
                out.append(self.case(x['n']) + eq + x['v'])
        return self.commas(out)

    def token68(self):
        return self.pick('abc', 'abc=', 'abcd==', 'a-b._~+/c', 'QUJD', 'x')

    def cred(self, v):
        s = self.case(v['scheme'])
        sp = self.pick(' ', '  ') if self.p(.1) else ' '
        if v['k'] == 'none':
            return s
        if v['k'] == 'params':
            return s + sp + self.auth_params(v['p'])
        if v['scheme'] != 'basic':
            return s + sp + self.token68()
        if not v['b64']:
            return s + sp + self.pick('abcde', 'A', 'AAAAA', 'QUJDR')
        b = 'user' + (':pass' if v['colon'] else '')
        for c in v['ctl']:
            b = b[:2] + chr(int(c, 16)) + b[2:]
            if self.p(.2):
                b += chr(int(c, 16))
        return s + sp + base64.b64encode(b.encode('iso-8859-1')).decode()

    def item(self, n, x):
        """One element of a list header."""
        if n in ('connection', 'trailer', 'vary'):
            return self.case(x)
        if n == 'allow':
            return x
        if n == 'transfer-encoding':
            r = self.case(x['i'])
            if x['i'] not in ('chunked', 'compress', 'deflate', 'gzip') and self.p(.2):
                r += self.params([('a', 'b')])
            return r
        if n in ('te', 'accept', 'accept-charset', 'accept-encoding', 'accept-language'):
            r = self.case(x['i'])
            if n == 'accept' and self.p(.1) and not x['wild']:
                r += self.params([('level', '1')])
            if x['hasq']:
                r += self.ows() + ';' + self.ows() + self.case('q') + '=' + self.qval(x['q'])
                if n == 'accept' and self.p(.1):
                    r += self.ows() + ';' + self.ows() + self.pick('ext', 'ext=1', 'ext="x y"')
            return r
        if n == 'upgrade':
            return x['i'] + ('/' + x['v'] if x['v'] else '')
        if n in ('accept-patch', 'accept-post'):
            return self.case(x['i']) + (self.params([('charset', 'utf-8')]) if self.p(.2) else '')
        if n == 'content-encoding':
            return self.case(x['i'])
        if n == 'pragma':
            return self.case(x['i']) if x['i'] == 'no-cache' else x['i'] + (self.pick('=a', '="b c"') if self.p(.3) else '')
        if n == 'cache-control':
            return self.cc(x)
        if n == 'warning':
            r = '%03d %s "%s"' % (x['c'], self.pick('-', 'example.com:80', 'foo', '10.0.0.1'), self.pick('x', '', 'a b', 'a; b'))
            if x['dok']:
                r += ' "%s"' % self.date(x['date'])
            elif self.p(.2):
                r += ' "Mon, 30 Feb 2016 10:00:00 GMT"'
            return r
        if n in ('if-match', 'if-none-match'):
            return self.etag(x)
        if n == 'prefer':
            r = self.case(x['n'])
            if x['v']:
                r += '=' + self.tq(self.case(x['v']) if x['v'] in ('minimal', 'representation', 'strict', 'lenient') else x['v'])
            elif self.p(.1):
                r += '=""'
            if self.p(.15):
                r += self.pick(';', '; foo', '; foo="bar"', ';a=b;c')
            return r
        if n == 'preference-applied':
            r = self.case(x['n'])
            if x['v']:
                r += '=' + self.tq(x['v'])
            return r
        if n in ('www-authenticate', 'proxy-authenticate'):
            s = self.case(x['scheme'])
            if x['k'] == 'none':
                return s
            if x['k'] == 't68':
                return s + ' ' + self.token68()
            return s + ' ' + ', '.join(self.auth_params([y]) for y in x['p'])
        if n == 'link':
            r = '<' + self.pick('http://example.com/law', '/x', '') + '>'
            if x['relok']:
                r += self.ows() + ';' + self.ows() + self.case('rel') + '=' + \
                    (x['rel'][0] if len(x['rel']) == 1 and all(c in TCHAR for c in x['rel'][0]) and self.p(.5)
                     else '"' + ' '.join(x['rel']) + '"')
            else:
                r += self.pick('', '; rel=Blocked-By', '; rel=""', '; rel', '; rel="1x blocked-by"')
            if self.p(.2):
                r += '; title="x"'
            return r
        raise KeyError(n)

    LISTS = {'connection', 'trailer', 'vary', 'allow', 'transfer-encoding', 'te', 'accept', 'accept-charset',
             'accept-encoding', 'accept-language', 'upgrade', 'accept-patch', 'accept-post', 'content-encoding', 'pragma',
             'cache-control', 'warning', 'if-match', 'if-none-match', 'prefer', 'preference-applied',
             'www-authenticate', 'proxy-authenticate', 'link'}
    DATES = {'date', 'expires', 'last-modified', 'if-modified-since', 'if-unmodified-since'}
    BAD = {
        'connection': ['', 'a b', '"close"', 'close;x', '@', 'close, a b', 'x=y'],
        'trailer': ['', 'a b', '"x"', 'foo:bar', 'x, (y)'],
        'vary': ['', '*, foo', 'a b', '"x"', 'foo;bar'],
        'allow': ['G T', 'GET POST', '"GET"', 'GET;POST', '@'],
        'transfer-encoding': ['', 'a b', 'foo;', 'chunked;x=y', '"chunked"', 'gzip;q=1'],
        'te': ['trailers;', 'a b', 'gzip;q=2', 'gzip;q=0.0001', '"x"', 'deflate;q'],
        'accept': ['text', 'text/html;q=2', 'text/', '/html', '*', 'text/html text/plain', '*/html/x', 'text/html;q=1.001'],
        'accept-charset': ['', 'utf-8;q=', 'a b', 'utf-8;q=1.1', '"x"'],
        'accept-encoding': ['gzip;', 'gzip;q=5', 'gzip deflate', '"gzip"', 'gzip;q=0.1234'],
        'accept-language': ['', 'en_US', 'en-', 'en;q=1.5', 'abcdefghi', '1a', 'en ru'],
        'upgrade': ['', 'a b', 'h2c/', '/1', 'a/b/c', '"h2c"'],
        'accept-patch': ['', 'text', 'text/plain;', 'text/*x y', '@/x'],
        'accept-post': ['text', 'text/plain;', '@/x', 'a/b c'],
        'content-encoding': ['', 'g zip', '"gzip"', 'gzip;q=1', '@'],
        'pragma': ['', 'no-cache=', 'no cache', '"no-cache"', 'no-cache=x', 'a=b c'],
        'cache-control': ['', 'max-age = 5', 'no cache', '"x"', 'private="', 'max-age=', '=5', 'a=b=c', 'max-age: 5'],
        'warning': ['', '214', '214 foo', '214 foo bar', '21 foo "x"', '2140 foo "x"', '214 foo "x" yesterday', '214  foo "x"',
                    '214 foo "x" "yesterday"', 'abc foo "x"'],
        'if-match': ['', 'abc', '"a" "b"', 'w/"x"', '*, "x"', '"a', "'a'", '"a b"'],
        'if-none-match': ['', 'abc', '"a" "b"', 'w/"x"', '*, "x"', '"a', "'a'", '"a b"'],
        'etag': ['', 'abc', 'w/"x"', '"a", "b"', '"a', '*', 'W/abc', '"a b"', '"a"b"'],
        'if-range': ['', 'abc', '*', 'w/"x"', '"a", "b"', 'yesterday'],
        'range': ['', 'bytes', 'bytes=', 'bytes=a-b', 'bytes=-', 'bytes 0-1', 'bytes=0-1;', 'pages=', 'bytes=1', 'bytes=0-1,x'],
        'prefer': ['', 'a b', '=x', 'return=', 'a=b=c', '"x"', 'wait=5 respond-async'],
        'preference-applied': ['', 'a b', '=x', 'return=', 'return=minimal; foo=bar', '"x"'],
        'authorization': ['', 'Basic "x"', '=', 'Basic a b', 'Basic realm="', 'Bearer x=y z', '@'],
        'www-authenticate': ['', '"Basic"', 'Basic =x', '@', 'Basic realm="x'],
        'link': ['foo', '<', '<foo', 'foo; rel=x', '<a b>', '<x>; =y', '<x> rel=blocked-by'],
        'content-type': ['', 'text', 'text/', '/html', 'text/html;', 'text/html; charset', 'text/html; charset = utf-8',
                         'text/html, text/plain', 'text html', 'application/json; charset=', '@/x'],
        'age': ['', '-1', '1.5', 'abc', '1 2', '0x10', '1,2', '+5'],
        'content-length': ['', '-1', '1.5', 'abc', '1 2', '5,5', '0x10', '+5'],
        'max-forwards': ['', '-1', 'abc', '1.5'],
        'host': ['a b', 'exa<mple', '[::1', 'http://x/', 'x:y', 'x/y', 'a@b', '[1:2]'],
        'expect': ['', '100', 'continue', '100-continue, x', '200-ok', '100 continue'],
        'referer': ['a b', 'http://[::1', '<x>', 'http://x/ y', 'http://x/%zz', '/x#f', 'a:b#f', '\xe9', '/a"b'],
        'user-agent': ['', '(x)', '/1', 'foo/', 'foo (', 'a  /b', 'foo@1', 'foo (a', 'a;b', 'foo, bar'],
        'http2-settings': ['', 'a b', '=', 'a=b', '"x"', 'a,b', 'a:b'],
        'location': ['a b', 'http://[::1', '<x>', '%zz', '\xe9', 'http://x/"', '/a\\b', 'http://h:80a/'],
        'content-location': ['a b', 'http://[::1', '<x>', '%zz', '/x#frag', '\xe9'],
        'strict-transport-security': ['max-age=', 'max-age 5', '=5', '"max-age"', 'max-age=5, preload', 'max-age=5;=', 'a b'],
    }
    BAD['proxy-authorization'] = BAD['authorization']
    BAD['proxy-authenticate'] = BAD['www-authenticate']
    #: headers of which only the presence matters (or whether they are well-formed)
    GENERIC = {
        'via': ['1.1 proxy', 'HTTP/1.1 foo.example:80 (x)', '2 p, 1.1 q'],
        'content-range': ['bytes 0-9/100', 'bytes */50', 'bytes 0-0/*'],
        'retry-after': ['120', '0'],
        'alt-svc': ['h2=":443"', 'clear', 'h2="alt.example:443"; ma=60'],
        'accept-ranges': ['bytes', 'none'],
        'content-language': ['en', 'de-CH, fr'],
        'server': ['foo/1.0', 'Apache'],
        'set-cookie': ['a=b', 'x'],
        'if': ['(["x"])', 'zzz'],
        'if-schedule-tag-match': ['"x"'],
        'overwrite': ['T'],
        'from': ['me@example.com'],
        'forwarded': ['for=192.0.2.43', 'for=unknown;proto=http'],
        'origin': ['http://example.com', 'null'],
        'alt-used': ['alt.example.com:443'],
        'content-disposition': ['attachment', 'inline; filename=x'],
        'keep-alive': ['timeout=5', ''],
        'proxy-connection': ['close'],
        'content-md5': ['abc'],
        'cookie': ['a=b'],
        'cookie2': ['$Version="1"'],
        'set-cookie2': ['x'],
        'content-base': ['x'],
        'referer-root': ['x'],
        'access-control-allow-origin': ['*', 'null'],
        'access-control-request-method': ['GET'],
        'x-foo': ['bar', ''],
        'x-powered-by': ['PHP/7'],
        'x-content-type-options': ['nosniff'],
        'x-forwarded-for': ['10.0.0.1'],
        'x-unknown-thing': ['1'],
        'foo': ['bar', '', 'x, y'],
        'bar-baz': ['1'],
        'http2-settings2': ['1'],
    }
    CANON = {'te': 'TE', 'etag': 'ETag', 'http2-settings': 'HTTP2-Settings', 'www-authenticate': 'WWW-Authenticate',
             'content-md5': 'Content-MD5'}

    def value(self, e):
        n = e['n']
        if n in self.GENERIC or not e.get('nok', True) or n not in self.KNOWN:
            if not e['ok'] and n in self.BAD:
                return self.pick(*self.BAD[n])
            return self.pick(*self.GENERIC.get(n, ['x', '', 'a, b']))
        if e['star']:
            return '*'
        if not e['ok']:
            if n in self.DATES:
                return self.bad_date()
            return self.pick(*self.BAD[n])
        v = e['v']
        if n in self.LISTS:
            return self.commas([self.item(n, x) for x in v])
        if n in self.DATES:
            return self.date(v)
        if n in ('age', 'content-length', 'max-forwards'):
            return self.num(v)
        if n == 'content-type':
            r = self.case(v['i'])
            for k in v['p']:
                r += self.ows() + ';' + self.osp() + self.case(k) + '='
                # a boundary with needless escapes is a known finding (C30): the email package does not unescape it
                r += self.pick('BND', '"BND"') if k == 'boundary' else self.tq({'charset': 'utf-8'}.get(k, 'x1'))
            return r
        if n == 'etag':
            return self.etag(v)
        if n == 'if-range':
            return self.etag(v) if v['tag'] else self.date(-5000)
        if n == 'range':
            if v['unit'] != 'bytes':
                return self.case(v['unit']) + '=' + self.pick('1', '1-2,x', 'a')
            return self.case('bytes') + '=' + self.commas(['%s' % self.pick('0-9', '5-', '-5', '7-7') for _ in range(v['n'])])
        if n == 'user-agent':
            r = ''
            for k, x in enumerate(v):
                r += (' ' if k else '')
                if x['k'] == 'p':
                    r += x['i'] + self.pick('', '/1.0', '/2')
                else:
                    r += '(' + self.pick('', 'x', 'a (b) c', 'X11; Linux') + ')'
            return r
        if n in ('authorization', 'proxy-authorization'):
            return self.cred(v)
        if n == 'http2-settings':
            return self.pick('AAMAAABk', 'a-b_c', 'x') if v['safe'] else self.pick('AAMAAABk=', 'a+b', 'a/b', 'a.b', 'a~')
        if n in ('location', 'content-location'):
            return self.uri(v)
        if n == 'referer':
            s = v['s']
            if s == '-':
                return self.pick('/x', 'x/y', '//example.com/')
            return self.case(s) + '://example.com/' + self.pick('', 'x?y')
        if n == 'strict-transport-security':
            out = []
            for d in v:
                if d['d'] == 'max-age':
                    if d['num'] < 0:
                        out.append(self.case('max-age') + self.pick('', '=x', '=""'))
                    else:
                        eq = self.pick(' = ', '=', '= ') if self.p(.1) else '='
                        out.append(self.case('max-age') + eq + (self.num(d['num']) if self.p(.8) else '"%d"' % d['num']))
                else:
                    out.append(self.case(d['d']) + (self.pick('=1', '=x') if self.p(.05) else ''))
            sep = self.ows() + ';' + self.osp()
            r = sep.join(out)
            if self.p(.1):
                r += ';'
            return r
        if n == 'expect':
            return self.case('100-continue')
        if n == 'host':
            return v
        raise KeyError(n)

    KNOWN = LISTS | DATES | {'age', 'content-length', 'max-forwards', 'content-type', 'etag', 'if-range', 'range', 'user-agent',
                             'authorization', 'proxy-authorization', 'http2-settings', 'location', 'content-location', 'referer',
                             'strict-transport-security', 'expect', 'host'}

    def name(self, n):
        if not n.isascii():
            return n
        c = self.CANON.get(n) or '-'.join(w.capitalize() for w in n.split('-'))
        if self.p(.15):
            return self.pick(n.lower(), n.upper(), ''.join(self.pick(x.upper(), x.lower()) for x in n))
        return c

    def render(self, ex):
        """Fill in 'raw' (the value) and 'name' of every header; in place."""
        for m in messages(ex):
            for e in m['hdrs']:
                if 'name' not in e:
                    e['name'] = self.name(e['n'])
                if not e.get('raw'):
                    e['raw'] = self.value(e).strip(' \t')
        return ex

    def body(self, m):
        b = m['body']
        if b['st'] == 'unknown':
            return None
        if b['st'] == 'empty':
            return b''
        if b['st'] == 'unavail':
            from httpolice.structure import Unavailable
            return Unavailable()
        if b['kind'] == 'form':
            out = []
            for x in b['pairs']:
                k = ''.join('%%%02X' % ord(c) if self.p(.05) else c for c in x['k'])
                out.append(k + '=' + x['v'])
            return '&'.join(out).encode() or b'='
        if b['kind'] == 'parts':
            r = b'' if self.p(.5) else b'preamble\r\n'
            for x in b['parts']:
                r += b'--BND\r\n'
                if x['ct']:
                    r += self.case('Content-Type').encode() + b': text/plain\r\n'
                if x['cr']:
                    r += self.case('Content-Range').encode() + b': bytes 0-1/10\r\n'
                r += b'\r\nab\r\n'
            return r + b'--BND--\r\n'
        return self.pick(b'hello world', b'<x /', b'{}', b'\x00\xff\xfe', b'"', b'a b')

    def target(self, r):
        return r['tgt']['text']


def messages(ex):
    if 'none' not in ex['req']:
        yield ex['req']
    yield from ex['resps']


# --------------------------------------------------------------- generation

NOURI = {'s': '-', 'a': '-', 'p': {'abs': False, 'segs': []}, 'q': '-', 'f': '-'}


def U(s='-', a='-', p='', q='-', f='-'):
    ab = p.startswith('/')
    if ab:
        p = p[1:]
    return {'s': s, 'a': a, 'p': {'abs': ab, 'segs': p.split('/') if p or ab else []}, 'q': q, 'f': f}


def tgt(text, o=False, ab=False, au=False, st=False, u=None, qp=()):
    return {'text': text, 'o': o, 'ab': ab, 'au': au, 'st': st, 'u': u or NOURI, 'qp': list(qp)}


TOKEN_QUERIES = [('access_token=abc', [('access_token', 'abc')]),
                 ('a=b&access_token=x', [('a', 'b'), ('access_token', 'x')]),
                 ('access%5Ftoken=x', [('access_token', 'x')]),
                 ('access_token=', [('access_token', '')]),
                 ('access_token', [('access_token', '')]),
                 ('Access_Token=x', [('Access_Token', 'x')]),
                 ('access_token=&access_token=y', [('access_token', ''), ('access_token', 'y')]),
                 ('access_tokens=x', [('access_tokens', 'x')]),
                 ('q=access_token=z', [('q', 'access_token=z')])]
PLAIN_QUERIES = [('x', [('x', '')]), ('a=b', [('a', 'b')]), ('a=1&b=2', [('a', '1'), ('b', '2')])]
HOSTS = ['example.com', 'example.com:8080', 'www.example.org', '10.0.0.1', '[::1]:80', 'EXAMPLE.com']
PATHS = ['/', '/a', '/a/b', '/a/b/c', '/a/', '/x/y']


def header(n, v='', ok=True, star=False, t=False, **kw):
    e = {'n': n, 't': t, 'nok': True, 'x': n.startswith('x-'), 'raw': '', 'ok': ok, 'star': star, 'v': v}
    e.update(kw)
    return e


class Gen:
    """Random abstract exchanges."""

    def __init__(self, rng, bad=.12, few=4):
        self.rng, self.bad, self.few = rng, bad, few
        self.req = None

    def pick(self, *xs):
        return self.rng.choice(xs)

    def p(self, prob):
        return self.rng.random() < prob

    def some(self, xs, lo=0, hi=3):
        return [self.rng.choice(xs) for _ in range(self.rng.randint(lo, hi))]

    # -- values --

    def v_names(self, xs, lo=1):
        return self.some(xs, lo, 3)

    def v_connection(self):
        return self.v_names(['close', 'close', 'upgrade', 'keep-alive', 'te', 'http2-settings', 'http2-settings', 'date', 'via', 'age',
                             'foo', 'cache-control', 'etag', 'upgrade', 'transfer-encoding', 'content-range', 'warning', 'x-foo'])

    def v_trailer(self):
        return self.v_names(['foo', 'x-foo', 'etag', 'date', 'bar-baz', 'content-md5', 'x-bar'])

    def v_vary(self):
        return self.v_names(['host', 'prefer', 'accept-encoding', 'cookie', 'foo', 'user-agent', 'accept'])

    def v_allow(self):
        return self.some(['GET', 'HEAD', 'POST', 'PUT', 'PATCH', 'OPTIONS', 'DELETE', 'TRACE', 'CONNECT', 'get', 'Patch', 'FOO', 'PROPFIND'], 0, 4)

    def v_transfer_encoding(self):
        return [{'i': x} for x in self.v_names(['gzip', 'deflate', 'compress', 'foo', 'identity']) [:self.rng.randint(0, 2)]
                + (['chunked'] if self.p(.6) else [self.pick('gzip', 'foo')])]

    def _q(self):
        return self.pick(1000, 1000, 500, 500, 0, 800, 1)

    def _acc(self, items):
        r = []
        for i in items:
            h = self.p(.4)
            r.append({'i': i, 'q': self._q() if h else 1000, 'hasq': h,
                      'wild': '*' if i in ('*', '*/*') else i if i.endswith('/*') else '',
                      'type': i.split('/')[0] if '/' in i else i})
        return r

    def v_te(self):
        r = self._acc(self.some(['trailers', 'trailers', 'gzip', 'deflate', 'foo', 'chunked'], 0, 2))
        for x in r:
            if x['i'] in ('trailers',):
                x['hasq'], x['q'] = False, 1000
        return r

    def v_accept(self):
        return self._acc(self.some(['text/html', 'text/plain', 'text/*', '*/*', 'application/json', 'application/*', 'image/png', 'text/html'], 0, 4))

    def v_accept_charset(self):
        return self._acc(self.some(['utf-8', '*', 'iso-8859-1', 'koi8-r'], 1, 3))

    def v_accept_encoding(self):
        return self._acc(self.some(['gzip', 'x-gzip', 'x-compress', '*', 'identity', 'br', 'deflate'], 0, 4))

    def v_accept_language(self):
        return self._acc(self.some(['en', '*', 'en-us', 'de', 'fr-ch'], 1, 3))

    def v_upgrade(self):
        return self.rng.sample([{'i': 'h2c', 'v': ''}, {'i': 'h2', 'v': ''}, {'i': 'websocket', 'v': ''}, {'i': 'TLS', 'v': '1.0'},
                                {'i': 'TLS', 'v': '1.1'}, {'i': 'H2C', 'v': ''}, {'i': 'foo', 'v': '1'}, {'i': 'h2c', 'v': '1'},
                                {'i': 'h2', 'v': '2'}], self.rng.randint(1, 3))

    TYPES = ['text/html', 'text/plain', 'application/json', 'application/xml', 'text/xml', 'application/x-www-form-urlencoded',
             'application/json-patch+json', 'application/problem+json', 'text/javascript', 'application/javascript',
             'multipart/byteranges', 'multipart/form-data', 'image/png', 'application/foo+xml', 'application/merge-patch+json',
             'text/event-stream', 'message/news', 'application/font-woff', 'text/directory', 'foo/bar', 'application/smil']

    def v_accept_patch(self):
        return [{'i': x} for x in self.v_names(self.TYPES)]
    v_accept_post = v_accept_patch

    def v_content_encoding(self):
        return [{'i': x} for x in self.v_names(['gzip', 'deflate', 'br', 'foo', 'identity', 'x-gzip'])]

    def v_pragma(self):
        return [{'i': x} for x in self.v_names(['no-cache', 'no-cache', 'foo', 'xyz', 'No-Store'])]

    CC = ['max-age', 'max-age', 'max-age', 's-maxage', 'no-cache', 'no-cache', 'no-store', 'no-transform', 'private', 'public',
          'must-revalidate', 'proxy-revalidate', 'immutable', 'max-stale', 'min-fresh', 'only-if-cached', 'stale-if-error',
          'stale-while-revalidate', 'foo']

    def cc(self, d=None, arg=None):
        d = d or self.rng.choice(self.CC)
        x = {'d': d, 'k': 'none', 'num': 0, 'raw': '', 'empty': False}
        k = self.rng.random() if arg is None else arg
        if d in ('max-age', 's-maxage', 'min-fresh', 'stale-if-error', 'stale-while-revalidate', 'max-stale'):
            if k < .8:
                x['k'], x['num'] = 'num', self.pick(0, 1, 5, 50, 60, 60, 61, 3600, 86400, 1000000)
            elif k < .9:
                x['k'], x['raw'] = 'str', self.pick('abc', '1.5', '', '-1', '5 6')
        elif d in ('no-cache', 'private'):
            if k < .25:
                x['k'], x['raw'] = 'names', self.pick('foo', 'set-cookie', 'foo,bar', 'set-cookie,x')
            elif k < .33:
                x['k'], x['raw'], x['empty'] = 'names', '', True
            elif k < .4:
                x['k'], x['raw'] = 'str', self.pick('a b', '@', 'foo;bar')
        elif k < .08:
            x['k'], x['raw'] = 'str', self.pick('x', '', '1', 'a b')
        if x['k'] == 'num':
            x['raw'] = str(x['num'])
        return x

    def v_cache_control(self):
        return [self.cc() for _ in range(self.rng.randint(1, 4))]

    def v_warning(self):
        r = []
        for _ in range(self.rng.randint(1, 3)):
            dok = self.p(.3)
            r.append({'c': self.pick(110, 110, 111, 112, 113, 113, 199, 214, 214, 299, 100, 200, 99, 300, 0, 999, 150),
                      'dok': dok, 'date': self.rdate() if dok else 0})
        return r

    def rdate(self):
        # around the boundaries of 10 s (1109), 30 s (1241), and of lifetimes (1185)
        return self.pick(-100, -100, -1000, -5000, -5000, -100000, -1000000, 100, 5000, -2, -700000000, 0, 100000,
                         5, 30, -50, -49, -40, -160, -86400)

    def v_etag(self):
        return {'w': self.p(.35), 't': self.pick('a', 'a', 'b', '', 'a-gzip', 'A')}

    def v_if_match(self):
        return [self.v_etag() for _ in range(self.rng.randint(1, 3))]
    v_if_none_match = v_if_match

    def v_if_range(self):
        if self.p(.7):
            return dict(self.v_etag(), tag=True)
        return {'tag': False, 'w': False, 't': ''}

    def v_range(self):
        if self.p(.8):
            return {'unit': 'bytes', 'n': self.pick(1, 1, 2, 3)}
        return {'unit': self.pick('pages', 'byte'), 'n': 1}

    def v_user_agent(self):
        n = self.rng.randint(1, 3)
        libs = ['Java', 'python-requests', 'CPython', 'libcurl', 'Linux', 'hyper', 'okhttp']
        names = libs if self.p(.6) else ['foo', 'Mozilla', 'curl', 'java', 'Python-requests'] + libs
        return [{'k': 'p', 'i': self.pick(*names)} if k == 0 or self.p(.7) else {'k': 'c', 'i': ''} for k in range(n)]

    def v_referer(self):
        return {'s': self.pick('http', 'https', 'https', '-', 'ftp')}

    def v_prefer(self):
        r = []
        for _ in range(self.rng.randint(1, 3)):
            n = self.pick('respond-async', 'return', 'return', 'return', 'wait', 'handling', 'handling', 'foo', 'depth-noroot')
            v = {'return': ['minimal', 'representation', 'minimal', 'representation', 'none', ''], 'wait': ['10', '5', 'abc'],
                 'handling': ['strict', 'lenient', 'strict', 'lenient', 'x'], 'respond-async': ['', '', '', '1'],
                 'foo': ['', 'bar', 'Bar'], 'depth-noroot': ['']}[n]
            r.append({'n': n, 'v': self.rng.choice(v)})
        return r

    def v_preference_applied(self):
        r = self.v_prefer()
        if self.req is not None and self.p(.6):
            ps = [x for e in self.req['hdrs'] if e['n'] == 'prefer' and e['ok'] for x in e['v']]
            if ps:
                r[:1] = [dict(self.rng.choice(ps))]
        return r

    def v_authorization(self):
        s = self.pick('basic', 'basic', 'bearer', 'bearer', 'digest', 'foo')
        k = self.pick('t68', 't68', 't68', 'params', 'none')
        r = {'scheme': s, 'k': k, 'b64': True, 'colon': True, 'ctl': [], 'p': []}
        if k == 't68' and s == 'basic':
            r['b64'] = self.p(.8)
            if r['b64']:
                r['colon'] = self.p(.7)
                r['ctl'] = self.rng.sample(['00', '0a', '1f', '7f', '09'], self.pick(0, 0, 0, 1, 2, 3))
        if k == 'params':
            r['p'] = [self.aparam(self.pick('realm', 'realm', 'username', 'x', 'nonce')) for _ in range(self.rng.randint(1, 3))]
        return r
    v_proxy_authorization = v_authorization

    def aparam(self, n):
        v, ok = self.pick(('x', True), ('my realm', True), ('', True), ('a', True))
        if n == 'charset':
            v = self.pick('UTF-8', 'utf-8', 'iso-8859-1', 'utf8', 'Utf-8', '')
        elif n == 'scope':
            v, ok = self.pick(('read', True), ('read write', True), ('', False), ('a  b', False), ('a\\b', False), ('\xe9', False), ('a"b', False), (' a', False))
        elif n == 'error':
            v, ok = self.pick(('invalid_request', True), ('invalid_token', True), ('insufficient_scope', True), ('foo', True), ('', False),
                              ('invalid_token', True), ('a"b', False), ('Invalid_Token', True), ('a b', True))
        elif n == 'error_description':
            v, ok = self.pick(('oops', True), ('it went wrong', True), ('', False), ('na\xefve', False), ('a\\b', False), ('"', False))
        elif n == 'error_uri':
            v, ok = self.pick(('http://example.com/e', True), ('/e', True), ('', True), ('a b', False), ('<x>', False), ('http://x/%zz', False))
        return {'n': n, 'v': v, 'low': v.lower(), 'gok': ok, 'qd': self.p(.75) or not (v and all(c in TCHAR for c in v))}

    def challenge(self, bearer=None):
        s = self.pick('basic', 'basic', 'bearer', 'bearer', 'bearer', 'digest', 'foo')
        k = self.pick('params', 'params', 'params', 'params', 't68', 'none')
        r = {'scheme': s, 'k': k, 'p': []}
        if k == 'params':
            if s == 'basic':
                names = ['realm', 'realm', 'realm', 'charset', 'charset', 'foo', 'bar']
            elif s == 'bearer':
                names = ['realm', 'scope', 'error', 'error', 'error_description', 'error_uri', 'foo']
            else:
                names = ['realm', 'nonce', 'error', 'qop']
            r['p'] = [self.aparam(self.rng.choice(names)) for _ in range(self.rng.randint(1, 4))]
        return r

    def v_www_authenticate(self):
        return [self.challenge() for _ in range(self.pick(1, 1, 2))]
    v_proxy_authenticate = v_www_authenticate

    def v_http2_settings(self):
        return {'safe': self.p(.6)}

    def v_location(self):
        return self.ref(True)

    def v_content_location(self):
        return self.ref(False)

    def ref(self, frag):
        r = self.req
        q = self.pick('-', '-', '-', 'a=b', 'x')
        f = self.pick('-', '-', '-', 'frag') if frag else '-'
        t = r['tgt']['u'] if r is not None else NOURI
        hosts = [e['v'] for e in r['hdrs'] if e['n'] == 'host' and e['ok']] if r is not None else []
        host = hosts[0] if hosts and self.p(.8) else self.rng.choice(HOSTS)
        if t['a'] != '-' and self.p(.8):
            host = t['a']
        path = '/' + '/'.join(t['p']['segs']) if t['p']['abs'] and self.p(.7) else self.rng.choice(PATHS)
        if t is not NOURI and self.p(.6):
            q = t['q']
        k = self.rng.randrange(9)
        scheme = r['scheme'] if r is not None and r['scheme'] != '-' and self.p(.8) else self.pick('http', 'https')
        if k in (0, 1):
            return U(scheme, host, path, q, f)
        if k == 2:
            return U('-', host, path, q, f)
        if k in (3, 4):
            return U('-', '-', path, q, f)
        if k == 5:
            last = path.split('/')[-1]
            return U('-', '-', last if last else '.', q, f)
        if k == 6:
            return U('-', '-', '', q, f)
        if k == 7:
            segs = path.split('/')
            return U('-', '-', self.pick('./', '../' + '/'.join(x for x in segs[-2:] if x), '.', '..', './' + segs[-1], 'zz/../' + segs[-1], '../../..' + path if '//' not in path else '.'), q, f)
        return U(scheme, host, '', q, f)

    def v_link(self):
        r = []
        for _ in range(self.rng.randint(0, 2)):
            ok = self.p(.75)
            r.append({'relok': ok, 'rel': self.pick(['blocked-by'], ['blocked-by', 'next'], ['next'], ['http://x/blocked-by'],
                                                    ['prev', 'blocked-by'], ['blocked']) if ok else []})
        return r

    def v_strict_transport_security(self):
        return [{'d': d, 'num': self.pick(0, 0, 0, 31536000, 60, -1) if d == 'max-age' else -1}
                for d in self.some(['max-age', 'max-age', 'max-age', 'includesubdomains', 'includesubdomains', 'preload', 'foo'], 0, 4)]

    def v_host(self):
        return self.rng.choice(HOSTS)

    def v_content_type(self):
        i = self.rng.choice(self.TYPES) if self.p(.85) else 'application/x-www-form-urlencoded'
        ps = self.some(['charset', 'charset', 'x', 'y', 'x'], 0, 3) if self.p(.4) else []
        if i.startswith('multipart/'):
            ps.append('boundary')
        return {'i': i, 'p': ps}

    def v_age(self):
        return self.pick(0, 1, 50, 100, 5000, 90000, 86400, 1000000, 2000000000, 49, 51, 59, 60, 61, 120, 140, 86401, 3601, 3600, 60)

    def v_content_length(self):
        return self.pick(0, 5, 100)
    v_max_forwards = v_content_length

    def value(self, n):
        if n in Render.DATES:
            return self.rdate()
        f = getattr(self, 'v_' + n.replace('-', '_'), None)
        return f() if f else ''

    def hdr(self, n, **kw):
        if n in ('vary', 'if-match', 'if-none-match') and self.p(.15):
            return header(n, '', star=True, **kw)
        if n not in Render.KNOWN:
            return header(n, '', **kw)
        if self.p(self.bad):
            return header(n, '', ok=False, **kw)
        if n == 'expect':
            return header(n, '', **kw)
        return header(n, self.value(n), **kw)

    # -- messages --

    def body(self, ctype=None, empty=.4):
        b = {'st': self.pick('unknown', 'unavail', 'some', 'some', 'some', 'some') if not self.p(empty) else 'empty',
             'kind': 'text', 'pairs': [], 'parts': []}
        if b['st'] == 'some':
            t = ctype['i'] if ctype else ''
            if t.endswith('urlencoded') and self.p(.8):
                b['kind'] = 'form'
                b['pairs'] = [{'k': self.pick('access_token', 'access_token', 'a', 'Access_Token', 'x'), 'v': self.pick('1', 'abc', '', 'z')}
                              for _ in range(self.rng.randint(1, 3))]
            elif t.startswith('multipart') and self.p(.8):
                b['kind'] = 'parts'
                b['parts'] = [{'cr': self.p(.6), 'ct': self.p(.6)} for _ in range(self.rng.randint(1, 3))]
        return b

    def targets(self):
        k = self.rng.randrange(14)
        qs = TOKEN_QUERIES if self.p(.3) else PLAIN_QUERIES
        q, qp = self.rng.choice(qs) if self.p(.4) else ('-', [])
        qp = [{'k': a, 'v': b} for a, b in qp]
        qt = '' if q == '-' else '?' + q
        path = self.rng.choice(PATHS)
        if k < 8:
            return tgt(path + qt, o=True, u=U('-', '-', path, q), qp=qp)
        if k < 10:
            s, a = self.pick('http', 'https'), self.rng.choice(HOSTS)
            path = self.pick(path, '')
            return tgt(s + '://' + a + path + qt, ab=True, u=U(s, a, path, q), qp=qp)
        if k == 10:
            return tgt('*', st=True, au=True, u=U('-', '*', ''))       # also a host name
        if k == 11:
            a = self.pick('example.com', '10.0.0.1', '[::1]:80')        # ("a:1" would be an absolute URI)
            return tgt(a, au=True, u=U('-', a, ''))
        if k == 12:
            t = self.pick('a b', '/a b', '/%', '/<x>', '/x#f', 'http://x/#f', '/\xe9', '?x', '/a[b]', '/a|b')
            return tgt(t, qp=[{'k': 'x', 'v': ''}] if '?' in t else [])
        return tgt(path, o=True, u=U('-', '-', path))

    METHODS = ['GET', 'GET', 'GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'CONNECT', 'TRACE', 'PROPFIND', 'FOO',
               'get', 'Post', 'head', 'SEARCH', 'LOCK']
    BADM = ['G T', '', 'GE(T', 'G\xc9T', 'GET/']
    VERS = ['HTTP/1.1'] * 6 + ['HTTP/1.0', 'HTTP/1.0', 'HTTP/2', 'HTTP/2', '-']
    STATUSES = [100, 101, 102, 103, 200, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 305, 306, 307, 308, 400, 401, 402,
                403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 424, 426, 428, 429, 431, 451, 499,
                500, 501, 502, 503, 504, 505, 507, 511, 599, 600, 99, 999, 0, 199, 299, 399, 400, 499]

    COMMON_REQ = ['connection', 'trailer', 'transfer-encoding', 'te', 'upgrade', 'content-length', 'content-type', 'content-encoding',
                  'date', 'cache-control', 'cache-control', 'pragma', 'warning', 'if-match', 'if-none-match', 'if-modified-since',
                  'if-unmodified-since', 'if-range', 'range', 'max-forwards', 'expect', 'referer', 'accept', 'accept-charset',
                  'accept-encoding', 'accept-language', 'prefer', 'authorization', 'proxy-authorization', 'http2-settings', 'via',
                  'foo', 'cookie', 'from', 'forwarded', 'x-foo', 'content-language', 'content-location', 'content-range', 'origin']
    COMMON_RESP = ['connection', 'trailer', 'transfer-encoding', 'upgrade', 'content-length', 'content-type', 'content-encoding', 'date', 'date',
                   'cache-control', 'cache-control', 'pragma', 'warning', 'age', 'age', 'expires', 'last-modified', 'etag', 'etag',
                   'location', 'content-location', 'allow', 'vary', 'accept-patch', 'accept-post', 'preference-applied',
                   'www-authenticate', 'proxy-authenticate', 'strict-transport-security', 'link', 'via', 'content-range', 'retry-after',
                   'alt-svc', 'accept-ranges', 'server', 'set-cookie', 'foo', 'x-foo', 'content-language', 'content-disposition']
    ALL = sorted(Render.KNOWN | set(Render.GENERIC))

    def headers(self, pool, focus, n=None):
        k = self.rng.randint(0, self.few) if n is None else n
        names = []
        for _ in range(k):
            names.append(self.rng.choice(focus) if focus and self.p(.65) else self.rng.choice(self.ALL) if self.p(.1) else self.rng.choice(pool))
        out = []
        for n_ in names:
            if out and self.p(.9) and any(e['n'] == n_ for e in out):
                continue            # repeat a header only now and then
            out.append(self.hdr(n_))
        return out

    def trailers(self, m):
        if self.p(.07):
            for n in self.some(['foo', 'x-foo', 'date', 'content-md5', 'etag', 'cache-control', 'bar-baz', 'host', 'warning'], 1, 2):
                m['hdrs'].append(self.hdr(n, t=True))

    def request(self, focus=(), method=None, ver=None, scheme=None):
        m = {'kind': 'req', 'method': method or self.rng.choice(self.METHODS), 'mok': True, 'ver': ver or self.rng.choice(self.VERS),
             'scheme': scheme or self.pick('http', 'http', 'https', 'https', '-')}
        if method is None and self.p(.03):
            m['method'], m['mok'] = self.rng.choice(self.BADM), False
        m['up'] = m['method'].upper()
        m['tgt'] = self.targets()
        if m['method'] == 'CONNECT' and self.p(.7):
            a = self.rng.choice(HOSTS)
            m['tgt'] = tgt(a, au=True, u=U('-', a, ''))
        if m['method'] == 'OPTIONS' and self.p(.4):
            m['tgt'] = tgt('*', st=True, au=True, u=U('-', '*', ''))
        hs = self.headers(self.COMMON_REQ, focus)
        m['hdrs'] = hs
        if self.p(.5):
            hs.append(self.hdr('user-agent'))
        if self.p(.85):
            e = header('host', '', ok=False) if self.p(self.bad / 2) else header('host', self.v_host())
            hs.insert(0 if self.p(.85) else self.rng.randint(0, len(hs)), e)
        self.trailers(m)
        self.fix(m)
        ct = self.last(m, 'content-type')
        m['body'] = self.body(ct)
        return m

    def response(self, focus=(), status=None, ver=None):
        m = {'kind': 'resp', 'status': status if status is not None else self.rng.choice(self.STATUSES), 'rok': self.p(.96),
             'ver': ver or self.rng.choice(self.VERS)}
        m['hdrs'] = self.headers(self.COMMON_RESP, focus)
        if self.p(.5) and not any(e['n'] == 'date' for e in m['hdrs']):
            m['hdrs'].append(self.hdr('date'))
        self.trailers(m)
        if self.p(.03):
            m['hdrs'].insert(0, dict(header(self.pick('a b', 'foo(bar)', 'x\xe9', '')), nok=False))
            m['hdrs'][0]['name'] = m['hdrs'][0]['n']
            m['hdrs'][0]['x'] = False
        self.fix(m)
        m['body'] = self.body(self.last(m, 'content-type'))
        return m

    @staticmethod
    def last(m, n):
        es = [e for e in m['hdrs'] if e['n'] == n and not e['t']]
        return es[-1]['v'] if es and es[-1]['ok'] else None

    def fix(self, m):
        # keep trailer headers behind the others
        m['hdrs'] = [e for e in m['hdrs'] if not e['t']] + [e for e in m['hdrs'] if e['t']]

    def exchange(self, freq=(), fresp=(), methods=None, statuses=None, noreq=.08, nresp=None, seqs=None):
        """One exchange; the focus lists are preferred headers."""
        if self.p(noreq):
            self.req = None
            req = {'none': True}
        else:
            req = self.req = self.request(freq, method=self.rng.choice(methods) if methods and self.p(.8) else None)
        n = nresp if nresp is not None else self.pick(1, 1, 1, 1, 1, 1, 2, 3) if self.req else 1
        resps = []
        for k in range(n):
            st = self.rng.choice(statuses) if statuses and self.p(.8) else None
            if k < n - 1 and self.p(.6):
                st = self.pick(100, 100, 101, 102, 103)
            r = self.response(fresp, status=st)
            if self.req and self.p(.7):
                r['ver'] = self.req['ver']
            resps.append(r)
        return {'req': req, 'resps': resps}
