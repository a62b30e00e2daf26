"""Sentences of the grammars of spec/Grammars.tla (printed by TLC), and near-sentences."""
import json

from vlib import octets

TC = "!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

#: words that mean something in a header
WORDS = {
    'accept': ['text', 'html', 'json', 'plain', 'application', '*', 'q', 'Q', 'level'],
    'accept-charset': ['utf-8', '*', 'iso-8859-1', 'q'], 'accept-encoding': ['gzip', 'identity', '*', 'br'],
    'accept-patch': ['text', 'json', 'plain', 'application', 'charset'], 'accept-post': ['text', 'json', 'plain', 'application', '*', 'q'],
    'accept-ranges': ['bytes', 'none', 'pages'], 'allow': ['GET', 'POST', 'get'],
    'alt-svc': ['h2', 'h3-29', 'ma', 'MA', 'persist', 'w%3Dx', '%68%32', 'h%3a2', 'a%2fb', 'http%2F1.1', '%', 'x%7C', 'x%7c', '60', '1', '0', 'clear', 'foo'],
    'authorization': ['Basic', 'Digest', 'Bearer', 'realm', 'a', 'nonce'],
    'cache-control': ['max-age', 'Max-Age', 's-maxage', 'no-cache', 'private', 'PRIVATE', 'no-store', 'public', 'immutable', 'max-stale', 'min-fresh',
                      'must-revalidate', 'stale-if-error', 'stale-while-revalidate', 'only-if-cached', 'no-transform', 'proxy-revalidate', '60', '0', 'foo', 'set-cookie'],
    'connection': ['close', 'keep-alive', 'upgrade'],
    'content-disposition': ['attachment', 'inline', 'filename', 'FileName', 'filename*', 'foo', 'name', 'a%20b', '100%', 'x.txt', '%zz'],
    'content-encoding': ['gzip', 'x-gzip', 'br'], 'content-type': ['text', 'html', 'json', 'plain', 'application', 'charset', 'x'],
    'forwarded': ['for', 'For', 'by', 'host', 'proto', 'https', '192.0.2.1', '_x', 'unknown', 'example.com', 'foo'],
    'httpolice-silence': ['resp', 'RESP', 'resp2', '0'],
    'if-match': [], 'link': ['rel', 'Rel', 'rev', 'title', 'title*', 'type', 'media', 'anchor', 'hreflang', 'next', 'en', "UTF-8'en'x", 'foo', "iso-8859-1''a%20b",
                             "UTF-8''%C3%A9", "utf-8''%E9", "UTF-8'en", 'text/json', 'Next'],
    'pragma': ['no-cache', 'No-Cache', 'foo', 'no-cached'],
    'prefer': ['return', 'Return', 'minimal', 'Minimal', 'representation', 'wait', '10', 'handling', 'strict', 'lenient', 'respond-async', 'foo', 'depth-noroot'],
    'server': ['Apache', '2.4.1', 'nginx'], 'strict-transport-security': ['max-age', 'MAX-AGE', 'includeSubDomains', 'includesubdomains', 'preload', '0', '31536000', 'x'],
    'te': ['trailers', 'Trailers', 'gzip', 'deflate', 'chunked', 'compress', 'q', 'foo', 'chunked-x'], 'trailer': ['Foo', 'Date'], 'transfer-encoding': ['chunked', 'Chunked', 'gzip', 'foo', 'q', 'deflate', 'compress', 'chunkedx'],
    'upgrade': ['h2c', 'h2', 'websocket', 'TLS'], 'user-agent': ['Mozilla', '5.0', 'curl'], 'vary': ['*', 'Accept', 'Host'],
    'via': ['1.1', 'HTTP', 'proxy', '2'], 'warning': ['proxy', '-'], 'x': ['GET', 'Foo', 'X-Foo'],
}
WORDS['proxy-authorization'] = WORDS['www-authenticate'] = WORDS['proxy-authenticate'] = WORDS['authorization']
WORDS['preference-applied'] = WORDS['prefer']
WORDS['if-none-match'] = []
#: contents of quoted strings
QUOTED = {
    'alt-svc': [':443', 'example.com:80', 'example.com', ':', '', 'a b:1', '[::1]:80', ':443x', '60', '1', '0', 'x'],
    'cache-control': ['a', 'set-cookie, foo', 'a,,b', '', ',', '60', 'x y', '5', 'a b', 'cookie,'],
    'content-disposition': ['x.txt', 'a b', 'a%20b', 'na\xefve', 'a"b', 'a\\b', '', '%', '100% x', 'a%e9', 'c:\\d'],
    'forwarded': ['192.0.2.1', '[2001:db8::1]:80', '[::1]', '192.0.2.1:8080', '_x:_y', 'a:b', '', 'unknown', 'example.com:80', 'a b', '256.1.1.1', '1.2.3.4:123456',
                  'a,b', 'a;b', 'Unknown:1', '::1', '_', 'https', '1x', 'a_b'],
    'link': ['next', 'next prev', '', 'Next', 'http://a/b', 'en', 'en-US', 'e_n', 'a title', 'a, b', 'a; b', 'text/html', 'text/json', 'Plain/Text', 'text', 'text/x;y',
             'next  prev', ' next', '1x', 'a:b', 'http://x/y z', '/x', 'x y', '<', 'http://[::1', "UTF-8''x", 'next http://x/y'],
    'prefer': ['minimal', 'strict', '10', '', 'x, y', 'a;b', 'representation ', 'abc', '1.5'],
    'strict-transport-security': ['60', '0', '', 'x', '-1', '1 2'],
    'warning': ['Mon, 01 Jan 2018 00:00:00 GMT', 'x', ''],
}
QUOTED['preference-applied'] = QUOTED['prefer']
ANY = ['', 'x', 'a b', 'a,b', 'a;b', 'a"b', 'a\\b', '\xe9', 'a\tb', 'x=y', '(', '<a>']

DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
DAYL = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
URIS = ['', '/', '/a', 'a', 'a:b', 'http://example.com/', 'http://a/b,c', 'http://a/b;c', 'http://u:p@h:80/x?y#z', '//h/p', '?q', '#f', 'http://[::1]:8/', '/%41', '/a%', '../x', 'http://[v1.a]/',
        'http://[fe80::1%25en0]/', 'http://1.2.3.4/', 'urn:x:y', '/a:b', './a:b', 'http://h:/', 'a/b:c', '/a b', '/\xe9', 'http:', '1a:b', '/{x}', 'x?y#z#w', 'http://h/p?a[b]']
HOSTS = ['', 'example.com', 'example.com:80', 'a:', '[::1]', '[::1]:80', '1.2.3.4', '[1:2:3:4:5:6:7:8]', '[1::8]', '[::ffff:1.2.3.4]', '[v1.x]', '[::1%25eth0]', 'a%20b', '[1:2]', '[:::]',
         '[1:2:3:4:5:6:7:8:9]', '256.256.1.1', 'a_b', 'a,b', '[::1', 'a b', '[12345::]', '[1::2::3]', '[1:2:3:4:5:6:7::]', '[::1:2:3:4:5:6:7]', '[1:2:3:4:5:6:1.2.3.4]', '[::1%eth0]', 'x:80a']
LANGS = ['en', 'en-US', 'de-CH-1901', 'x-foo', 'zh-Hant-TW', 'i-klingon', 'en-GB-oed', 'sl-rozaj-biske', 'en-a-bbb-x-y', 'es-419', 'a', 'en-', 'i-foo', 'zh-min-nan', 'abcdefghi', 'x', 'en-x',
         'zh-cmn-Hans-CN', 'de-1', 'en-a', 'qaa-Qaaa-QM-x-southern', 'art-lojban', 'sgn-be-fr', 'en-abcde', 'en-1abc', 'en-1ab', 'ab-419-xyz', 'X-abcdefgh', 'x-abcdefghi', '*', 'en-abc-def-ghi-jkl']


class Lex:
    def __init__(self, rng, dump):
        self.rng = rng
        self.el = {d['n']: d['g'] for d in dump if d['k'] == 'element'}
        self.names = {self.key(d['g']): d['n'] for d in dump if d['k'] == 'named'}
        self.comment = [d['g'] for d in dump if d['n'] == 'comment'][0]
        for g in list(self.el.values()) + [self.comment]:
            self.tag(g)
        self.hdr = 'x'
        self.deep = 0

    @staticmethod
    def key(g):
        return json.dumps(g, sort_keys=True)

    def tag(self, g):
        name = self.names.get(self.key(g))
        for x in g.get('gs', []):
            self.tag(x)
        if 'g' in g:
            self.tag(g['g'])
        if g['t'] == 'c':
            g['s'] = sorted(g['s'])
        if name:
            g['name'] = name

    def p(self, x):
        return self.rng.random() < x

    def pick(self, *xs):
        return self.rng.choice(xs)

    def quoted(self):
        s = self.rng.choice(QUOTED.get(self.hdr, ANY) if self.p(.75) else ANY)
        r = '"'
        for c in s:
            r += '\\' + c if c in '"\\' or self.p(.05) else c
        return r + '"'

    def date(self):
        r = self.rng
        k = r.randrange(10)
        y = r.choice([1994, 2000, 2016, 2018, 1900, 2100, 9999, 1, 0, 1970, 2400]) if self.p(.7) else r.randrange(0, 10000)
        m = r.randrange(1, 13)
        d = r.choice([1, 28, 29, 30, 31, 0, 32, 99]) if self.p(.5) else r.randrange(1, 29)
        hms = '%02d:%02d:%02d' % (r.choice([0, 12, 23, 24, 99]), r.choice([0, 30, 59, 60]), r.choice([0, 59, 60, 61])) if self.p(.25) else '10:20:30'
        w = r.randrange(7)
        if k >= 7:
            y = r.randrange(1900, 2000)
        if self.p(.6):
            import datetime
            try:
                w = datetime.date(y, m, d).weekday()
            except ValueError:
                pass
        if k < 5:
            return '%s, %02d %s %04d %s GMT' % (DAYS[w], d, MON[m - 1], y, hms)
        if k < 7:
            return '%s %s %s %s %04d' % (DAYS[w], MON[m - 1], ('%2d' if self.p(.7) else '%02d') % d, hms, y)
        return '%s, %02d-%s-%02d %s GMT' % (DAYL[w], d, MON[m - 1], y % 100, hms)

    def special(self, name):
        """Text for a named nonterminal, or None."""
        r = self.rng
        if name == 'token':
            ws = WORDS.get(self.hdr, [])
            if ws and self.p(.85):
                return r.choice(ws)
            return ''.join(r.choice(TC) for _ in range(r.randint(1, 3)))
        if name == 'qstring':
            return self.quoted() if self.p(.9) else None
        if name == 'digits':
            if self.hdr == 'httpolice-silence':
                return r.choice(['0', '1', '5', '9999', '007', '4294967296'])
            return r.choice(['0', '1', '5', '10', '007', '999', '4294967296', '1000'])
        if name == 'ows':
            return '' if self.p(.6) else r.choice([' ', '\t', '  ', ' '])
        if name == 'rws':
            return ' ' if self.p(.6) else r.choice(['  ', '\t', ' \t ', '   '])
        if name == 'date':
            return self.date()
        if name in ('uriref', 'urinofrag'):
            return r.choice(URIS) if self.p(.75) else None
        if name in ('hostport', 'host'):
            return r.choice(HOSTS) if self.p(.75) else None
        if name == 'langtag':
            return r.choice(LANGS) if self.p(.7) else None
        if name == 'mtype' and self.hdr in WORDS and self.p(.6):
            return r.choice(['text/html', 'text/plain', 'text/json', 'Application/Text', 'plain/text', '*/*', 'text/*', 'application/json'])
        if name == 'extvalue':
            return r.choice(["UTF-8''a%20b", "utf-8'en'x", "iso-8859-1''%e9", "UTF-8''%e9", "UTF-8''%C3%A9", "UTF-8''", "x''y", "UTF-8'en-US-x'z", "UTF-8''a b", "UTF-8'zh-abc'%E2%82%AC", "UTF-8''%ED%A0%80",
                             "UTF-8''%F4%90%80%80", "utf-8''%c0%80"]) if self.p(.9) else None
        if name == 'etag':
            return r.choice(['"x"', '"a\\b"', '"a,b"', '""', '"\xe9"', '"a\\"', '"!"']) if self.p(.85) else None
        if name == 't68':
            return r.choice(['abc', 'abc=', 'a==', 'A-b._~+/', '1'])
        if name == 'comment':
            return r.choice(['(x)', '(a (b) c)', '()', '(a, b)', '(\\(\\))', '(\\x)', '(\xe9)', '(\\\\)', '(a\\\tb)', '("q)', '((()))', '(a  b)', '(\\" \\()']) if self.p(.85) else None
        if name == 'byterange':
            return r.choice(['0-5', '5-0', '5-', '-5', '0-0', '10-9', '007-7', '99999999999-100000000000', '100000000000-99999999999', '-0', '9-10'])
        return None

    def gen(self, g):
        name = g.get('name')
        if name:
            s = self.special(name)
            if s is not None:
                return s
        t = g['t']
        if t == 'c':
            xs = g['s']
            if len(xs) > 6 and self.p(.3):
                return chr(self.rng.choice([xs[0], xs[-1], xs[len(xs) // 2]]))
            xs = [x for x in xs if 33 <= x < 127] or xs if self.p(.9) else xs
            return chr(self.rng.choice(xs))
        if t == 's':
            return ''.join(self.gen(x) for x in g['gs'])
        if t == 'a':
            return self.gen(self.rng.choice(g['gs']))
        if t == 'r':
            hi = g['hi'] if g['hi'] >= 0 else g['lo'] + 3
            n = self.rng.randint(g['lo'], min(hi, g['lo'] + 3))
            if g['hi'] > 0 and self.p(.08):
                n = self.pick(g['lo'], g['hi'])
            return ''.join(self.gen(g['g']) for _ in range(n))
        if t == 'b':
            return self.gen(g['g'])
        if t == 'n':
            self.deep += 1
            try:
                return '(x)' if self.deep > 3 else self.gen(self.comment)
            finally:
                self.deep -= 1
        raise KeyError(t)

    def sentence(self, element):
        self.hdr = element[2:].replace('_', '-') if element.startswith('h_') else 'x'
        for _ in range(20):
            s = self.gen(self.el[element])
            if len(s) <= 90:
                return s
        return s[:60]

    # ---- sentences through a given node, and just past its edges ----

    def small(self, g):
        """A short sentence of g."""
        t = g['t']
        if t == 'c':
            for x in (97, 48, 49, 101):
                if x in g['s']:
                    return chr(x)
            xs = [x for x in g['s'] if 33 <= x < 127] or g['s']
            return chr(xs[0])
        if t == 's':
            return ''.join(self.small(x) for x in g['gs'])
        if t == 'a':
            return min((self.small(x) for x in g['gs']), key=len)
        if t == 'r':
            return ''.join(self.small(g['g']) for _ in range(g['lo']))
        if t == 'b':
            for x in [self.small(g['g'])] + [self.gen(g['g']) for _ in range(9)]:
                if octets(x.lower()) not in g['x']:
                    return x
            return x
        return '(x)'

    def nodes(self, g, path=()):
        yield path, g
        for k, x in enumerate(g.get('gs', [])):
            yield from self.nodes(x, path + (k,))
        if isinstance(g.get('g'), dict):
            yield from self.nodes(g['g'], path + (0,))

    def through(self, g, path, text):
        """A sentence of g, except that `text` stands for the node at `path`."""
        if not path:
            return text
        t = g['t']
        if t == 's':
            return ''.join(self.through(x, path[1:], text) if k == path[0] else self.small(x) for k, x in enumerate(g['gs']))
        if t == 'a':
            return self.through(g['gs'][path[0]], path[1:], text)
        r = self.through(g['g'], path[1:], text)
        if t == 'r':
            r += ''.join(self.small(g['g']) for _ in range(g['lo'] - 1))
        return r

    def edges(self, g):
        """Texts at and just past the edges of what the node g itself allows."""
        if g['t'] == 'c':
            s = set(g['s'])
            return [chr(b) for b in range(256) if (b in s) != (b + 1 in s) or (b in s) != (b - 1 in s)]
        if g['t'] == 'r':
            lo, hi = g['lo'], g['hi']
            return [''.join(self.small(g['g']) for _ in range(n)) for n in sorted({max(lo - 1, 0), lo, lo + 1} | ({hi, hi + 1} if 0 <= hi <= 40 else set()))]
        if g['t'] == 'a':
            return [self.small(x) for x in g['gs']]
        if g['t'] == 's' and g['gs']:
            return ['', ''.join(self.small(x) for x in g['gs'][:-1])]
        return []

    def boundary(self, per_node):
        """(element, sentence) for every node of every grammar, each kind of node in at most
        `per_node` elements."""
        seen = {}
        for el in sorted(self.el, key=lambda e: self.rng.random()):
            here = set()
            for path, g in self.nodes(self.el[el]):
                k = self.key({k: v for k, v in g.items() if k != 'name'})
                if k in here or seen.get(k, 0) >= per_node:
                    continue
                here.add(k)
                seen[k] = seen.get(k, 0) + 1
                for text in self.edges(g):
                    s = self.through(self.el[el], path, text)
                    if len(s) <= 100:
                        yield el, s

    ODD = ' \t",;=()<>/\\*:@[]{}?%#\'-0Aa.\x7f\x00\x80\xff\r\n!~^_|1Zz+&$'

    def mutate(self, s):
        s = list(s)
        for _ in range(self.pick(1, 1, 1, 2)):
            k = self.rng.randrange(6)
            i = self.rng.randint(0, len(s))
            if k == 0 and s:
                del s[min(i, len(s) - 1)]
            elif k <= 2:
                s.insert(i, self.rng.choice(self.ODD))
            elif k == 3 and s:
                s[min(i, len(s) - 1)] = self.rng.choice(self.ODD)
            elif k == 4 and s:
                j = min(i, len(s) - 1)
                s[j] = s[j].swapcase() if s[j].isascii() else s[j]
            elif s:
                j = self.rng.randint(0, len(s))
                s[min(i, j):max(i, j)] = []
        return ''.join(s)
