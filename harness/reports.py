"""C31, C32: reports read back and judged by spec/TraceReport.tla."""
import html.parser
import io
import json
import re
import zlib

import exrun
from exgen import Gen
from vlib import guarded, pmap, split_even

VOID = {'meta', 'base', 'hr', 'br', 'link', 'input', 'img'}


def codes(s):
    return [ord(c) for c in s]


class Reader(html.parser.HTMLParser):
    """The tree of a document, and the markup it uses."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = ['#root', {}, []]
        self.stack = [self.root]
        self.ok = True
        self.tags, self.attrs, self.classes = set(), set(), set()

    def handle_starttag(self, tag, attrs):
        self.tags.add(tag)
        for k, v in attrs:
            self.attrs.add(k)
            if k == 'class':
                self.classes.add(v)
            elif k.startswith('data-ref') and not re.fullmatch(r'[0-9 ]*', v or ''):
                self.attrs.add('%s=%s' % (k, v))
            elif k == 'href' and not re.match(r'https?://', v or ''):
                self.attrs.add('%s=%s' % (k, v))
        node = [tag, dict(attrs), []]
        self.stack[-1][2].append(node)
        if tag not in VOID:
            self.stack.append(node)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.stack.pop()

    def handle_endtag(self, tag):
        if tag in VOID or self.stack[-1][0] != tag:
            self.ok = False
        else:
            self.stack.pop()

    def handle_data(self, data):
        self.stack[-1][2].append(data)

    def handle_comment(self, data):
        self.tags.add('<!--')

    def handle_pi(self, data):
        self.tags.add('<?')

    def handle_decl(self, decl):
        if decl.lower() != 'doctype html':
            self.tags.add('<!')

    def unknown_decl(self, data):
        self.tags.add('<![')


def text(node):
    return node if isinstance(node, str) else ''.join(text(x) for x in node[2])


def cls(node):
    return '' if isinstance(node, str) else node[1].get('class', '')


def find(node, pred, deep=True):
    """Matching descendants in document order, not looking inside matches."""
    r = []
    for x in node[2]:
        if isinstance(x, str):
            continue
        if pred(x):
            r.append(x)
        elif deep:
            r += find(x, pred)
    return r


def find_all(node, pred):
    """Matching descendants in document order, also inside matches."""
    for x in node[2]:
        if not isinstance(x, str):
            if pred(x):
                yield x
            yield from find_all(x, pred)


def tag(name):
    return lambda x: x[0] == name


def klass(name):
    return lambda x: cls(x) == name


def notices(node):
    r = []
    for box in find(node, klass('complaints'), False):
        for n in find(box, lambda x: cls(x).startswith('notice '), False):
            h3 = find(n, tag('h3'), False)[0]
            abbr = find(h3, tag('abbr'), False)[0]
            ident = find(h3, klass('ident'), False)[0]
            rest = [x for x in h3[2] if not isinstance(x, str) and x[0] == 'span' and cls(x) != 'ident'][0]
            sev = text(abbr).strip()
            if cls(n) != 'notice ' + abbr[1]['title'] or abbr[1]['title'][0].upper() != sev:
                sev = '?'
            r.append({'id': int(text(ident)), 'sev': sev, 'title': codes(text(rest))})
    return r


def section(node):
    disp = find(node, klass('message-display'), False)[0]
    h2 = find(disp, tag('h2'), False)[0]
    start = [codes(text(x)) for x in find(h2, tag('span'))]
    trailer = find(disp, klass('trailer'), False)
    body = find(disp, klass('body-display'), False)
    return {'start': start, 'remark': codes(''.join(text(x) for x in find(disp, klass('message-remark'), False))),
            'hdrs': [codes(text(x)) for x in find(disp, klass('header-entry'), False)],
            'trls': [codes(text(x)) for t in trailer for x in find(t, klass('header-entry'))],
            'head': codes(''.join(text(x) for b in body for x in find(b, tag('h3'), False))),
            'body': codes(''.join(text(x) for b in body for x in find(b, tag('pre'), False))),
            'notices': notices(node)}


def read_html(data):
    r = {'utf8': True, 'balanced': False, 'tags': [], 'attrs': [], 'classes': [], 'exchs': []}
    try:
        s = data.decode('utf-8')
    except UnicodeError:
        r['utf8'] = False
        return r, ''
    p = Reader()
    p.feed(s)
    p.close()
    r['balanced'] = p.ok and len(p.stack) == 1
    r['tags'], r['attrs'], r['classes'] = sorted(p.tags), sorted(p.attrs), sorted(p.classes)
    for div in find(p.root, klass('exchange')):
        r['exchs'].append({'secs': [section(x) for x in find(div, tag('section'), False)], 'own': notices(div)})
    return r, s


def read_text(data):
    s = data.decode('utf-8', 'replace')
    lines = s.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    return [codes(x) for x in lines], s


# -- describing exchanges ----------------------------------------------------

OPEN = {'st': 'open', 'text': [], 'steps': []}
BODIES = {'empty': {'st': 'empty', 'text': [], 'steps': []}}


def entry(n, v):
    return {'n': codes(n), 'v': codes(v.decode('iso-8859-1') if isinstance(v, bytes) else v)}


def message(m, hdrs, trls, body, version, remark=None, **kw):
    return dict({'hdrs': [entry(n, v) for n, v in hdrs], 'trls': [entry(n, v) for n, v in trls], 'body': body, 'version': codes(version or ''),
                 'remark': codes(remark or ''), 'notices': [c.id for c in m.notices]}, **kw)


def from_exgen(ex, exch):
    """Description of an exchange made by exgen."""
    def parts(m, t):
        return [(e['name'], e['raw']) for e in m['hdrs'] if e['t'] is t]
    d = {'req': {'none': True}, 'resps': [], 'own': [c.id for c in exch.notices]}
    if exch.request is not None:
        m = ex['req']
        d['req'] = message(exch.request, parts(m, False), parts(m, True), OPEN, None if m['ver'] == '-' else m['ver'],
                           method=codes(m['method']), target=codes(m['tgt']['text']))
    for m, o in zip(ex['resps'], exch.responses):
        d['resps'].append(message(o, parts(m, False), parts(m, True), OPEN, None if m['ver'] == '-' else m['ver'],
                                  status=m['status'], reason=codes(m['reasontext'] or '')))
    return d


HOSTILE = ['<script>alert(1)</script>', '"><b x="', "' onload='x", '&lt;', '&amp;', '&', '<!--', '-->', ']]>', '<![CDATA[', '</pre>', '</section>', '\x00', '\x07', '\x7f', '\x85',
           '\x9f', '\xa0', '\xe9', '\xff', '%00', '---- CUT HERE ----', '<div class="exchange">', '\u201c\u201d', '\u2014', '\t', 'a' * 40, '  ', '</html>', '<?x?>',
           '------------ request: GET /', 'E 1000 x', '\x1b[31m', '\\', '<', '>', '"', "'", '=', '\x0b', '\x0c', '\x08', '&#0;', '&#x3c;', '{{x}}', '%s', '${x}']
WIDE = ['\ufffe', '\uffff', '\ud800', '\ufdd0', '\u2028', '\U0001f600', '\u0394', '\ufffd', '\u200b', '\U0001ffff', '\ufeff', '\u202e', '\ue000']


def hostile(rng, wide=False, n=4):
    return ''.join(rng.choice(HOSTILE + (WIDE * 3 if wide else [])) if rng.random() < .6 else rng.choice(['a', 'b/c', '/', 'x=y', ', ', '; ', ':'])
                   for _ in range(rng.randint(0, n)))


NAMES = ['Content-Type', 'Host', 'Date', 'Cache-Control', 'Accept', 'X-Foo', 'Location', 'Via', 'Server', 'User-Agent', 'ETag', 'Link', 'Set-Cookie', 'Vary', 'content-type', 'Warning',
         'Authorization', 'Content-Disposition', 'Age', 'Expires', 'Upgrade', 'Connection', 'Range', 'TE', 'Forwarded', 'Prefer']


def header(rng):
    n = rng.choice(NAMES) if rng.random() < .85 else hostile(rng, n=2) or 'X'
    v = hostile(rng) if rng.random() < .6 else rng.choice(['text/html', 'a', 'close', 'max-age=5', 'foo, bar', '<a>; rel=next', 'Tue, 15 Nov 1994 12:45:26 GMT', '1.1 a'])
    return (n, v.encode('iso-8859-1', 'replace'))


def body(rng, hdrs):
    """(body, description) and the headers that go with it."""
    k = rng.random()
    from httpolice.structure import Unavailable     # pylint: disable=import-outside-toplevel
    if k < .15:
        return b'', {'st': 'empty', 'text': [], 'steps': []}
    if k < .25:
        return None, {'st': 'unknown', 'text': [], 'steps': []}
    if k < .33:
        return Unavailable(), {'st': 'unavailable', 'text': [], 'steps': []}
    s = hostile(rng, True, 8) or 'x'
    if rng.random() < .2:
        s = (s + 'z') * rng.choice([1, 20, 60, 1000 // (len(s) + 1), 999 // (len(s) + 1) + 1])
    if rng.random() < .1:
        s = 'y' * rng.choice([999, 1000, 1001])
    s = ''.join(c for c in s if not 0xd800 <= ord(c) < 0xe000)
    if not s or s[0] == '\ufeff':
        s = 'b' + s
    steps = []
    kind = rng.choice(['plain', 'plain', 'latin', 'json', 'badutf', 'gzip', 'badgzip', 'te', 'none', 'utf16', 'badcharset'])
    hdrs[:] = [h for h in hdrs if h[0].lower() != 'content-type']
    if kind == 'latin':
        s = s.encode('iso-8859-1', 'replace').decode('iso-8859-1')
        hdrs.append(('Content-Type', b'text/plain; charset=ISO-8859-1'))
        data = s.encode('iso-8859-1')
        steps.append('decoding from iso8859-1')
    elif kind == 'utf16':
        hdrs.append(('Content-Type', b'text/plain; charset=utf-16-le'))
        data = s.encode('utf-16-le')
        steps.append('decoding from utf-16-le')
    elif kind == 'json':
        x = {'a': [s, 1, True, None], s: {}}
        cs = rng.choice(['', '', '', 'utf-16-le', 'cp1251'])
        hdrs.append(('Content-Type', b'application/json' + (b'; charset=' + cs.encode() if cs else b'')))
        data = json.dumps(x, ensure_ascii=cs == 'cp1251' or rng.random() < .5).encode(cs or 'utf-8')
        if cs:
            steps.append('decoding from ' + cs)
        s = json.dumps(x, indent=2, ensure_ascii=False)
        steps.append('pretty-printing')
    elif kind == 'badutf':
        hdrs.append(('Content-Type', b'text/plain'))
        data = s.encode() + rng.choice([b'\xff<b>', b'\x80', b'\xe2\x82', b'\xed\xa0\x80x'])
        s = data.decode('utf-8', 'replace')
    elif kind == 'badcharset':
        hdrs.append(('Content-Type', b'text/plain; charset=xyzzy'))
        data = s.encode()
    elif kind in ('gzip', 'te'):
        if kind == 'gzip':
            hdrs[:] = [h for h in hdrs if h[0].lower() != 'content-encoding']
            hdrs.append(('Content-Encoding', b'deflate'))
            data = zlib.compress(s.encode())
            steps.append('removing Content-Encoding')
        if kind == 'te' or rng.random() < .3:
            hdrs.append(('Transfer-Encoding', b'chunked'))
            steps.insert(0, 'removing Transfer-Encoding')
            data = data if kind == 'gzip' else s.encode()
    elif kind == 'badgzip':
        hdrs[:] = [h for h in hdrs if h[0].lower() != 'content-encoding']
        hdrs.append(('Content-Encoding', rng.choice([b'gzip', b'foo'])))
        data = s.encode()
    else:
        data = s.encode()
    # codings on top of the rest
    if kind not in ('gzip', 'te', 'badgzip') and rng.random() < .2:
        hdrs[:] = [h for h in hdrs if h[0].lower() != 'content-encoding']
        hdrs.append(('Content-Encoding', b'deflate'))
        data = zlib.compress(data)
        steps.insert(0, 'removing Content-Encoding')
    if kind not in ('gzip', 'te') and rng.random() < .2:
        hdrs.append(('Transfer-Encoding', b'chunked'))
        steps.insert(0, 'removing Transfer-Encoding')
    if not s:
        return b'', {'st': 'empty', 'text': [], 'steps': []}
    return data, {'st': 'text', 'text': codes(s), 'steps': [codes(x) for x in steps]}


def hostile_exchange(rng):
    """(exchange, description) with hostile text everywhere."""
    import httpolice
    describe = []
    def start(limit):
        s = hostile(rng, rng.random() < .3, limit)
        return s.replace('\n', '').replace('\r', '').replace('\ud800', '')
    def msg(make, **kw):
        hdrs = [header(rng) for _ in range(rng.randint(0, 4))]
        hdrs = [h for h in hdrs if not (h[0].lower() in ('te', 'upgrade') and rng.random() < .5)]
        # (the header of a 103 response says nothing about its own body)
        b, desc = (b'', {'st': 'empty', 'text': [], 'steps': []}) if kw.get('status') == 103 else body(rng, hdrs)
        trls = [header(rng) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        remark = rng.choice([None, None, 'from ' + hostile(rng, True, 2).replace('\ud800', '')])
        version = rng.choice(['HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None, 'HTTP/<b>'])
        m = make(version, hdrs, b, trls, remark)
        describe.append((m, hdrs, trls, desc, version, remark, kw))
        return m
    req = None
    if rng.random() < .85:
        method = rng.choice(['GET', 'POST', start(2) or 'X'])
        target = rng.choice(['/', start(8), '/' + 'a' * rng.randint(40, 70), start(3)])
        scheme = rng.choice(['http', 'https', None])
        req = msg(lambda v, h, b, t, r: httpolice.Request(scheme, method, target, v, h, b, t, remark=r), method=codes(method), target=codes(target))
    resps = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        status = rng.choice([200, 404, 204, 299, 500, 103])
        reason = rng.choice([start(5), 'x' * rng.randint(20, 50), start(2)] + ([''] if status in (200, 404, 204, 299) else [])) or ('' if status in (200, 404, 204, 299) else 'x')
        resps.append(msg(lambda v, h, b, t, r: httpolice.Response(v, status, reason, h, b, t, remark=r), status=status, reason=codes(reason)))
    exch = httpolice.Exchange(req, resps)
    def finish():
        d = {'req': {'none': True}, 'resps': [], 'own': [c.id for c in exch.notices]}
        for m, hdrs, trls, desc, version, remark, kw in describe:
            x = message(m, hdrs, trls, desc, version, remark, **kw)
            if m is req:
                d['req'] = x
            else:
                d['resps'].append(x)
        return d
    return exch, finish


def box(rng):
    import httpolice
    exch = httpolice.Exchange(None, [])
    if rng.random() < .9:
        exch.complain(1278, path=hostile(rng, True, 3).replace('\ud800', '').replace('\n', '') or 'x')
    if rng.random() < .3:
        exch.complain(1279, path1='a', path2='b')
    return exch, lambda: {'req': {'none': True}, 'resps': [], 'own': [c.id for c in exch.notices]}


def one(rng, hostility):
    import httpolice
    todo = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        k = rng.random()
        if k < .1:
            todo.append(box(rng))
        elif k < .1 + .9 * hostility:
            todo.append(hostile_exchange(rng))
        else:
            ex = exrun.concretize(Gen(rng, bad=.15, few=4).exchange(), rng)
            exch = exrun.build(ex, None)
            todo.append((exch, lambda ex=ex, exch=exch: from_exgen(ex, exch)))
    ids = []
    for exch, _ in todo:
        httpolice.check_exchange(exch)
        if rng.random() < .15:
            exch.complain(1278, path='a.dat')
        if rng.random() < .1:
            exch.complain(1279, path1='a', path2='b')
        for o in [exch, exch.request] + list(exch.responses):
            if o is not None:
                ids += [c.id for c in o.notices]
    for exch, _ in todo:
        if rng.random() < .4:
            o = rng.choice([x for x in [exch, exch.request] + list(exch.responses) if x is not None])
            o.silence(rng.sample(ids, rng.randint(0, len(ids))) if ids else [1000])
    exchs = [f() for _, f in todo]
    tbuf, hbuf = io.BytesIO(), io.BytesIO()
    order = [httpolice.text_report, httpolice.html_report]
    bufs = [tbuf, hbuf]
    if rng.random() < .5:
        order.reverse()
        bufs.reverse()
    for f, b in zip(order, bufs):
        f(iter([e for e, _ in todo]) if rng.random() < .5 else [e for e, _ in todo], b)
    lines, ts = read_text(tbuf.getvalue())
    ht, hs = read_html(hbuf.getvalue())
    try:
        tbuf.getvalue().decode('utf-8')
        ok = True
    except UnicodeError:
        ok = False
    return {'exchs': exchs, 'text': lines, 'html': ht, 'tutf8': ok, 'tchars': sorted({ord(c) for c in ts}), 'hchars': sorted({ord(c) for c in hs}), 'exc': ''}


def _batch(args):
    import random
    seed, n, hostility = args
    out = []
    for k in range(n):
        res = guarded(one, random.Random('%s/%d' % (seed, k)), hostility)
        out.append((seed, k, res[1] if res[0] == 'ok' else
                    {'exchs': [], 'text': [], 'html': {'utf8': True, 'balanced': True, 'tags': [], 'attrs': [], 'classes': [], 'exchs': []},
                     'tutf8': True, 'tchars': [], 'hchars': [], 'exc': res[1]}))
    return out


def run(chk, clauses, hostility, n):
    recs = [r for part in pmap(_batch, [('%s/%d/%d' % (chk.pid, chk.seed, k), -(-n // 32), hostility) for k in range(32)]) for r in part]
    verdicts = chk.judge('TraceReport', 'INIT Init\nNEXT Next\n', [r for _, _, r in recs], heap='3g')
    for (seed, k, r), bad, x in zip(recs, verdicts, chk.extra):
        bad = [b for b in bad if b in clauses or b == 'exception']
        if bad:
            chk.fail(bad, {'seed': '%s/%d' % (seed, k), 'hostility': hostility, 'exc': r['exc'],
                           'text report': ''.join(map(chr, [c for l in r['text'] for c in l + [10]])).encode('utf-8', 'replace').decode()[:1500],
                           'start': [[''.join(map(chr, s)).encode('utf-8', 'replace').decode() for sec in e['secs'] for s in sec['start']] for e in r['html']['exchs']],
                           'markup': [r['html']['tags'], r['html']['attrs'], r['html']['classes']]})
        chk.notes['report_lines'] = chk.notes.get('report_lines', 0) + x['lines']
    chk.notes['reports'] = 2 * len(recs)
    chk.sample({'text report': ''.join(map(chr, [c for l in recs[0][2]['text'] for c in l + [10]])).encode('utf-8', 'replace').decode()[:800]})
