"""C39: how syntax errors are explained.

Near-sentences of the header grammars are put into messages; the explanation of the syntax error is
read from the HTML report (the offset, what was found there, what was expected) and TLC compares it
with where the text leaves the language (spec/Viable.tla). Framing errors of damaged connections
likewise (spec/FramingWhy.tla)."""
import io
import os
import re
import tempfile

import check_c05
import check_c06
from envgen import gen
from framing import show
from mutate import mutate
from render import Renderer

import headers
import reports
from check_c10 import boundary_cases, fragment_cases
from lexgen import Lex
from vlib import guarded, octets, pmap, split_even

NAMES = {'tab': 9, 'LF': 10, 'CR': 13, 'space': 32, 'double quote (")': 34, "single quote (')": 39, 'comma (,)': 44, 'period (.)': 46,
         'colon (:)': 58, 'semicolon (;)': 59, 'dash (-)': 45}
OTHER = {'x_method': 1292, 'x_name': 1293, 'x_reason': 1294}


def point(s):
    if re.fullmatch('0x[0-9a-f]{2}', s):
        return int(s, 16)
    return ord(s) if re.fullmatch('[A-Za-z0-9]', s) else None


def characters(s):
    """The octets that a description means, or None."""
    out = set()
    for piece in s.split(' or '):
        ends = [point(x) for x in piece.split('\u2013')]
        if piece in NAMES:
            out.add(NAMES[piece])
        elif None not in ends and len(ends) <= 2:
            out |= set(range(ends[0], ends[-1] + 1))
        elif re.fullmatch('[!-~]+', piece) and not re.search('[A-Za-z0-9]', piece):
            out |= {ord(c) for c in piece}
        else:
            return None
    return out


def explained(paras):
    """[pos, eof, found, opts, end, odd] of the paragraphs of an explanation."""
    r = {'pos': -1, 'eof': False, 'found': -1, 'opts': set(), 'end': False, 'odd': []}
    it = iter(paras)
    for p in it:
        m = re.fullmatch(r'Parse error at offset (\d+)\.', p)
        f = re.fullmatch(r'Found: (.*)', p)
        if m:
            r['pos'] = int(m.group(1))
        elif p == 'Found end of data.':
            r['eof'] = True
        elif f:
            got = characters(f.group(1))
            if got is None or len(got) != 1:
                r['odd'].append(p)
            else:
                r['found'] = got.pop()
        elif p == 'Expected:':
            break
    options = list(it)
    for k, p in enumerate(options):
        if (k > 0) != p.startswith('or '):
            if k > 0:
                continue        # not one of the list any more
            r['odd'].append(p)
        d, _, _ = p[3 if k else 0:].partition(' as part of ')
        if d == 'end of data':
            r['end'] = True
        elif characters(d) is None:
            r['odd'].append(p)
        else:
            r['opts'] |= characters(d)
    r['opts'] = sorted(r['opts'])
    r['odd'] = [re.sub('[^ -~]', '?', x) for x in r['odd']]
    return r


def observe(case):
    import httpolice
    _, exch = headers.message(case)
    httpolice.check_exchange(exch)
    buf = io.BytesIO()
    httpolice.html_report([exch], buf)
    p = reports.Reader()
    p.feed(buf.getvalue().decode('utf-8'))
    p.close()
    i = OTHER.get(case['k'], 1045 if case['k'].startswith('x_') else 1000)
    found = [n for n in reports.find(p.root, lambda x: reports.cls(x).startswith('notice '))
             if reports.text(reports.find(n, reports.klass('ident'))[0]).strip() == str(i)]
    paras = [' '.join(reports.text(x).split()) for x in reports.find(found[0], reports.tag('p'))] if found else []
    return dict(explained(paras), n=len(found)), paras


BLANK = {'pos': -1, 'eof': False, 'found': -1, 'opts': [], 'end': False, 'odd': [], 'n': 0}


def batch(cases):
    out = []
    for c in cases:
        res = guarded(observe, c)
        got, paras = res[1] if res[0] == 'ok' else (BLANK, [])
        out.append((dict(got, k=c['k'], s=c['es'][0], exc='' if res[0] == 'ok' else res[1]), paras, c['name']))
    return out


FRAMING = {1004, 1005, 1006, 1007, 1009, 1010}


def framing_error(i, paras, names):
    """[id, name, at, what, n, sym] of a notice, or None."""
    r = {'id': i, 'name': '', 'at': -1, 'what': '', 'n': 0, 'sym': ''}
    if i in (1007, 1010):
        m = re.search(r'beginning at byte (\d+) on the %s stream (.*) will not' % ('request' if i == 1007 else 'response'), paras[0])
        if m:
            return dict(r, at=int(m.group(1)), name=names.get(m.group(2), '?'), what='rest')
    elif i == 1004:
        m = re.search(r'that the body is (\d+) bytes long, .* on the stream (.*)\.$', paras[0])
        if m:
            return dict(r, n=int(m.group(1)), name=names.get(m.group(2), '?'), what='bytes')
    elif len(paras) == 4 and paras[2] == 'Expected:':
        at = re.fullmatch(r'Parse error at offset (\d+)\.', paras[1])
        what, _, sym = paras[3].rpartition(' as part of ')
        k, n = {'': 'self', 'end of line': 'eol', 'data terminated by end of line': 'line', 'no more than 16384 bytes before end of line': 'long'}.get(what), 0
        m = re.fullmatch(r'at least (\d+) bytes', what)
        if m:
            k, n = 'bytes', int(m.group(1))
        if at and k:
            return dict(r, at=int(at.group(1)), name=names.get(paras[0], '?'), what=k, n=n, sym=re.sub(r' \(RFC.*', '', sym))
    return None


def observe_stream(case, scratch):
    import httpolice
    from httpolice import inputs
    with tempfile.TemporaryDirectory(dir=scratch) as d:
        paths, names = [], {}
        for k, name in (('i', 'in'), ('o', 'out')):
            if case[k] is not None:
                p = os.path.join(d, k)
                with open(p, 'wb') as f:
                    f.write(case[k])
                paths.append(p)
                names[p] = name
        form = 'streams' if len(paths) == 2 else 'req-stream' if case['i'] is not None else 'resp-stream'
        exs = list(inputs.formats[form](paths))
    buf = io.BytesIO()
    httpolice.html_report(exs, buf)
    p = reports.Reader()
    p.feed(buf.getvalue().decode('utf-8'))
    p.close()
    got, odd, said = [], [], []
    for n in reports.find(p.root, lambda x: reports.cls(x).startswith('notice ')):
        i = int(reports.text(reports.find(n, reports.klass('ident'))[0]))
        if i in FRAMING:
            paras = [' '.join(reports.text(x).split()) for x in reports.find(n, reports.tag('p'))]
            said.append([i] + paras)
            e = framing_error(i, paras, names)
            if e is None:
                odd.append(re.sub('[^ -~]', '?', '%d %s' % (i, paras)))
            else:
                got.append(e)
    return got, odd, said


def batch_streams(args):
    cases, scratch = args
    out = []
    for c in cases:
        res = guarded(observe_stream, c, scratch)
        got, odd, said = res[1] if res[0] == 'ok' else ([], [], [])
        out.append(({'in': {'on': c['i'] is not None, 's': octets(c['i'] or b'')}, 'out': {'on': c['o'] is not None, 's': octets(c['o'] or b'')},
                     'got': got, 'odd': odd, 'exc': '' if res[0] == 'ok' else res[1]}, said))
    return out


def streams(chk):
    cs = []
    for m in (check_c05, check_c06):
        part = [c for c in m.cases_of(chk) if len((c['i'] or b'') + (c['o'] or b'')) < 400 or not chk.rng.randrange(4)]
        cs += part if chk.thorough else chk.rng.sample(part, min(len(part), chk.scale(1800, 0)))
    g = gen(chk, methods=['GET', 'CONNECT'], reqf=['none', 'cl', 'clbad', 'garbage', 'cllong'], statuses=[101, 100, 200],
            respf=['cl', 'garbage', 'cllong', 'none', 'chunked'], tails=['', 'q', 'r', 'g', 'qr'], maxreq=1, maxresp=1, must=False)
    r = Renderer(chk.rng)
    for _ in range(chk.scale(1800, 40000)):
        c = r.connection(chk.rng.choice(g))
        cs.append({'i': c['i'], 'o': c['o']} if chk.rng.random() < .3 else mutate(chk.rng, {'i': c['i'], 'o': c['o']}))
    got = [x for part in pmap(batch_streams, [(p, chk.scratch) for p in split_even(cs, 32)]) for x in part]
    for c, (r, said), bad, x in zip(cs, got, chk.judge('TraceWhy', 'INIT Init\nNEXT Next\nINVARIANT InStream\n', [r for r, _ in got]), chk.extra):
        if bad:
            chk.fail(bad, {'connection': show(c), 'explanations': said, 'exception': r['exc']})
        for i in x['ids']:
            e = chk.notes.setdefault('framing_errors', {})
            e[str(i)] = e.get(str(i), 0) + 1


def run(chk):
    streams(chk)
    lex = Lex(chk.rng, headers.grammar_dump(chk))
    cs = headers.cases(chk, None, chk.scale(6000, 200000), mutated=.9, lex=lex)
    cs += chk.rng.sample(fragment_cases(chk, lex, chk.scale(30, 100000)), chk.scale(1500, 10 ** 6)) if not chk.thorough else fragment_cases(chk, lex, 100000)
    cs += boundary_cases(chk, lex, chk.scale(1, 1000))
    seen, uniq = set(), []
    for c in cs:
        for e in c['es']:
            key = (c['k'], bytes(e))
            if key not in seen:
                seen.add(key)
                uniq.append(dict(c, es=[e], tr=False))
    for k in range(0, len(uniq), 40000):
        got = [x for part in pmap(batch, split_even(uniq[k:k + 40000], 32)) for x in part]
        verdicts = chk.judge('TraceViable', 'INIT Init\nNEXT Next\n', [r for r, _, _ in got])
        for (r, paras, name), bad, x in zip(got, verdicts, chk.extra):
            if bad:
                chk.fail(bad, {'element': r['k'], 'text': repr(bytes(r['s']).decode('iso-8859-1')), 'explanation': paras, 'exception': r['exc'], 'name': name})
            d = chk.notes.setdefault('texts_by_element', {}).setdefault(r['k'], [0, 0])
            d[0] += 1
            d[1] += x['wrong']
    chk.sample({'text': repr(bytes(got[7][0]['s'])), 'explanation': got[7][1]})
