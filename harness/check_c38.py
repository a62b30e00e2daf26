"""C38: what the notices of an HTML report point at.

Exchanges as for C20-C28; the HTML report is read back, the identifiers of its displayed parts
and the references of its notices are resolved as its script does, and TLC compares the parts
with what each notice is about (spec/Refs.tla)."""
import copy
import io
import random
import re

import check_c36 as c36
import exrun
import reports
import rules
from exgen import Gen, messages
from vlib import guarded, pmap, split_even, tmap


def parts(div, has_request):
    """{identifier: part} of one exchange (the first that has it, in document order), and the names of all parts."""
    ids, shown = {}, []
    secs = reports.find(div, reports.tag('section'), False)
    for k, sec in enumerate(secs):
        w = 'req' if has_request and k == 0 else str(k + (0 if has_request else 1))
        names = []
        h2 = reports.find(sec, reports.tag('h2'))[0]
        spans = reports.find(h2, reports.tag('span'))
        if w == 'req':
            names += list(zip(spans, ['method', 'target', 'version']))
        else:
            names += list(zip(reversed(spans), ['status', 'version']))
        entries = reports.find(sec, reports.klass('header-entry'))
        names += [(e, 'h%d' % (i + 1)) for i, e in enumerate(entries)]
        names += [(e, 'body') for e in reports.find(sec, reports.klass('body-display'))]
        shown += [w + '.' + n for _, n in names]
        name = {id(e): w + '.' + n for e, n in names}
        for e in reports.find_all(sec, lambda x: 'data-ref-id' in x[1]):
            ids.setdefault(e[1]['data-ref-id'], name.get(id(e), '?'))
    return ids, shown


def pointed(node, ids):
    r = set()
    for x in reports.find_all(node, lambda x: 'data-ref-to' in x[1]):
        r |= {ids[i] for i in (x[1]['data-ref-to'] or '').split() if i in ids}
    return sorted(r)


def links(node):
    """[text, target, title] of every link to the definition of a protocol item."""
    r = []
    for x in node[2]:
        if isinstance(x, str) or x[0] == 'cite':
            continue
        if x[0] == 'a':
            r.append([plain(reports.text(x)).strip(), plain(x[1].get('href') or ''), plain(x[1].get('title') or '')])
        else:
            r += links(x)
    return r


def plain(s):
    return ''.join(c if c.isascii() and c.isprintable() else '?' for c in ' '.join(s.split()))


def named(div, has_request):
    """What the start lines and the names of header fields are linked to: [kind, text, links]."""
    r = []
    for k, sec in enumerate(reports.find(div, reports.tag('section'), False)):
        h2 = reports.find(sec, reports.tag('h2'))[0]
        spans = reports.find(h2, reports.tag('span'))
        one = [('m', spans[0])] if has_request and k == 0 else [('st', spans[-1])]
        for kind, x in one:
            t = plain(reports.text(x)).strip()
            r.append([kind, t.split(' ')[0] if kind == 'st' else t, links(x)])
        for e in reports.find(sec, reports.klass('header-entry')):
            code = reports.find(e, reports.tag('code'))[0]
            # the name is what comes before the colon
            name, before = '', []
            for x in code[2]:
                t = reports.text(x)
                if isinstance(x, str) and ':' in t and name + t.split(':')[0] != '':
                    name += t.split(':')[0]
                    break
                name += t
                before.append(x)
            r.append(['h', plain(name).strip().lower(), [[t.lower()] + y for t, *y in links(['#', {}, before])]])
    return r


def valued(div, has_request):
    """[message, number of the header field, links in its value (in lower case)], unless there are none."""
    r = []
    for k, sec in enumerate(reports.find(div, reports.tag('section'), False)):
        w = 'req' if has_request and k == 0 else str(k + (0 if has_request else 1))
        for i, e in enumerate(reports.find(sec, reports.klass('header-entry'))):
            code = reports.find(e, reports.tag('code'))[0]
            past, after = '', []
            for x in code[2]:
                if ':' in past:
                    after.append(x)
                past += reports.text(x)
            r.append([w, i + 1, [[y[0], y[0].lower()] for y in links(['#', {}, after])]])
    return r


def boxes(node, ids):
    return [{'id': int(reports.text(reports.find(n, reports.klass('ident'))[0])), 'hl': pointed(n, ids)}
            for box in reports.find(node, reports.klass('complaints'), False)
            for n in reports.find(box, lambda x: reports.cls(x).startswith('notice '), False)]


def worded(exch):
    """{where: [id, variable parts of the title in lower case]} of the text report."""
    import httpolice
    buf = io.BytesIO()
    httpolice.text_report([exch], buf)
    got = {'req': []}
    got.update((str(k + 1), []) for k in range(len(exch.responses)))
    places = [str(k + 1) for k, r in enumerate(exch.responses) if r.notices]
    at = 'req'
    for line in buf.getvalue().decode('utf-8').split('\n'):
        if line.startswith('------------ response'):
            at = places.pop(0)
        m = re.match(r'[ECD] (\d+) (.*)$', line)
        if m:
            i = int(m.group(1))
            f = None
            if c36.table.memo.get(i) is not None:
                f = next((f for f in (c36.table.memo[i].match(a + m.group(2) + b) for a in ('', ' ') for b in ('', ' ')) if f is not None), None)
            got[at].append((i, [x.lower() for x in f.groups()] if f else []))
    return got


def observe(ex):
    import httpolice
    exch = exrun.build(ex, None)
    httpolice.check_exchange(exch)
    buf = io.BytesIO()
    httpolice.html_report([exch], buf)
    p = reports.Reader()
    p.feed(buf.getvalue().decode('utf-8'))
    p.close()
    words = worded(exch)
    own = len(exch.notices)
    got, shown, astray, mine = {w: [] for w in words}, [], [], []
    for div in reports.find(p.root, reports.klass('exchange')):
        ids, shown = parts(div, exch.request is not None)
        for k, sec in enumerate(reports.find(div, reports.tag('section'), False)):
            w = 'req' if exch.request is not None and k == 0 else str(k + (0 if exch.request is not None else 1))
            bs = boxes(sec, ids)
            ws = words[w][:len(bs)] if own else words[w]
            if [b['id'] for b in bs] != [i for i, _ in ws]:
                astray.append(w)
                continue
            got[w] = [dict(b, low=low) for b, (_, low) in zip(bs, ws)]
        mine += [x for b in boxes(div, ids) for x in b['hl']]
    linked = [x for div in reports.find(p.root, reports.klass('exchange')) for x in named(div, exch.request is not None)]
    others = sorted({tuple(x) for div in reports.find(p.root, reports.klass('exchange')) for x in links(div)})
    values = [x for div in reports.find(p.root, reports.klass('exchange')) for x in valued(div, exch.request is not None)]
    return {'got': got, 'shown': shown, 'own': mine, 'astray': astray, 'linked': linked, 'values': values, 'links': [list(x) + [x[0].lower()] for x in others]}


def record(ex):
    res = guarded(observe, ex)
    clean = copy.deepcopy(ex)
    clean.pop('name', None)
    for m in messages(clean):
        del m['bodytext']
        m.pop('reasontext', None)
    return dict({'ex': clean, 'exc': '' if res[0] == 'ok' else res[1]}, **(res[1] if res[0] == 'ok' else {'got': {}, 'shown': [], 'own': [], 'astray': [], 'linked': [], 'values': [], 'links': []}))


def batch(args):
    c36.table.memo = c36.table.memo or c36.table()
    exs, seed = args
    out = []
    for k, ex in enumerate(exs):
        rng = random.Random('%s/%d' % (seed, k))
        exrun.concretize(ex, rng)
        out.append((record(ex), exrun.show(ex)))
    return out


def run(chk):
    exs = []
    for part in tmap(lambda s: rules.enumerate_scope(chk, s, chk.scale(400, 20000)), c36.SCOPES, 2):
        exs += rules.norm(part)
    focus = [f for pid in sorted(rules.FOCUS) for f in rules.FOCUS[pid]] + [{}]
    gens = [Gen(chk.rng, bad=b, few=few) for b, few in ((.12, 4), (.05, 3), (.25, 6), (.1, 8))]
    for k in range(chk.scale(8000, 150000)):
        exs.append(gens[k // len(focus) % len(gens)].exchange(**focus[k % len(focus)]))
    t = list(rules.table(chk.rng))
    exs += chk.rng.sample(t, min(len(t), chk.scale(2500, 100000)))
    for i in range(0, len(exs), 40000):
        parts_ = [(p, '%s/%d/%d/%d' % (chk.pid, chk.seed, i, k)) for k, p in enumerate(split_even(exs[i:i + 40000], 16))]
        recs = [x for part in pmap(batch, parts_) for x in part]
        for (rec, sh), bad in zip(recs, chk.judge('TraceRefs', 'INIT Init\nNEXT Next\n', [r for r, _ in recs])):
            if bad:
                chk.fail(bad, dict(sh, exc=rec['exc'], pointed={w: [[g['id']] + g['hl'] for g in gs if g['hl']] for w, gs in rec['got'].items()}))
        n = chk.notes.setdefault('notices_that_point_at_something', {})
        for rec, _ in recs:
            for gs in rec['got'].values():
                for g in gs:
                    if g['hl']:
                        n[str(g['id'])] = n.get(str(g['id']), 0) + 1
        chk.sample(recs[0][1])
