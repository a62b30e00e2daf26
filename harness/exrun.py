"""Running check_exchange on abstract exchanges and having TLC judge the result."""
import collections
import copy

from exgen import Render, messages
from vlib import guarded, pmap, split_even

BADREASON = ['a\x00b', '\x01', 'O\x7fK']


def build(ex, r):
    import httpolice
    def entries(m, t):
        return [(e['name'], e['raw'].encode('iso-8859-1')) for e in m['hdrs'] if e['t'] is t]
    req = None
    if 'none' not in ex['req']:
        m = ex['req']
        req = httpolice.Request(None if m['scheme'] == '-' else m['scheme'], m['method'], m['tgt']['text'],
                                None if m['ver'] == '-' else m['ver'], entries(m, False), m['bodytext'], entries(m, True))
    resps = []
    for m in ex['resps']:
        resps.append(httpolice.Response(None if m['ver'] == '-' else m['ver'], m['status'], m['reasontext'],
                                        entries(m, False), m['bodytext'], entries(m, True)))
    return httpolice.Exchange(req, resps)


def counts(obj):
    return sorted([i, n] for i, n in collections.Counter(c.id for c in obj.notices).items())


def observe(ex):
    import httpolice
    exch = build(ex, None)
    httpolice.check_exchange(exch)
    obs = {'req': counts(exch.request) if exch.request is not None else []}
    for k, m in enumerate(exch.responses):
        obs[str(k + 1)] = counts(m)
    obs['exch'] = sorted([c.id, 1] for c in exch.notices)
    return obs


def concretize(ex, rng, wild=True, now=None):
    r = Render(rng, wild)
    r.now = r.now if now is None else now
    r.render(ex)
    for m in messages(ex):
        m['bodytext'] = r.body(m)
        if m['kind'] == 'resp':
            m['reasontext'] = (rng.choice(['OK', '', None, 'Not Found', 'a\tb', '\xe9']) if m['rok'] else rng.choice(BADREASON))
    return ex


def record(ex):
    res = guarded(observe, ex)
    clean = copy.deepcopy(ex)
    clean.pop('name', None)
    for m in messages(clean):
        del m['bodytext']
        m.pop('reasontext', None)
    return {'ex': clean, 'exc': '' if res[0] == 'ok' else res[1],
            'obs': res[1] if res[0] == 'ok' else {}}


def _batch(args):
    exs, seed = args
    import random
    out = []
    for k, ex in enumerate(exs):
        rng = random.Random('%s/%d' % (seed, k))
        concretize(ex, rng)
        out.append((record(ex), show(ex)))
    return out


def show(ex):
    def m1(m):
        first = ('%s %s %s scheme=%s' % (m['method'], m['tgt']['text'], m['ver'], m['scheme'])) if m['kind'] == 'req' else \
            '%s %s %r' % (m['ver'], m['status'], m['reasontext'])
        return {'start': first, 'headers': ['%s%s: %s' % ('[trailer] ' if e['t'] else '', e['name'], e['raw']) for e in m['hdrs']],
                'body': repr(m['bodytext'])}
    r = {'request': None if 'none' in ex['req'] else m1(ex['req']), 'responses': [m1(m) for m in ex['resps']]}
    if 'name' in ex:
        r['name'] = ex['name']
    return r


def tlaset(ids):
    return '{' + ', '.join(str(i) for i in sorted(ids)) + '}'


def run_exchanges(chk, exs, ids, keep=None, module='TraceRules'):
    """Run and judge; `ids` are the notices this property is about."""
    parts = [(p, '%s/%d/%d' % (chk.pid, chk.seed, k)) for k, p in enumerate(split_even(exs, 16))]
    recs = [x for part in pmap(_batch, parts) for x in part]
    verdicts = chk.judge(module, 'INIT Init\nNEXT Next\nCONSTANT Ids = %s\n' % tlaset(ids), [r for r, _ in recs])
    fired = collections.Counter()
    for (rec, _), v in zip(recs, chk.extra):
        for i in v.get('exp', []):
            fired[i] += 1
    for (rec, sh), bad in zip(recs, verdicts):
        if bad:
            chk.fail(bad, dict(sh, exc=rec['exc']))
    chk.notes['exchanges'] = chk.notes.get('exchanges', 0) + len(recs)
    for i, n in fired.items():
        d = chk.notes.setdefault('expected_notice_counts', {})
        d[str(i)] = d.get(str(i), 0) + n
    missing = [i for i in ids if str(i) not in chk.notes.get('expected_notice_counts', {})]
    chk.notes['notices_never_expected'] = missing
    if recs:
        chk.sample(recs[0][1])
        chk.sample(recs[-1][1])
