"""C34: what is unknown only disables checks."""
import copy
import random

import exgen
import exrun
import rules
from vlib import guarded, pmap, split_even, tmap

ENV = 'INIT Start\nNEXT Step\nINVARIANT OnlyDisables\n%sCONSTANTS ScopeName = "%s"\n Part = %d\n Parts = %d\n Emitting = FALSE\n Depth = %d\n Share = %d\n'
#: about how many exchanges there are
SCOPES = {'c20-framing': 23232, 'c20-host': 3840, 'c21': 14896, 'c22-pairs': 4704, 'c22-headers': 27456, 'c23-pair': 74892, 'c24-range': 105228, 'c25-conn': 29568, 'c25-upgrade': 139896, 'c26-cred': 10890, 'c26-chal': 1920, 'c27-uri': 23328, 'c27-proxy': 10560, 'c28': 27914}


def facts(ex):
    r = []
    if 'none' not in ex['req']:
        m = ex['req']
        r += [f for f, known in (('ver', m['ver'] != '-'), ('scheme', m['scheme'] != '-'), ('body', m['body']['st'] != 'unknown'), ('content', m['body']['st'] == 'some')) if known]
        r = [{'w': 'req', 'f': f} for f in r]
        if ex['resps']:
            r.append({'w': 'req', 'f': 'all'})
    for k, m in enumerate(ex['resps']):
        r += [{'w': str(k + 1), 'f': f} for f, known in (('ver', m['ver'] != '-'), ('reason', m['reasontext'] is not None), ('body', m['body']['st'] != 'unknown'),
                                                        ('content', m['body']['st'] == 'some')) if known]
    return r


def lose(ex, x):
    from httpolice.structure import Unavailable
    ex = copy.deepcopy(ex)
    if x['f'] == 'all':
        ex['req'] = {'none': True}
        return ex
    m = ex['req'] if x['w'] == 'req' else ex['resps'][int(x['w']) - 1]
    if x['f'] == 'ver':
        m['ver'] = '-'
    elif x['f'] == 'scheme':
        m['scheme'] = '-'
    elif x['f'] == 'reason':
        m['reasontext'], m['rok'] = None, True
    else:
        m['body'] = {'st': 'unknown' if x['f'] == 'body' else 'unavail', 'kind': 'text', 'pairs': [], 'parts': []}
        m['bodytext'] = None if x['f'] == 'body' else Unavailable()
    return ex


def chain(ex, rng):
    exrun.concretize(ex, rng)
    steps, seq = [], [ex]
    for _ in range(rng.choice([1, 2, 3, 4, 9])):
        fs = facts(seq[-1])
        if len(fs) > 1 and rng.random() < .8:
            fs = [f for f in fs if f['f'] != 'all'] or fs
        if not fs:
            break
        steps.append(rng.choice(fs))
        seq.append(lose(seq[-1], steps[-1]))
    clean = copy.deepcopy(ex)
    clean.pop('name', None)
    for m in exgen.messages(clean):
        del m['bodytext']
        m.pop('reasontext', None)
    res = [guarded(exrun.observe, e) for e in seq]
    return {'ex': clean, 'steps': steps, 'obs': [r[1] if r[0] == 'ok' else {} for r in res], 'exc': ['' if r[0] == 'ok' else r[1] for r in res]}, exrun.show(ex)


def batch(args):
    exs, seed = args
    return [chain(ex, random.Random('%s/%d' % (seed, k))) for k, ex in enumerate(exs)]


def scope(chk, name):
    want = chk.scale(700, 20000)
    total = SCOPES[name]
    parts = max(1, -(-total // want))
    r = chk.tlc('UnknownEnv', ENV % ('INVARIANT Emitted\n', name, chk.seed % parts, parts, chk.scale(2, 3), chk.scale(12, 20)), workers=2, heap='2g')
    chk.notes.setdefault('scopes', {})[name] = {'exchanges_in_scope': total, 'chains_started': len(r.prints), 'share': '1/%d' % parts}
    return rules.norm(r.prints)


def run(chk):
    rng = chk.rng
    exs = [x for part in tmap(lambda s: scope(chk, s), SCOPES, 4) for x in part]
    gens = [exgen.Gen(rng, bad=b, few=few) for b, few in ((.12, 4), (.05, 3), (.25, 6), (.1, 8))]
    foci = [f for fs in rules.FOCUS.values() for f in fs]
    for k in range(chk.scale(6000, 200000)):
        exs.append(gens[k % 4].exchange(**(rng.choice(foci) if k % 3 else {})))
    parts = [(p, '%s/%d/%d' % (chk.pid, chk.seed, k)) for k, p in enumerate(split_even(exs, 32))]
    recs = [x for part in pmap(batch, parts) for x in part]
    for k in range(0, len(recs), 40000):
        some = recs[k:k + 40000]
        verdicts = chk.judge('TraceUnknown', 'INIT Init\nNEXT Next\n', [r for r, _ in some])
        for (rec, sh), bad in zip(some, verdicts):
            if bad:
                chk.fail(bad, dict(sh, steps=rec['steps'], obs=rec['obs'], exc=rec['exc']))
    chk.notes['chains'] = len(recs)
    chk.notes['steps'] = sum(len(r['steps']) for r, _ in recs)
    for rec, sh in recs[-3:]:
        chk.sample(dict(sh, steps=rec['steps']))
