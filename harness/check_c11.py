"""C11: deduplication and silencing."""
import silencing as S

ENV = 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT NoRepetition\nINVARIANT StaysSilent\nINVARIANT Commute\nINVARIANT Idempotent\nPROPERTY Isolation\nCONSTANT MaxLen = %d\n'


VIAS = ['', 'entry', 'param', 'bytes', '']


def translate(rng, ops, exchs):
    """Operations on the objects of NoticesEnv as operations on real exchanges."""
    base, objs = 0, {}
    for n, (t, lines) in enumerate(exchs):
        f = S.finds(S.TEMPLATES[t], lines)
        objs[n] = (base, f)
        base += len(f)
    found = [i for n in objs for l in objs[n][1] for i in l] or [1000]
    ids = {1: rng.choice(found), 2: rng.choice(found), 3: rng.choice([1000, 1010, 1200])}
    # model objects: 1 exchange, 2 request, 3 response | 4 exchange, 5 response
    def obj(o):
        n, k = (0, o - 1) if o <= 3 else (1, o - 4)
        b, f = objs[n]
        return b + 1 + (0 if k == 0 else rng.randrange(1, len(f)) if k > len(f) - 1 or rng.random() < .5 else k)
    memo = {}
    out = []
    for x in ops:
        y = dict(x, o=memo.setdefault(x['o'], obj(x['o'])))
        if 'id' in y:
            y['id'] = ids[y['id']]
        if 'ids' in y:
            y['ids'] = [ids[i] for i in y['ids']]
            y['as'] = rng.choice(S.KINDS)
        out.append(y)
    return out


def run(chk):
    rng = chk.rng
    r = chk.explore('NoticesEnv', ENV % chk.scale(3, 4), workers=4)
    seqs = sorted(r.prints, key=str)
    chk.notes['operation_sequences_enumerated'] = len(seqs)
    cases = []
    nt = len(S.TEMPLATES)
    share = seqs if len(seqs) <= chk.scale(4000, 60000) else rng.sample(seqs, chk.scale(4000, 60000))
    for ops in share:
        exchs = [[t, [[] for _ in range(S.n_messages(S.TEMPLATES[t]))]] for t in (rng.randrange(nt), rng.randrange(nt))]
        cases.append({'exchs': exchs, 'ops': translate(rng, ops, exchs), 'via': rng.choice(VIAS)})
    for _ in range(chk.scale(2500, 60000)):
        exchs = [[t, [[] for _ in range(S.n_messages(S.TEMPLATES[t]))]] for t in (rng.randrange(nt) for _ in range(rng.choice([1, 2, 3])))]
        fs = [S.finds(S.TEMPLATES[t], l) for t, l in exchs]
        total = sum(len(f) for f in fs)
        starts = []
        for f in fs:
            starts.append(starts[-1] + n if starts else 1)
            n = len(f)
        found = [i for f in fs for l in f for i in l] + [1000, 1010, 1277]
        ops = []
        for _ in range(rng.randint(3, 10)):
            k = rng.random()
            if k < .3:
                ops.append({'op': 'check', 'o': rng.choice(starts)})
            elif k < .65:
                ops.append({'op': 'silence', 'o': rng.randint(1, total), 'ids': [rng.choice(found) for _ in range(rng.randint(0, 4))], 'as': rng.choice(S.KINDS)})
            else:
                ops.append({'op': 'complain', 'o': rng.randint(1, total), 'id': rng.choice(found), 'about': rng.choice('abc')})
        cases.append({'exchs': exchs, 'ops': ops, 'via': rng.choice(VIAS)})
    S.run(chk, cases)
