"""C12: HTTPolice-Silence headers."""
import silencing as S


def line(rng, ids):
    items = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        i = str(rng.choice(ids)) if rng.random() < .85 else str(rng.choice([1, 9998, 99999999999]))
        if rng.random() < .08:
            i = '00' + i
        if rng.random() < .4:
            i += rng.choice([' ', ' ', '\t', '  ']) + rng.choice(['resp', 'resp', 'Resp', 'RESP'])
        elif rng.random() < .08:
            i += rng.choice([' req', 'resp', ' resp resp', ';resp', ' resp=1', 'x', '.0', '-'])
        items.append(i)
    s = rng.choice([',', ', ', ' , ', ',,', ', ,\t']).join(items)
    if rng.random() < .15:
        s = rng.choice([',' + s, s + ',', s + ' ,', '', ',', s + ' x', '-' + s, '"' + s + '"', 'all', s.replace(',', ' '), '*', '+' + s])
    return s.encode()


def run(chk):
    rng = chk.rng
    cases = []
    for _ in range(chk.scale(5000, 150000)):
        exchs = []
        for t in (rng.randrange(len(S.TEMPLATES)) for _ in range(rng.choice([1, 1, 2]))):
            n = S.n_messages(S.TEMPLATES[t])
            ids = [i for l in S.finds(S.TEMPLATES[t], [[] for _ in range(n)]) for i in l] + [1010, 1000, 1277]
            exchs.append([t, [[line(rng, ids) for _ in range(rng.choice([0, 1, 1, 2]))] for _ in range(n)]])
        starts = []
        o = 1
        for t, _ in exchs:
            starts.append(o)
            o += S.n_messages(S.TEMPLATES[t]) + 1
        ops = [{'op': 'check', 'o': s} for s in starts]
        if rng.random() < .2:
            ops.append({'op': 'check', 'o': rng.choice(starts)})
        if rng.random() < .15:
            ops.insert(0, {'op': 'silence', 'o': rng.choice(starts), 'ids': [rng.choice([1000, 1031, 1110])], 'as': 'list'})
        cases.append({'exchs': exchs, 'ops': ops})
    S.run(chk, cases)
