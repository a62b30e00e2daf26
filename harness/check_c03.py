"""C03: truncation at every octet."""
import framing
from envgen import gen
from render import Renderer

CFG = framing.CFG + 'INVARIANT InvCut\n'


def run(chk):
    g = gen(chk, methods=['GET', 'HEAD'], reqf=['none', 'cl', 'chunkedtrl'], statuses=[100, 200],
            respf=['cl', 'chunked', 'chunkedtrl', 'close', 'gzchunked', 'none'], tails=['', 'qr'], maxreq=1, maxresp=2)
    chk.rng.shuffle(g)
    r = Renderer(chk.rng)
    cases = []
    limit = chk.scale(9000, 60000)
    n = 0
    for x in g:
        c = r.connection(x)
        if len(c['i']) + len(c['o']) > 500:
            continue
        full = dict(c, fi=c['i'], fo=c['o'])
        for k in range(len(c['i'])):
            cases.append(dict(full, i=c['i'][:k]))
        for k in range(len(c['o'])):
            cases.append(dict(full, o=c['o'][:k]))
        for _ in range(10):
            cases.append(dict(full, i=c['i'][:chk.rng.randrange(len(c['i']) + 1)],
                              o=c['o'][:chk.rng.randrange(len(c['o']) + 1)]))
        n += 1
        if len(cases) > limit:
            break
    chk.notes['connections_cut_at_every_octet'] = n
    chk.sample(framing.show(cases[5]))
    framing.run_cases(chk, cases, module='TraceCut', cfg=CFG)
