"""C08: the grammar engine."""
import random
import signal

from vlib import guarded, pmap, split_even

ENV = 'INIT Init\nNEXT Next\nCONSTRAINT Bound\nINVARIANT Emit\nINVARIANT Agree\nINVARIANT Reaches\nCONSTANT MaxNodes = %d\nCONSTANT MaxInput = %d\n'


def V(t, vs=(), c='', k=0):
    return {'t': t, 'vs': list(vs), 'c': [ord(x) for x in c], 'k': k}


class Ann(str):
    pass


# ------------------------------------------------- building grammars in the code

def p_group(p, sym):
    """A symbol with one rule, which does not depend on rules set later."""
    return (lambda x: x) << p.SimpleNonterminal(rules=[p.Rule((sym,))], is_ephemeral=True)


class Builder:
    """Builds a symbol of httpolice.parse for a grammar, which gives derivation trees; equivalent forms are chosen at random."""

    def __init__(self, env, rng):
        from httpolice import parse
        self.p, self.rng = parse, rng
        self.refs = [parse.recursive() for _ in env]
        for r, g in zip(self.refs, env):
            r.name = 'ref'
        for r, g in zip(self.refs, env):
            r.rec = p_group(self.p, self.build(g))

    def seal(self, sym):
        k = self.rng.random()
        if k < .15:
            return sym > self.p.named('sealed')
        if k < .3:
            return sym > self.p.named('pivot', is_pivot=True)
        if k < .4:
            return self.p.group(sym)
        return sym

    def term(self, cs):
        p, rng = self.p, self.rng
        xs = sorted(set(cs))
        if rng.random() < .4 and xs == list(range(xs[0], xs[-1] + 1)):
            t = p.octet_range(xs[0], xs[-1])
        else:
            rng.shuffle(xs)
            t = p.octet(xs[0])
            for x in xs[1:]:
                t = t | p.octet(x)
        if rng.random() < .2:
            t = (t | p.octet_range(0, 255)) - p.octet_range(0, 255) | t
        if rng.random() < .2:       # taking away what is not there, too
            for y in rng.sample(range(256), 3) + [xs[0] ^ 1, xs[-1] ^ 3]:
                if y not in xs:
                    t = t - p.octet(y)
        if rng.random() < .2:
            t = t > p.named('terminal')
        return t

    def string(self, g):
        """A symbol whose result is text."""
        p, rng = self.p, self.rng
        cs = ''.join(map(chr, g['cs']))
        if g['t'] == 'lit':
            if g['lo']:
                return p.literal(cs)
            return p.case_sens(cs)
        t = self.term(g['cs'])
        if g['t'] == 'x':
            return p.string_excluding(t, [''.join(map(chr, x)) for x in g['xs']])
        hi = None if g['hi'] < 0 else g['hi']
        if hi is None and rng.random() < .7:
            if g['lo'] == 0:
                return p.string(t)
            if g['lo'] == 1:
                return p.string1(t)
        if g['lo'] == 0 and hi == 1 and rng.random() < .5:
            return p.maybe_str(t)
        return p.string_times(g['lo'], hi, t)

    def build(self, g):
        return self.seal(self.raw(g))

    def concat(self, g):
        p, rng = self.p, self.rng
        parts = [p.skip(self.build(x['gs'][0])) if x['t'] == 'k' else self.build(x) for x in g['gs']]
        if rng.random() < .3 and len(parts) > 2:            # associate to the right
            r = parts[-1]
            for x in reversed(parts[:-1]):
                r = x * r
        else:
            r = parts[0]
            for x in parts[1:]:
                r = r * x
        return r

    def raw(self, g):
        p, rng, t = self.p, self.rng, g['t']
        if t == 'c':
            return (lambda x: V('c', c=x)) << self.term(g['cs'])
        if t in ('lit', 't', 'x'):
            return (lambda x: V(t, c=x)) << self.string(g)
        if t == 'z':
            return (lambda x: V('z', c=x)) << (Ann << self.string(g['gs'][0]))
        if t == 'n':
            return self.refs[g['lo'] - 1]
        if t == 's':
            return (lambda *xs: V('s', xs)) << self.concat(g)
        if t == 'a':
            def tag(k):
                return lambda x: V('a', [x], k=k + 1)
            alts = [tag(k) << self.build(x) for k, x in enumerate(g['gs'])]
            r = alts[0]
            for x in alts[1:]:
                r = r | (x if rng.random() < .8 else p.group(x))
            return r
        if t == 'm':
            return p.maybe((lambda x: V('m', [x])) << self.build(g['gs'][0]), V('none'))
        if t == 'r':
            g1 = g['gs'][0]
            # the repeated symbol may give several values, which are then a tuple
            several = g1['t'] == 's' and sum(x['t'] != 'k' for x in g1['gs']) > 1 and rng.random() < .5
            inner = self.concat(g1) if several else self.build(g1)
            hi = None if g['hi'] < 0 else g['hi']
            if hi is None and g['lo'] == 0 and rng.random() < .7:
                r = p.many(inner)
            elif hi is None and g['lo'] == 1 and rng.random() < .6:
                r = p.many1(inner) if rng.random() < .5 else inner % p.many(inner)
            else:
                r = p.times(g['lo'], hi, inner)
            return (lambda xs: V('r', [V('s', x) for x in xs] if several else xs)) << r
        if t == 'w':
            @p.can_complain
            def action(complain, x, k=g['lo']):
                complain(k, at=k)
                return V('w', [x], k=k)
            return action << self.build(g['gs'][0])
        raise ValueError(t)


SLOW = 2      # seconds; only very ambiguous grammars take longer, and are dropped


class Slow(Exception):
    pass


def tick(*_):
    raise Slow('no result')


def flat(v):
    return {'t': v['t'], 'vs': [flat(x) for x in v['vs']], 'c': v['c'], 'k': v['k']}


def parse_one(symbol, s, annotated):
    from httpolice.parse import ParseError, parse
    r = {'s': list(s), 'ok': False, 'v': V(''), 'ids': [], 'annotated': annotated, 'anns': [], 'joined': [], 'pos': 0, 'eod': False, 'found': [], 'exc': ''}
    ids = []
    signal.signal(signal.SIGALRM, tick)
    signal.alarm(SLOW)
    try:
        v = parse(bytes(s), symbol, lambda i, **_: ids.append(i), None, annotate_classes=[Ann] if annotated else None)
        if annotated:
            v, pieces = v
            r['anns'] = [[ord(c) for c in x] for x in pieces if isinstance(x, Ann)]
            r['joined'] = [c for x in pieces for c in (x.encode('latin-1') if isinstance(x, str) else x)]
        r.update(ok=True, v=flat(v), ids=ids)
    except ParseError as e:
        r.update(pos=e.position, eod='end of data' in [d for d, _ in e.expected], found=list(e.found or b''))
    except Slow:
        return None
    except Exception as e:      # pylint: disable=broad-except
        r['exc'] = '%s: %.100s' % (type(e).__name__, e)
    finally:
        signal.alarm(0)
    return r


# --------------------------------------------------------------- random grammars

def node(t, gs=(), lo=0, hi=0, cs=(), xs=()):
    return {'t': t, 'gs': list(gs), 'lo': lo, 'hi': hi, 'cs': list(cs), 'xs': [list(x) for x in xs]}


def rand_string(rng):
    k = rng.randrange(4)
    if k == 0:
        return node('lit', lo=rng.randrange(2), cs=[rng.choice(b'abc,') for _ in range(rng.randint(1, 3))])
    if k == 1:
        return node('x', hi=-1, cs=b'abAB,' if rng.random() < .5 else b'aAbB', xs=[list(rng.choice([b'', b'a', b'b', b'ab', b'ba', b'aab', b'aa'])) for _ in range(rng.randint(1, 3))])
    lo = rng.randrange(3)
    return node('t', lo=lo, hi=rng.choice([-1, max(lo, 1), lo + 2]), cs=rng.choice([b'a', b'ab', b'abc', b',', b'abA']))


def rand_grammar(rng, depth, nrefs, quiet=False):
    k = rng.random()
    if depth == 0 or k < .15:
        k = rng.random()
        if k < .4:
            return node('c', cs=rng.choice([b'a', b'b', b'ab', b'abc', b',', b'A']))
        if k < .6 and nrefs:
            return node('n', lo=rng.randint(1, nrefs))
        if k < .7 and not quiet:
            return node('z', [rand_string(rng)])
        return rand_string(rng)
    sub = lambda q=quiet: rand_grammar(rng, depth - 1, nrefs, q)
    k = rng.randrange(10)
    if k < 4:
        parts = []
        for _ in range(rng.randint(1, 4)):
            parts.append(node('k', [sub(True)]) if rng.random() < .25 else sub())
        return node('s', parts)
    if k < 6:
        return node('a', [sub() for _ in range(rng.randint(2, 3))])
    if k == 6:
        return node('m', [sub()])
    if k < 9:
        lo = rng.choice([0, 0, 0, 1, 1, 2])
        return node('r', [sub()], lo=lo, hi=rng.choice([-1, -1, max(lo, 1), lo + 1, lo + 2]))
    return sub() if quiet else node('w', [sub()], lo=rng.randint(1, 5))


def loud(g, env, seen=()):
    """Does the grammar report or annotate anything?"""
    if g['t'] in 'wz':
        return True
    if g['t'] == 'n':
        return g['lo'] not in seen and loud(env[g['lo'] - 1], env, seen + (g['lo'],))
    return any(loud(x, env, seen) for x in g['gs'])


def skips_loud(g, env):
    return (g['t'] == 'k' and loud(g, env)) or any(skips_loud(x, env) for x in g['gs'])


def productive(g, good):
    t = g['t']
    if t == 'n':
        return g['lo'] in good
    if t == 'm' or (t == 'r' and g['lo'] == 0):
        return all_useful(g['gs'][0], good) or True
    if t == 'a':
        return any(productive(x, good) for x in g['gs'])
    return all(productive(x, good) for x in g['gs'])


def all_useful(g, good):
    """Every part derives something."""
    return productive(g, good) and all(all_useful(x, good) for x in g['gs'])


def usable(env, g):
    good = set()
    for _ in range(len(env) + 1):
        good |= {k + 1 for k, x in enumerate(env) if productive(x, good)}
    return len(good) == len(env) and not left_recursive(env) and all(all_useful(x, good) for x in env + [g]) and not any(skips_loud(x, env) for x in env + [g])


def nullable(g, nul):
    t = g['t']
    if t in ('c', 'lit'):
        return False
    if t == 'n':
        return g['lo'] in nul
    if t == 'm':
        return True
    if t == 'r':
        return g['lo'] == 0 or nullable(g['gs'][0], nul)
    if t == 't':
        return g['lo'] == 0
    if t == 'x':
        return [] not in g['xs']
    return (any if t == 'a' else all)(nullable(x, nul) for x in g['gs'])


def lefts(g, nul):
    """The nonterminals with which a derivation may begin."""
    if g['t'] == 'n':
        return {g['lo']}
    out = set()
    for x in g['gs']:
        out |= lefts(x, nul)
        if g['t'] == 's' and not nullable(x, nul):
            break
    return out


def left_recursive(env):
    nul = set()
    for _ in env:
        nul |= {k + 1 for k, x in enumerate(env) if nullable(x, nul)}
    reach = {k + 1: lefts(x, nul) for k, x in enumerate(env)}
    for _ in env:
        reach = {k: r.union(*(reach[x] for x in r)) for k, r in reach.items()}
    return any(k in r for k, r in reach.items())


def generate(g, env, rng, fuel):
    """A string of the language, or nearly; fuel bounds recursion."""
    t = g['t']
    if fuel[0] <= 0:
        return b''
    fuel[0] -= 1
    sub = lambda x: generate(x, env, rng, fuel)
    if t == 'c':
        return bytes([rng.choice(g['cs'])])
    if t == 'lit':
        s = bytes(g['cs'])
        return s.upper() if g['lo'] and rng.random() < .3 else s
    if t in ('t', 'x'):
        n = rng.randint(g['lo'], g['hi'] if g['hi'] >= 0 else g['lo'] + 2)
        return bytes(rng.choice(g['cs']) for _ in range(n))
    if t == 'n':
        return sub(env[g['lo'] - 1])
    if t == 'a':
        return sub(rng.choice(g['gs']))
    if t == 'm':
        return sub(g['gs'][0]) if rng.random() < .5 else b''
    if t == 'r':
        return b''.join(sub(g['gs'][0]) for _ in range(rng.randint(g['lo'], g['hi'] if g['hi'] >= 0 else g['lo'] + 2)))
    return b''.join(sub(x) for x in g['gs'])


SHORT = [bytes(x) for n in range(4) for x in __import__('itertools').product(b'ab', repeat=n)]


def mutate(s, rng):
    s = bytearray(s)
    for _ in range(rng.randint(1, 2)):
        k = rng.randint(0, len(s))
        c = rng.choice(b'abcA,Bx\xff\x00')
        if rng.random() < .4 and k < len(s):
            del s[k]
        elif rng.random() < .5 and k < len(s):
            s[k] = c
        else:
            s.insert(k, c)
    return bytes(s)


def one(item, rng):
    if item is None:
        while True:
            nrefs = rng.choice([0, 0, 1, 1, 2])
            env = [rand_grammar(rng, rng.randint(1, 3), nrefs) for _ in range(nrefs)]
            g = rand_grammar(rng, rng.randint(1, 4), nrefs)
            if usable(env, g) and count(g) + sum(map(count, env)) < 30:
                break
        inputs = set(rng.sample(SHORT, 3))
        for _ in range(12):
            s = generate(g, env, rng, [60])
            inputs.add((s if rng.random() < .6 else mutate(s, rng))[:10])
    else:
        env, g, inputs = [item], item, set(SHORT) | {b'AB', b'aB', b'abab', b'c', b'aaaa'}
    symbol = Builder(env, rng).build(g)
    runs = [parse_one(symbol, s, rng.random() < .5) for s in sorted(inputs)]
    return {'env': env, 'g': g, 'runs': [r for r in runs if r]}


def count(g):
    return 1 + sum(map(count, g['gs']))


def batch(args):
    seed, items = args
    out = []
    for n, it in items:
        res = guarded(one, it, random.Random('%s/%d' % (seed, n)))
        out.append(res[1] if res[0] == 'ok' else {'env': [], 'g': node('c', cs=b'a'), 'runs': [dict({'s': [], 'ok': False, 'v': V(''), 'ids': [], 'annotated': False, 'anns': [], 'joined': [], 'pos': 0, 'eod': False, 'found': []}, exc=res[1])]})
    return out


def show(g):
    t, cs = g['t'], bytes(g['cs']).decode('latin-1')
    inner = ' '.join(show(x) for x in g['gs'])
    return {'c': '[%s]' % cs, 'lit': '"%s"%s' % (cs, '/i' if g['lo'] else ''), 't': '[%s]{%d,%d}' % (cs, g['lo'], g['hi']), 'x': '[%s]* but not %s' % (cs, [bytes(x).decode() for x in g['xs']]),
            'n': '<%d>' % g['lo'], 's': '(%s)' % inner, 'a': '(%s)' % ' | '.join(show(x) for x in g['gs']), 'm': '(%s)?' % inner, 'r': '(%s){%d,%d}' % (inner, g['lo'], g['hi']),
            'k': 'skip(%s)' % inner, 'w': 'notice%d(%s)' % (g['lo'], inner), 'z': 'annotated(%s)' % inner}[t]


def run(chk):
    rng = chk.rng
    r = chk.explore('EngineEnv', ENV % chk.scale((5, 2), (6, 3)), workers=8, heap='4g')
    small = sorted(r.prints, key=str)
    chk.notes['grammars_enumerated'] = len(small)
    lim = chk.scale(1500, 20000)
    if len(small) > lim:
        small = rng.sample(small, lim)
    items = list(enumerate(small + [None] * chk.scale(2500, 60000)))
    recs = [x for part in pmap(batch, [('%s/%d' % (chk.pid, chk.seed), p) for p in split_even(items, 32)]) for x in part]
    chk.notes['parses'] = sum(len(r['runs']) for r in recs)
    chk.notes['parses_accepted'] = sum(x['ok'] for r in recs for x in r['runs'])
    verdicts = chk.judge('TraceEngine', 'INIT Init\nNEXT Next\n', recs)
    for rec, bad, x in zip(recs, verdicts, chk.extra):
        if bad:
            k = x['at'][0] - 1 if x['at'] else 0
            run_ = rec['runs'][k]
            chk.fail(bad, {'grammar': show(rec['g']), 'rules': [show(e) for e in rec['env']], 'input': repr(bytes(run_['s'])), 'accepted': run_['ok'], 'position': run_['pos'], 'exc': run_['exc'], 'tree': str(run_['v'])[:300]})
    for rec in recs[-3:]:
        chk.sample({'grammar': show(rec['g']), 'rules': [show(e) for e in rec['env']], 'inputs': [repr(bytes(x['s'])) for x in rec['runs']][:6]})
