"""C10: header grammars.  Sentences and near-sentences of spec/Grammars.tla, and TLC-enumerated
sequences of fragments, each judged by TLC against the grammar."""
import headers
from lexgen import Lex, WORDS

IDS = {1000}
DELIMS = [',', ' ', ';', '=', '"', '/', '\\']
ODD = ['*', '(', ')', ':', '-', '<', '>', '@', '[', ']', '\t', '.', '%41', 'W/', '?', '#', "'", '\xe9', '\x00']


def fragment_cases(chk, lex, per_element):
    seqs = sorted(chk.explore('FragEnv', 'INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS K = 11\n MaxLen = %d\n' % 4).prints)
    rng = chk.rng
    out = []
    for el in sorted(lex.el):
        name = el[2:].replace('_', '-') if el.startswith('h_') else 'x'
        words = WORDS.get(name) or ['a', '1', 'en', 'http', 'x', '0']
        if per_element >= len(seqs):
            chosen = seqs
        else:
            chosen = rng.sample(seqs, per_element)
        w = [rng.choice(words), rng.choice(words + ['1', 'q=0.5', '"a"', 'a/b']), rng.choice(ODD), rng.choice(ODD)]
        for k, f in enumerate(chosen):
            if k % 25 == 0:
                w = [rng.choice(words), rng.choice(words + ['1', 'q=0.5', '"a"', 'a/b']), rng.choice(ODD), rng.choice(ODD)]
            text = ''.join((DELIMS + w)[x - 1] for x in f)
            if name == 'httpolice-silence' and headers.HIDING.search(text):
                continue
            out.append(headers.case(el, [text], rng))
    chk.notes['fragment_sequences'] = {'enumerated': len(seqs), 'per_element': min(per_element, len(seqs))}
    return out


def boundary_cases(chk, lex, per_node):
    """Every node of every grammar taken to, and one step past, its edges."""
    out = {}
    for el, text in lex.boundary(per_node):
        name = el[2:].replace('_', '-') if el.startswith('h_') else 'x'
        if not (name == 'httpolice-silence' and headers.HIDING.search(text)):
            out[el, text] = headers.case(el, [text], chk.rng)
    chk.notes['edges_of_grammar_nodes'] = len(out)
    return list(out.values())


def run(chk):
    lex = Lex(chk.rng, headers.grammar_dump(chk))
    cs = headers.cases(chk, None, chk.scale(26000, 500000), mutated=.55, lex=lex)
    cs += fragment_cases(chk, lex, chk.scale(120, 100000))
    cs += boundary_cases(chk, lex, chk.scale(2, 1000))
    chk.sample(repr(bytes(cs[7]['es'][0])))
    headers.run(chk, IDS, cs)
