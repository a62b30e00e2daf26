------------------------------- MODULE EngineEnv -------------------------------
(* Every small grammar, with every short input, built bottom-up on a stack.        *)
EXTENDS Engine, Json
CONSTANTS MaxNodes, MaxInput
VARIABLES vStack, vSize
A == INSTANCE Abnf
G(t, gs, l, h, c, x) == [t |-> t, gs |-> gs, lo |-> l, hi |-> h, cs |-> c, xs |-> x]
Leaves == {G("c", <<>>, 0, 0, <<97>>, <<>>), G("c", <<>>, 0, 0, <<97, 98>>, <<>>), G("lit", <<>>, 1, 0, <<97, 98>>, <<>>),
           G("t", <<>>, 0, -1, <<97>>, <<>>), G("t", <<>>, 1, 2, <<97, 98>>, <<>>), G("x", <<>>, 0, -1, <<97, 98, 65, 66>>, << <<97>>, <<97, 98>> >>), G("n", <<>>, 1, 0, <<>>, <<>>)}
Init == vStack = <<>> /\ vSize = 0
Top == vStack[Len(vStack)]
Below == vStack[Len(vStack) - 1]
Rest(n) == SubSeq(vStack, 1, Len(vStack) - n)
Unary(g) == {G("m", <<g>>, 0, 0, <<>>, <<>>), G("r", <<g>>, 0, -1, <<>>, <<>>), G("r", <<g>>, 1, 2, <<>>, <<>>), G("w", <<g>>, 1, 0, <<>>, <<>>)}
Binary(g, h) == {G("s", <<g, h>>, 0, 0, <<>>, <<>>), G("s", <<g, G("k", <<h>>, 0, 0, <<>>, <<>>)>>, 0, 0, <<>>, <<>>), G("a", <<g, h>>, 0, 0, <<>>, <<>>)}
RECURSIVE Plain(_)
Plain(g) == g.t \notin {"w", "n"} /\ \A k \in 1..Len(g.gs): Plain(g.gs[k])
Next == /\ vSize < MaxNodes /\ vSize' = vSize + 1
        /\ \/ \E l \in Leaves: vStack' = Append(vStack, l)
           \/ Len(vStack) > 0 /\ \E g \in Unary(Top): vStack' = Append(Rest(1), g)
           \/ Len(vStack) > 1 /\ \E g \in Binary(Below, Top): (\A k \in 1..Len(g.gs): g.gs[k].t = "k" => Plain(g.gs[k])) /\ vStack' = Append(Rest(2), g)
Bound == Len(vStack) + vSize <= MaxNodes + 1
\* The grammar itself is nonterminal 1 (so a "n" leaf makes it recursive)
Env1 == <<Top>>
RECURSIVE Productive(_, _)
Productive(g, p) == CASE g.t = "n" -> p [] g.t \in {"m"} -> TRUE [] g.t = "r" -> g.lo = 0 \/ Productive(g.gs[1], p)
                      [] g.t = "a" -> \E k \in 1..Len(g.gs): Productive(g.gs[k], p)
                      [] OTHER -> \A k \in 1..Len(g.gs): Productive(g.gs[k], p)
\* left recursion is not supported: reaching a nonterminal again must have consumed something
RECURSIVE Nul(_, _), Lefts(_, _), LeftsSeq(_, _, _)
Nul(g, p) == CASE g.t \in {"c", "lit"} -> FALSE [] g.t = "m" -> TRUE [] g.t = "n" -> p [] g.t = "r" -> g.lo = 0 \/ Nul(g.gs[1], p)
               [] g.t = "t" -> g.lo = 0 [] g.t = "x" -> <<>> \notin {g.xs[k] : k \in 1..Len(g.xs)}
               [] g.t = "a" -> \E k \in 1..Len(g.gs): Nul(g.gs[k], p) [] OTHER -> \A k \in 1..Len(g.gs): Nul(g.gs[k], p)
Lefts(g, p) == IF g.t = "n" THEN TRUE ELSE IF g.t = "s" THEN LeftsSeq(g.gs, 1, p) ELSE \E k \in 1..Len(g.gs): Lefts(g.gs[k], p)
LeftsSeq(gs, k, p) == k <= Len(gs) /\ (Lefts(gs[k], p) \/ (Nul(gs[k], p) /\ LeftsSeq(gs, k + 1, p)))
Useful == Len(vStack) = 1 /\ Productive(Top, FALSE) /\ ~Lefts(Top, Nul(Top, Nul(Top, FALSE)))
Inputs == UNION {[1..n -> {97, 98}] : n \in 0..MaxInput}
RECURSIVE Loops(_)
Loops(g) == g.t = "n" \/ \E k \in 1..Len(g.gs): Loops(g.gs[k])
\* The same grammar in the terms of Abnf
RECURSIVE AsAbnf(_)
AsAbnf(g) ==
  LET gs == [k \in 1..Len(g.gs) |-> AsAbnf(g.gs[k])]  C == A!Cls({g.cs[k] : k \in 1..Len(g.cs)}) IN
  CASE g.t = "c" -> C [] g.t = "lit" -> A!Cat([k \in 1..Len(g.cs) |-> A!Cls({g.cs[k], g.cs[k] - 32})]) [] g.t = "s" -> A!Cat(gs) [] g.t = "a" -> A!Alt(gs)
    [] g.t = "m" -> A!Opt(gs[1]) [] g.t = "r" -> A!Rep(g.lo, g.hi, gs[1]) [] g.t = "t" -> A!Rep(g.lo, g.hi, C)
    [] g.t = "x" -> A!But(A!Many(C), {g.xs[k] : k \in 1..Len(g.xs)}) [] OTHER -> gs[1]
Emit == Useful => PrintT("@@" \o ToJson(Top))
\* The two definitions of the meaning of grammars agree; parsing stops at the end exactly if all is viable
Agree == (Useful /\ ~Loops(Top)) => \A s \in Inputs: ME(Table(Env1, s), Top, s, {0}) = A!Ends(A!NoEnv, AsAbnf(Top), s, {0})
Reaches == Useful => \A s \in Inputs: LET T == Table(Env1, s) F == FarTable(Env1, s, T) IN
              /\ InLang(T, Top, s) => Stop(T, F, Top, s) = Len(s)
              /\ \A n \in 0..Len(s): LET p == SubSeq(s, 1, n) T2 == Table(Env1, p) IN
                    (n <= Stop(T, F, Top, s)) <=> (Stop(T2, FarTable(Env1, p, T2), Top, p) = n)
==============================================================================
