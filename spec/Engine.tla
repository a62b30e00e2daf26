------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* What parsing by a grammar means.  A grammar is a node                    *)
(*   [t, gs |-> parts, lo, hi, cs |-> octets, xs |-> excluded strings]      *)
(* of one of the kinds                                                      *)
(*   "c"   one octet of cs              "lit" the string cs (lo = 1: in     *)
(*   "s"   the parts in sequence              either case)                  *)
(*   "a"   one of the parts             "r"   lo to hi times (hi < 0: any)  *)
(*   "m"   optional                     "k"   skipped: gives no value       *)
(*   "t"   lo to hi octets of cs        "x"   any number, but not xs        *)
(*   "w"   reports notice lo            "z"   an annotated string           *)
(*   "n"   nonterminal number lo of the environment env                     *)
(* The meaning is the least fixed point, so left recursion is allowed.      *)
(* A tree [t, vs, c, k] is the result of a derivation.                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Has(q, x) == \E k \in 1..Len(q): q[k] = x
Lo(b) == IF b \in 65..90 THEN b + 32 ELSE b
LowS(s) == [k \in 1..Len(s) |-> Lo(s[k])]
Same(ci, a, b) == a = b \/ (ci = 1 /\ Lo(a) = Lo(b))

RECURSIVE ME(_, _, _, _), MSeq(_, _, _, _, _), MStar(_, _, _, _, _), MTimes(_, _, _, _, _), MLit(_, _, _, _)
\* ends of matches of g from positions I, given T[n] = matches <<i, j>> of nonterminal n
ME(T, g, s, I) ==
  IF I = {} THEN {} ELSE
  CASE g.t = "c" -> {i + 1 : i \in {i \in I : i < Len(s) /\ Has(g.cs, s[i + 1])}}
    [] g.t = "lit" -> MLit(g, 1, s, I)
    [] g.t = "s" -> MSeq(T, g.gs, 1, s, I)
    [] g.t = "a" -> UNION {ME(T, g.gs[k], s, I) : k \in 1..Len(g.gs)}
    [] g.t = "m" -> I \cup ME(T, g.gs[1], s, I)
    [] g.t \in {"k", "w", "z"} -> ME(T, g.gs[1], s, I)
    [] g.t = "r" -> LET J == MTimes(T, g.gs[1], g.lo, s, I) IN
                    IF g.hi < 0 THEN MStar(T, g.gs[1], s, J, J)
                    ELSE UNION {MTimes(T, g.gs[1], k, s, J) : k \in 0..(g.hi - g.lo)}
    [] g.t = "t" -> UNION {{j \in i..Len(s) : /\ j - i >= g.lo /\ (g.hi < 0 \/ j - i <= g.hi)
                                              /\ \A k \in (i + 1)..j : Has(g.cs, s[k])} : i \in I}
    [] g.t = "x" -> UNION {{j \in i..Len(s) : /\ \A k \in (i + 1)..j : Has(g.cs, s[k])
                                              /\ ~Has(g.xs, LowS(SubSeq(s, i + 1, j)))} : i \in I}
    [] g.t = "n" -> {p[2] : p \in {p \in T[g.lo] : p[1] \in I}}
MSeq(T, gs, k, s, I) == IF k > Len(gs) \/ I = {} THEN I ELSE MSeq(T, gs, k + 1, s, ME(T, gs[k], s, I))
MTimes(T, g, n, s, I) == IF n = 0 \/ I = {} THEN I ELSE MTimes(T, g, n - 1, s, ME(T, g, s, I))
MStar(T, g, s, all, new) == LET nxt == ME(T, g, s, new) \ all IN IF nxt = {} THEN all ELSE MStar(T, g, s, all \cup nxt, nxt)
MLit(g, k, s, I) == IF k > Len(g.cs) \/ I = {} THEN I
                    ELSE MLit(g, k + 1, s, {i + 1 : i \in {i \in I : i < Len(s) /\ Same(g.lo, s[i + 1], g.cs[k])}})

RECURSIVE Fix(_, _, _)
Fix(env, s, T) == LET U == [n \in 1..Len(env) |-> UNION {{<<i, j>> : j \in ME(T, env[n], s, {i})} : i \in 0..Len(s)}] IN
                  IF U = T THEN T ELSE Fix(env, s, U)
Table(env, s) == Fix(env, s, [n \in 1..Len(env) |-> {}])
InLang(T, g, s) == Len(s) \in ME(T, g, s, {0})

(* How far can a derivation get?  F[n][i] = positions reached by derivations of *)
(* nonterminal n from i.  (All nonterminals must derive something.)             *)
RECURSIVE Far(_, _, _, _, _), FSeq(_, _, _, _, _, _), FTimes(_, _, _, _, _, _, _)
Far(T, F, g, s, I) ==
  IF I = {} THEN {} ELSE
  CASE g.t = "c" -> I \cup ME(T, g, s, I)
    [] g.t = "lit" -> I \cup UNION {MLit([g EXCEPT !.cs = SubSeq(@, 1, k)], 1, s, I) : k \in 1..Len(g.cs)}
    [] g.t = "s" -> FSeq(T, F, g.gs, 1, s, I)
    [] g.t = "a" -> UNION {Far(T, F, g.gs[k], s, I) : k \in 1..Len(g.gs)}
    [] g.t \in {"m", "k", "w", "z"} -> I \cup Far(T, F, g.gs[1], s, I)
    [] g.t = "r" -> IF g.hi < 0
                    THEN FTimes(T, F, g.gs[1], g.lo, s, I, Far(T, F, g.gs[1], s, MStar(T, g.gs[1], s, MTimes(T, g.gs[1], g.lo, s, I), MTimes(T, g.gs[1], g.lo, s, I))))
                    ELSE FTimes(T, F, g.gs[1], g.hi, s, I, {})
    [] g.t = "t" -> UNION {{j \in i..Len(s) : (g.hi < 0 \/ j - i <= g.hi) /\ \A k \in (i + 1)..j : Has(g.cs, s[k])} : i \in I}
    [] g.t = "x" -> UNION {{j \in i..Len(s) : \A k \in (i + 1)..j : Has(g.cs, s[k])} : i \in I}
    [] g.t = "n" -> I \cup UNION {F[g.lo][i] : i \in I}
FSeq(T, F, gs, k, s, I) == IF k > Len(gs) \/ I = {} THEN I ELSE Far(T, F, gs[k], s, I) \cup FSeq(T, F, gs, k + 1, s, ME(T, gs[k], s, I))
FTimes(T, F, g, n, s, I, acc) == IF n = 0 \/ I = {} THEN acc \cup I ELSE FTimes(T, F, g, n - 1, s, ME(T, g, s, I), acc \cup Far(T, F, g, s, I))
RECURSIVE FFix(_, _, _, _)
FFix(env, s, T, F) == LET G == [n \in 1..Len(env) |-> [i \in 0..Len(s) |-> Far(T, F, env[n], s, {i})]] IN
                      IF G = F THEN F ELSE FFix(env, s, T, G)
FarTable(env, s, T) == FFix(env, s, T, [n \in 1..Len(env) |-> [i \in 0..Len(s) |-> {}]])
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* where parsing stops
Stop(T, F, g, s) == Max({0} \cup Far(T, F, g, s, {0}))

(* ------------------------------ derivations ---------------------------- *)
\* ends of the derivations of g from I whose result is the tree v
RECURSIVE DE(_, _, _, _, _, _), DSeq(_, _, _, _, _, _, _, _), DRep(_, _, _, _, _, _, _)
Text(s, I, v) == {i + Len(v.c) : i \in {i \in I : i + Len(v.c) <= Len(s) /\ SubSeq(s, i + 1, i + Len(v.c)) = v.c}}
DE(T, env, g, v, s, I) ==
  IF I = {} THEN {} ELSE
  CASE g.t \in {"c", "lit", "t", "x"} -> IF v.t # g.t THEN {} ELSE UNION {Text(s, {i}, v) \cap ME(T, g, s, {i}) : i \in I}
    [] g.t = "s" -> IF v.t # "s" THEN {} ELSE DSeq(T, env, g.gs, 1, v.vs, 1, s, I)
    [] g.t = "a" -> IF v.t # "a" \/ v.k \notin 1..Len(g.gs) THEN {} ELSE DE(T, env, g.gs[v.k], v.vs[1], s, I)
    [] g.t = "m" -> IF v.t = "none" THEN I ELSE IF v.t # "m" THEN {} ELSE DE(T, env, g.gs[1], v.vs[1], s, I)
    [] g.t = "r" -> IF v.t # "r" \/ Len(v.vs) < g.lo \/ (g.hi >= 0 /\ Len(v.vs) > g.hi) THEN {} ELSE DRep(T, env, g.gs[1], v.vs, 1, s, I)
    [] g.t = "w" -> IF v.t # "w" \/ v.k # g.lo THEN {} ELSE DE(T, env, g.gs[1], v.vs[1], s, I)
    [] g.t = "z" -> IF v.t # "z" THEN {} ELSE UNION {Text(s, {i}, v) \cap ME(T, g, s, {i}) : i \in I}
    [] g.t = "n" -> DE(T, env, env[g.lo], v, s, I)
DSeq(T, env, gs, k, vs, j, s, I) ==
  IF k > Len(gs) THEN (IF j = Len(vs) + 1 THEN I ELSE {})
  ELSE IF gs[k].t = "k" THEN DSeq(T, env, gs, k + 1, vs, j, s, ME(T, gs[k], s, I))
  ELSE IF j > Len(vs) THEN {}
  ELSE DSeq(T, env, gs, k + 1, vs, j + 1, s, DE(T, env, gs[k], vs[j], s, I))
DRep(T, env, g, vs, k, s, I) == IF k > Len(vs) THEN I ELSE DRep(T, env, g, vs, k + 1, s, DE(T, env, g, vs[k], s, I))
IsResult(T, env, g, v, s) == Len(s) \in DE(T, env, g, v, s, {0})

\* notices of a derivation, and its annotated strings, in order
RECURSIVE Notices(_), NotSeq(_, _), Anns(_), AnnSeq(_, _)
Notices(v) == NotSeq(v.vs, 1) \o (IF v.t = "w" THEN <<v.k>> ELSE <<>>)
NotSeq(vs, k) == IF k > Len(vs) THEN <<>> ELSE Notices(vs[k]) \o NotSeq(vs, k + 1)
Anns(v) == IF v.t = "z" THEN <<v.c>> ELSE AnnSeq(v.vs, 1)
AnnSeq(vs, k) == IF k > Len(vs) THEN <<>> ELSE Anns(vs[k]) \o AnnSeq(vs, k + 1)
=============================================================================
