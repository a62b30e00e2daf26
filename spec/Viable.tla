------------------------------- MODULE Viable -------------------------------
(***************************************************************************)
(* Where a text stops being the beginning of a word of a language, and     *)
(* what could have come there instead.  Both are notions of the language   *)
(* (its set of prefixes), but computed from the grammar: a position is     *)
(* tried if some character class of the grammar is applied to it in an     *)
(* attempt to derive the text from the left.  Every class is non-empty and *)
(* every nonterminal derives something, so what was derived up to a        *)
(* position that is tried is the beginning of some word.  (Property C39.)  *)
(***************************************************************************)
EXTENDS Grammars

\* T(env, g, s, I): positions tried when matching g from each of I
RECURSIVE Tried(_, _, _, _), TrSeq(_, _, _, _, _), TrTimes(_, _, _, _, _)
Tried(env, g, s, I) ==
  IF I = {} THEN {} ELSE
  CASE g.t = "c" -> I
    [] g.t = "s" -> TrSeq(env, g.gs, 1, s, I)
    [] g.t = "a" -> UNION {Tried(env, g.gs[k], s, I) : k \in 1..Len(g.gs)}
    [] g.t = "r" -> LET J == EndsTimes(env, g.g, g.lo, s, I) IN
                    TrTimes(env, g.g, g.lo, s, I) \cup
                    IF g.hi < 0 THEN Tried(env, g.g, s, EndsStar(env, g.g, s, J, J)) ELSE TrTimes(env, g.g, g.hi - g.lo, s, J)
    [] g.t = "b" -> Tried(env, g.g, s, I)
    [] g.t = "n" -> Tried(env, env[g.n], s, I)
TrSeq(env, gs, k, s, I) == IF k > Len(gs) \/ I = {} THEN {} ELSE Tried(env, gs[k], s, I) \cup TrSeq(env, gs, k + 1, s, Ends(env, gs[k], s, I))
TrTimes(env, g, n, s, I) == IF n = 0 \/ I = {} THEN {} ELSE Tried(env, g, s, I) \cup TrTimes(env, g, n - 1, s, Ends(env, g, s, I))

\* octets that some class tried at position p would take
RECURSIVE NextOf(_, _, _, _, _), NxSeq(_, _, _, _, _, _), NxTimes(_, _, _, _, _, _)
NextOf(env, g, s, I, p) ==
  LET J == {i \in I : i <= p} IN
  IF J = {} THEN {} ELSE
  CASE g.t = "c" -> IF p \in J THEN {b \in 0..255 : g.f[b]} ELSE {}
    [] g.t = "s" -> NxSeq(env, g.gs, 1, s, J, p)
    [] g.t = "a" -> UNION {NextOf(env, g.gs[k], s, J, p) : k \in 1..Len(g.gs)}
    [] g.t = "r" -> LET K == EndsTimes(env, g.g, g.lo, s, J) IN
                    NxTimes(env, g.g, g.lo, s, J, p) \cup
                    IF g.hi < 0 THEN NextOf(env, g.g, s, EndsStar(env, g.g, s, K, K), p) ELSE NxTimes(env, g.g, g.hi - g.lo, s, K, p)
    [] g.t = "b" -> NextOf(env, g.g, s, J, p)
    [] g.t = "n" -> NextOf(env, env[g.n], s, J, p)
NxSeq(env, gs, k, s, I, p) == IF k > Len(gs) \/ I = {} THEN {} ELSE NextOf(env, gs[k], s, I, p) \cup NxSeq(env, gs, k + 1, s, Ends(env, gs[k], s, I), p)
NxTimes(env, g, n, s, I, p) == IF n = 0 \/ I = {} THEN {} ELSE NextOf(env, g, s, I, p) \cup NxTimes(env, g, n - 1, s, Ends(env, g, s, I), p)

Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
\* length of the longest beginning of s that begins a word of element n
StopAt(n, s) == Largest({0} \cup Tried(Env, HeaderT[n], s, {0}) \cup Ends(Env, HeaderT[n], s, {0}))
Could(n, s, p) == NextOf(Env, HeaderT[n], s, {0}, p)
CouldEnd(n, s, p) == p \in Ends(Env, HeaderT[n], s, {0})
=============================================================================
