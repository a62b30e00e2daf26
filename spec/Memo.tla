-------------------------------- MODULE Memo --------------------------------
(***************************************************************************)
(* Remembering results without anyone noticing.                            *)
(*                                                                         *)
(* The parser keeps the results of its latest parses.  A key is what a     *)
(* result may depend on; F gives the outcome of a key in a fresh process   *)
(* ("ok" outcomes are kept, failures are not).  memo is a sequence of      *)
(* [key, val], the least recently used first.                              *)
(*                                                                         *)
(* Above it, messages: checking one shows its notices, and reporting,      *)
(* reading and checking others change nothing about it.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

At(memo, k) == {i \in 1..Len(memo) : memo[i].key = k}
Knows(memo, k) == At(memo, k) # {}
Value(memo, k) == memo[CHOOSE i \in At(memo, k) : TRUE].val
Without(memo, k) == SelectSeq(memo, LAMBDA x: x.key # k)
Evict(memo, limit) == IF Len(memo) > limit THEN SubSeq(memo, Len(memo) - limit + 1, Len(memo)) ELSE memo
\* one parse: the outcome, and what is remembered afterwards
Parse(memo, k, F, limit) ==
  IF Knows(memo, k) THEN [out |-> Value(memo, k), memo |-> Append(Without(memo, k), [key |-> k, val |-> Value(memo, k)])]
  ELSE IF F[k].ok THEN [out |-> F[k], memo |-> Evict(Append(memo, [key |-> k, val |-> F[k]]), limit)]
  ELSE [out |-> F[k], memo |-> memo]
RECURSIVE Runs(_, _, _, _, _)
\* outcomes of the keys ks from k on
Runs(memo, ks, k, F, limit) == IF k > Len(ks) THEN <<>>
  ELSE LET r == Parse(memo, ks[k], F, limit) IN <<r.out>> \o Runs(r.memo, ks, k + 1, F, limit)

(* ------------------------- exchanges under study ----------------------- *)
\* An object is "new", "read" (derived data was asked for) or "checked".  What it shows then:
\* nothing yet; it is not said how much; exactly what a fresh process shows for it.
Acts == {"check", "read", "report", "again", "others"}
After(st, o, act) == [k \in 1..Len(st) |-> CASE k = o /\ act = "check" -> "checked" [] k = o /\ act = "read" /\ st[k] = "new" -> "read"
                                              [] act = "report" /\ st[k] = "new" -> "read" [] OTHER -> st[k]]       \* all are reported
=============================================================================
