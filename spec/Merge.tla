--------------------------------- MODULE Merge ---------------------------------
(***************************************************************************)
(* Interleaving several connections by time.  (Property C14.)              *)
(* A connection is [hint, evs]: when it started (0: unknown) and its       *)
(* exchanges; an exchange is [rd, resps]: the Date of the request and, for *)
(* each response, [d, a]: its Date and Age.  A date of 0 is absent or      *)
(* malformed; an age of -1 is absent, malformed or beyond any calendar.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Dated(rs) == {k \in 1..Len(rs): rs[k].d # 0}
TimeOf(e) == IF e.rd # 0 THEN e.rd
             ELSE IF Dated(e.resps) = {} THEN 0
             ELSE LET r == e.resps[CHOOSE k \in Dated(e.resps): \A j \in Dated(e.resps): k <= j]
                  IN IF r.a > 0 THEN r.d + r.a ELSE r.d
Max2(a, b) == IF a >= b THEN a ELSE b

\* The state of a merge: for each connection, how many exchanges are out and the time it has reached
Begin(cs) == [c \in 1..Len(cs) |-> [n |-> 0, at |-> cs[c].hint]]
Active(cs, st) == {c \in 1..Len(cs): st[c].n < Len(cs[c].evs)}
\* Where connection c is now: the time of its next exchange (not before its hint, at the start),
\* or, when that is not known, the last time known; 0 if there is none
Position(cs, st, c) ==
    LET t == TimeOf(cs[c].evs[st[c].n + 1]) IN
    IF st[c].n = 0 THEN Max2(t, st[c].at) ELSE IF t # 0 THEN t ELSE st[c].at
MayEmit(cs, st, c) ==
    /\ c \in Active(cs, st)
    /\ \/ Position(cs, st, c) = 0
       \/ \A d \in Active(cs, st): Position(cs, st, d) # 0 /\ Position(cs, st, c) <= Position(cs, st, d)
AfterEmit(cs, st, c) == [st EXCEPT ![c] = [n |-> @.n + 1, at |-> Position(cs, st, c)]]
==============================================================================
