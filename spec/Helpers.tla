-------------------------------- MODULE Helpers --------------------------------
(***************************************************************************)
(* The helpers for integrations.  (Property C37.)  Names and values are    *)
(* sequences of code points.                                               *)
(***************************************************************************)
EXTENDS Abnf, FiniteSets

Pseudo(e) == e.n # <<>> /\ e.n[1] = 58
\* Removing the pseudo-headers, one step at a time: position, entries left, what was taken
PopStart(es) == [k |-> 1, es |-> es, got |-> <<>>]
PopDone(st) == st.k > Len(st.es)
PopStep(st) == IF Pseudo(st.es[st.k])
    THEN [st EXCEPT !.es = SubSeq(@, 1, st.k - 1) \o SubSeq(@, st.k + 1, Len(@)), !.got = Append(@, st.es[st.k])]
    ELSE [st EXCEPT !.k = @ + 1]
\* What should come of it
Kept(es) == SelectSeq(es, LAMBDA e: ~Pseudo(e))
Taken(es) == SelectSeq(es, Pseudo)
\* As a mapping, the last value of a repeated name counts
LastOf(es, n) == LET S == {k \in 1..Len(es): es[k].n = n} IN es[CHOOSE k \in S: \A j \in S: j <= k].v
MapOk(es, m) == /\ {m[k].n : k \in 1..Len(m)} = {es[k].n : k \in 1..Len(es)}
                /\ \A k \in 1..Len(m): m[k].v = LastOf(es, m[k].n)

------------------------------------------------------------------------------
HttpName == B("HTTP_")
HasPrefix(n) == Len(n) >= 5 /\ SubSeq(n, 1, 5) = HttpName
Wanted(e) == HasPrefix(e.n) \/ (e.n \in {B("CONTENT_LENGTH"), B("CONTENT_TYPE")} /\ e.v # <<>>)
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
FieldOf(n) == LET s == IF HasPrefix(n) THEN SubSeq(n, 6, Len(n)) ELSE n IN [k \in 1..Len(s) |-> IF s[k] = 95 THEN 45 ELSE Low(s[k])]
\* Characters that are not ISO-8859-1 cannot be sent
Sent(v) == [k \in 1..Len(v) |-> IF v[k] > 255 THEN 63 ELSE v[k]]
Lowered(n) == [k \in 1..Len(n) |-> Low(n[k])]
\* fields: the result for the variables vs (whose names are distinct)
CgiBad(vs, fields) ==
    LET want == SelectSeq(vs, Wanted)
        As(e) == [n |-> FieldOf(e.n), v |-> Sent(e.v)]
        Got(k) == [n |-> Lowered(fields[k].n), v |-> fields[k].v]
        wants(x) == Cardinality({k \in 1..Len(want): As(want[k]) = x})
        gots(x) == Cardinality({k \in 1..Len(fields): Got(k) = x})
    IN (IF Len(want) # Len(fields) THEN {"count"} ELSE {})
       \cup (IF \E k \in 1..Len(want): wants(As(want[k])) # gots(As(want[k])) THEN {"missing field"} ELSE {})
       \cup (IF \E k \in 1..Len(fields): wants(Got(k)) # gots(Got(k)) THEN {"unexpected field"} ELSE {})
       \cup (IF (\E k \in 1..Len(vs): vs[k].n = B("HTTP_HOST") /\ vs[k].v # <<>>) /\ (fields = <<>> \/ Lowered(fields[1].n) # B("host")) THEN {"Host is not the first"} ELSE {})
==============================================================================
