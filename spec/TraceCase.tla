------------------------------ MODULE TraceCase ------------------------------
(* Judges pairs: [kind, parts |-> sequence of [v |-> template, h, h2, a, b], one, two |-> what was seen
   for the texts a and for the texts b: sequences of [ids |-> sequence of [id, n], data]] *)
EXTENDS Case, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
Legit(c) == \A k \in 1..Len(c.parts): LET p == c.parts[k] IN
  /\ LowerT(p.h) = LowerT(p.h2)
  /\ IF c.kind = "vary" THEN LET fl == Flag(p.v, 126) IN Variation(fl, p.a) /\ Variation(fl, p.b)
     ELSE \E i \in 1..Len(Impostors): Impostors[i].v = p.v
Drop(ids) == SelectSeq(ids, LAMBDA x: x[1] \notin Explains)
\* what is said alike of two fields of the same name is said once: their texts may have differed in case only
Twice(c) == \E j, k \in 1..Len(c.parts): j # k /\ c.parts[j].h = c.parts[k].h
Ids(c, s) == LET d == IF c.kind = "vary" THEN s ELSE Drop(s) IN
             IF Twice(c) THEN {d[k][1] : k \in 1..Len(d)} ELSE {<<d[k][1], d[k][2]>> : k \in 1..Len(d)}
Judge(c) ==
  IF ~Legit(c) THEN {"not a variation"} ELSE IF c.exc # "" THEN {"exception"}
  ELSE IF Len(c.one) # Len(c.two) THEN {"messages"}
  ELSE UNION {(IF Ids(c, c.one[k].ids) = Ids(c, c.two[k].ids) THEN {} ELSE {"notices"})
              \cup (IF c.one[k].data = c.two[k].data THEN {} ELSE {"bodies"}) : k \in 1..Len(c.one)}
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> Judge(Cases[vCase])]))
==============================================================================
