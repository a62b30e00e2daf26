------------------------------ MODULE TraceBody ------------------------------
(* Judges one message each.  A record: [c |-> case, body |-> [k, v octets], text |-> [k, v code points], ids, exc] *)
EXTENDS Body, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
Times(s, x) == Cardinality({k \in 1..Len(s): s[k] = x})
Bad(r) ==
  LET e == Expected(r.c) IN
  (IF r.body.k # e.bk THEN {"decoded body available"} ELSE IF r.body.v # e.b THEN {"decoded body"} ELSE {})
  \cup (IF r.text.k # e.tk THEN {"decoded text available"} ELSE IF r.text.v # e.t THEN {"decoded text"} ELSE {})
  \cup {"notice " \o ToString(id) : id \in {id \in Watched: (id = 1040 => ~Open(r.c)) /\ (id = 1140 => ~OpenMulti(r.c)) /\ Times(r.ids, id) # Times(e.ids, id)}}
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> IF Cases[vCase].exc # "" THEN {"exception"} ELSE Bad(Cases[vCase])]))
==============================================================================
