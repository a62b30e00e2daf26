----------------------------- MODULE TraceHelpers -----------------------------
(* Judges calls.  A case: [kind, list, left |-> the entries after the call or the fields returned, map, exc] *)
EXTENDS Helpers, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
Bad(c) == IF c.kind = "pop" THEN (IF c.left # Kept(c.list) THEN {"entries left"} ELSE {}) \cup (IF MapOk(Taken(c.list), c.map) THEN {} ELSE {"pseudo-headers returned"})
          ELSE CgiBad(c.list, c.left)
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> IF Cases[vCase].exc # "" THEN {"exception"} ELSE Bad(Cases[vCase])]))
==============================================================================
