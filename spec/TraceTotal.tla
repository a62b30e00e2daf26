----------------------------- MODULE TraceTotal -----------------------------
EXTENDS Total, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
Judge(c) == IF c.exc # "" THEN {"exception"} ELSE IF Behaviour(c.entry, c.want, c.stages) THEN {} ELSE {"ends otherwise"}
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> Judge(Cases[vCase])]))
=============================================================================
