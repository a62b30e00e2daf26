---------------------------- MODULE TraceNaming ----------------------------
(* Judges the titles in the text report of an exchange: [ex, got |-> [where |-> titles], exc, odd |-> notices with a title of another form] *)
EXTENDS Naming, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
C0 == Cases[vCase]
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET bad == IF C0.exc # "" THEN {"exception " \o C0.exc}
                ELSE {"title of " \o ToString(C0.odd[k]) : k \in 1..Len(C0.odd)}
                     \cup (IF NoReq(C0.ex.req) THEN {} ELSE BadNaming(C0.ex, "req", C0.ex.req, C0.ex.req, C0.got["req"]))
                     \cup UNION {BadNaming(C0.ex, ToString(k), C0.ex.resps[k], C0.ex.req, C0.got[ToString(k)]) : k \in 1..Len(C0.ex.resps)}
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad]))
=============================================================================
