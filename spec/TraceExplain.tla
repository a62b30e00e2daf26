---------------------------- MODULE TraceExplain ----------------------------
(* Judges the explanations in the HTML report of an exchange: [ex, got |-> [where |-> notices], exc, odd |-> notices worded in another form] *)
EXTENDS Explain, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
C0 == Cases[vCase]
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET bad == IF C0.exc # "" THEN {"exception " \o C0.exc}
                ELSE {"words of " \o ToString(C0.odd[k]) : k \in 1..Len(C0.odd)}
                     \cup (IF NoReq(C0.ex.req) THEN {} ELSE BadExplained(C0.ex, "req", C0.ex.req, C0.ex.req, C0.got["req"]))
                     \cup UNION {BadExplained(C0.ex, ToString(k), C0.ex.resps[k], C0.ex.req, C0.got[ToString(k)]) : k \in 1..Len(C0.ex.resps)}
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad]))
=============================================================================
