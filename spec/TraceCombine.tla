----------------------------- MODULE TraceCombine -----------------------------
(* Judges one message: [m |-> entries, ids |-> <<number of 1013, number of 1026>>,
   views |-> sequence of [n, present, k, vs], queries |-> sequence of [n, op, x, r], exc] *)
EXTENDS Combine, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
BadView(m, v) ==
  (IF v.present # Present(m, v.n) THEN {v.n \o " present"} ELSE {})
  \cup (IF v.n \notin Valued /\ (IsMulti(v.n) \/ IsSingle(v.n)) THEN {}
        ELSE LET w == Meaning(m, v.n) IN
             IF w.k = "malformed" /\ v.k = "malformed" THEN {}
             ELSE IF w.k # v.k \/ w.vs # v.vs THEN {v.n \o " value"} ELSE {})
Answer(m, q) == IF q.op = "in" THEN Member(m, q.n, q.x) ELSE Compare(m, q.n, q.op, q.x)
Bad(c) ==
  (IF Count1013(c.m) # c.ids[1] THEN {"1013 expected " \o ToString(Count1013(c.m))} ELSE {})
  \cup (IF Count1026(c.m) # c.ids[2] THEN {"1026 expected " \o ToString(Count1026(c.m))} ELSE {})
  \cup UNION {BadView(c.m, c.views[k]) : k \in 1..Len(c.views)}
  \cup {c.queries[k].n \o " " \o c.queries[k].op : k \in {k \in 1..Len(c.queries): Answer(c.m, c.queries[k]) # c.queries[k].r}}
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> IF Cases[vCase].exc # "" THEN {"exception"} ELSE Bad(Cases[vCase])]))
==============================================================================
