------------------------------ MODULE TraceRefs ------------------------------
(* Judges what the notices in the HTML report of an exchange point at: [ex, got |-> [where |-> notices], shown |-> the displayed parts, *)
(* own |-> parts that notices on the exchange itself point at, astray |-> notices that are listed elsewhere, linked, values, links, exc]          *)
EXTENDS Refs, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
C0 == Cases[vCase]
AsSet(q) == {q[k] : k \in 1..Len(q)}
Read(gs) == [k \in 1..Len(gs) |-> [id |-> gs[k].id, low |-> gs[k].low, hl |-> AsSet(gs[k].hl)]]
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET shown == AsSet(C0.shown)
         bad == IF C0.exc # "" THEN {"exception " \o C0.exc}
                ELSE (IF C0.own # <<>> THEN {"a notice on the exchange points at " \o ToString(C0.own)} ELSE {})
                     \cup {"reports disagree on " \o w : w \in AsSet(C0.astray)}
                     \cup {"link of " \o ToString(x) : x \in {y \in AsSet(C0.linked): BadNamed(y)}}
                     \cup {"links in " \o ToString(x) : x \in {y \in AsSet(C0.values): BadValue(C0.ex, y)}}
                     \cup {"link " \o ToString(x) : x \in {y \in AsSet(C0.links): BadLink(y)}}
                     \cup (IF NoReq(C0.ex.req) THEN {} ELSE BadRefs(C0.ex, "req", C0.ex.req, C0.ex.req, Read(C0.got["req"]), shown))
                     \cup UNION {BadRefs(C0.ex, ToString(k), C0.ex.resps[k], C0.ex.req, Read(C0.got[ToString(k)]), shown) : k \in 1..Len(C0.ex.resps)}
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad]))
==============================================================================
