----------------------------- MODULE TraceApi -----------------------------
(* Judges runs of the API.  A case: [kind "run", given |-> sequence of messages, snaps |-> *)
(* the distinct things seen to be held (sequences of messages), ops, runs |-> sequence of  *)
(* [exc, obs]]: what was seen when built and after each operation: [snap, notices |-> for   *)
(* the exchange and each message a sequence of [id, sev], bag |-> the sorted ids of each,  *)
(* vals |-> what the headers are taken to say, same |-> whether the caller's own *)
(* objects were as before, out |-> the report, as a digest].                               *)
(* A run also has fresh |-> what the headers said to begin with, and plain |-> the ids     *)
(* found by a check alone.                                                                *)
(* Or [kind "order", pairs |-> [a, b, lt, le, gt, ge, eq]], or                             *)
(* [kind "cat", whole, parts]: a text report and those of its exchanges one by one.        *)
EXTENDS Api, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE

SnapBad(c, s) == IF Len(s) # Len(c.given) THEN {"messages"}
                 ELSE UNION {{"holds " \o c.given[k].kind \o " " \o f : f \in HoldsBad(c.given[k], s[k])} : k \in 1..Len(s)}
\* Whether the check was done before the k-th operation
Checked(ops, k) == \E l \in 1..(k - 1): ops[l] = "check"
Els(q) == {q[j] : j \in 1..Len(q)}
Count(q, n) == Cardinality({j \in 1..Len(q): q[j] = n})
ObsBad(ops, obs, k) ==
  LET o == obs[k] IN
  (IF o.same THEN {} ELSE {"caller's objects changed"})
  \cup (IF \E j \in 1..Len(o.notices): \E i \in 1..Len(o.notices[j]):
              LET n == o.notices[j][i] IN n.id \notin KnownIds \/ SeverityOf[n.id] # n.sev THEN {"severity"} ELSE {})
  \cup (IF k = 1 THEN (IF \A j \in 1..Len(o.notices): o.notices[j] = <<>> THEN {} ELSE {"notices before the check"})
        ELSE IF Checked(ops, k - 1) THEN (IF o.notices # obs[k - 1].notices THEN {"notices changed by " \o ops[k - 1]} ELSE {})
        ELSE IF \E j \in 1..Len(o.notices): \E n \in Els(obs[k - 1].notices[j]): Count(obs[k - 1].notices[j], n) > Count(o.notices[j], n) THEN {"notices lost by " \o ops[k - 1]} ELSE {})
  \cup (IF k > 1 /\ ops[k - 1] \in {"text", "html"} /\ Checked(ops, k - 1)
           /\ \E j \in 1..(k - 2): ops[j] = ops[k - 1] /\ Checked(ops, j) /\ obs[j + 1].out # o.out
        THEN {"report differs again"} ELSE {})
RunBad(c, r) ==
  IF r.exc # "" THEN {"exception"}
  ELSE IF Len(r.obs) # Len(c.ops) + 1 THEN {"operations"}
  ELSE UNION {ObsBad(c.ops, r.obs, k) : k \in 1..Len(r.obs)}
       \cup (IF \E k \in 1..Len(r.obs): Checked(c.ops, k) /\ r.obs[k].bag # r.plain THEN {"notices depend on what was done before"} ELSE {})
       \cup (IF \E k \in 1..Len(r.obs): r.obs[k].vals # r.fresh THEN {"values changed"} ELSE {})
Forms(c) ==
  LET p == c.runs[1] IN
  IF \E q \in {c.runs[k] : k \in 2..Len(c.runs)}: p.exc = "" /\ q.exc = "" /\ \E k \in 1..Len(p.obs): p.obs[k].notices # q.obs[k].notices THEN {"notices depend on the form"}
  ELSE IF \E q \in {c.runs[k] : k \in 2..Len(c.runs)}: p.exc = "" /\ q.exc = "" /\ \E k \in 1..Len(p.obs): k > 1 /\ Checked(c.ops, k - 1) /\ p.obs[k].out # q.obs[k].out THEN {"reports depend on the form"}
  ELSE {}
OrderBad(p) == LET a == Rank(p.a) b == Rank(p.b) IN
  p.lt # (a < b) \/ p.le # (a <= b) \/ p.gt # (a > b) \/ p.ge # (a >= b) \/ p.eq # (a = b)
RECURSIVE Joined(_)
Joined(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Joined(Tail(ps))
Bad(c) ==
  CASE c.kind = "order" -> IF {c.pairs[k].a : k \in 1..Len(c.pairs)} # {"debug", "comment", "error"} \/ Len(c.pairs) # 9
                              \/ \E k \in 1..Len(c.pairs): OrderBad(c.pairs[k]) THEN {"order of severities"} ELSE {}
    [] c.kind = "cat" -> IF c.exc # "" THEN {"exception"} ELSE IF c.whole = Joined(c.parts) THEN {} ELSE {"report of several exchanges"}
    [] OTHER -> UNION {SnapBad(c, c.snaps[k]) : k \in 1..Len(c.snaps)} \cup UNION {RunBad(c, c.runs[k]) : k \in 1..Len(c.runs)} \cup Forms(c)
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> Bad(Cases[vCase])]))
=============================================================================
