------------------------------ MODULE TraceMemo ------------------------------
(* Judges observed histories.
   parses: [kind, fresh |-> outcomes by key, hist |-> keys, outs |-> outcomes, limit]
   acts:   [kind, fresh |-> [n, t, h, d, r] by object, steps |-> [o, a, seen |-> sequence of what the objects show,
            again |-> what a copy of o shows (or a blank)]]
   where n, t, h, d, r are the notices, the lines of the text report, the HTML report, decoded data, and the text report as it is. *)
EXTENDS Memo, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
RECURSIVE States(_, _, _)
States(st, steps, k) == IF k > Len(steps) THEN <<>> ELSE
  LET s == After(st, steps[k].o, steps[k].a) IN <<s>> \o States(s, steps, k + 1)
Parses(c) == IF \E k \in 1..Len(c.outs): c.outs[k] # Runs(<<>>, c.hist, 1, c.fresh, c.limit)[k] THEN {"outcome depends on history"} ELSE {}
\* read first, the notices may come in another order
WasRead(c, o, k) == \E j \in 1..k: c.steps[j].a \in {"read", "report"} /\ States([i \in 1..Len(c.fresh) |-> "new"], c.steps, 1)[j][o] = "read"
Clauses(c, o, k, st, seen) ==
  LET want == c.fresh[o] IN
  IF st = "new" THEN (IF seen.n = <<>> THEN {} ELSE {"notices before checking"})
  ELSE IF st = "read" THEN {}
  ELSE (IF seen.n = want.n THEN {} ELSE {"notices"}) \cup (IF seen.t = want.t THEN {} ELSE {"text report"})
       \cup (IF seen.d = want.d THEN {} ELSE {"data"}) \cup (IF seen.h = want.h \/ WasRead(c, o, k) THEN {} ELSE {"HTML report"})
Acting(c) == LET sts == States([i \in 1..Len(c.fresh) |-> "new"], c.steps, 1) IN
  UNION {UNION {Clauses(c, o, k, sts[k][o], c.steps[k].seen[o]) : o \in 1..Len(c.fresh)}
         \cup (IF c.steps[k].a = "again" THEN Clauses([c EXCEPT !.steps = <<>>], c.steps[k].o, 0, "checked", c.steps[k].again) ELSE {}) : k \in 1..Len(c.steps)}
Judge(c) == IF c.exc # "" THEN {"exception"} ELSE IF c.kind = "parses" THEN Parses(c) ELSE IF c.kind = "acts" THEN Acting(c)
            ELSE IF c.one = c.other THEN {} ELSE {"another process"}
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> Judge(Cases[vCase])]))
==============================================================================
