----------------------------- MODULE TraceEngine -----------------------------
(* Judges the parses of several inputs by one grammar: [env, g, runs |-> sequence of
   [s, ok, v |-> tree, ids, anns, joined, pos, eod, found, exc]] *)
EXTENDS Engine, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
\* the order in which notices are reported is left open
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in {p[k] : k \in 1..Len(p)} \cup {q[k] : k \in 1..Len(q)}:
                   Cardinality({k \in 1..Len(p) : p[k] = x}) = Cardinality({k \in 1..Len(q) : q[k] = x})
BadRun(c, r) ==
  LET s == r.s T == Table(c.env, s) IN
  IF r.exc # "" THEN {"exception"}
  ELSE IF r.ok # InLang(T, c.g, s) THEN {IF r.ok THEN "accepted outside the language" ELSE "refused in the language"}
  ELSE IF r.ok THEN (IF IsResult(T, c.env, c.g, r.v, s) THEN {} ELSE {"result"})
                    \cup (IF SameBag(r.ids, Notices(r.v)) THEN {} ELSE {"notices"})
                    \cup (IF r.annotated => (r.joined = s /\ r.anns = Anns(r.v)) THEN {} ELSE {"annotations"})
  ELSE LET p == Stop(T, FarTable(c.env, s, T), c.g, s)  T2 == Table(c.env, SubSeq(s, 1, p)) IN
       (IF r.pos = p THEN {} ELSE {"position"})
       \cup (IF r.eod = InLang(T2, c.g, SubSeq(s, 1, p)) THEN {} ELSE {"end of data"})
       \cup (IF r.found = SubSeq(s, r.pos + 1, IF r.pos < Len(s) THEN r.pos + 1 ELSE r.pos) THEN {} ELSE {"found"})
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET c == Cases[vCase] IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> UNION {BadRun(c, c.runs[k]) : k \in 1..Len(c.runs)},
                                                     at |-> {k \in 1..Len(c.runs) : BadRun(c, c.runs[k]) # {}}]))
==============================================================================
