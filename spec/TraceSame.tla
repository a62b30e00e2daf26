----------------------------- MODULE TraceSame -----------------------------
(* Judges pairs: [msgs |-> sequence of [from, steps, to, one, two]]: the header before and *)
(* after a rewriting, and the notices [id, n] on the message before and after; exc.        *)
EXTENDS Same, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
\* These change the fields themselves, how many there are, and which are equal (what is said twice of equal fields is said once)
Reshapes(ss) == \E k \in 1..Len(ss): ss[k].op \in {"split", "join", "pad", "dilute"}
Ids(q) == {q[k][1] : k \in 1..Len(q)}
\* Where a field is malformed, only its place may change
Open(c) == \E k \in 1..Len(c.msgs): 1000 \in Ids(c.msgs[k].one) /\ Reshapes(c.msgs[k].steps)
Shaped(c) == \E k \in 1..Len(c.msgs): Reshapes(c.msgs[k].steps)
Bag(q) == {<<q[k][1], q[k][2]>> : k \in 1..Len(q)}
Legit(m) == LET a == After(m.from, m.steps) IN a.ok /\ a.h = m.to
Bad(c) ==
  IF \E k \in 1..Len(c.msgs): ~Legit(c.msgs[k]) THEN {"not a rewriting"}
  ELSE IF c.exc # "" THEN {"exception"} ELSE IF Open(c) THEN {}
  ELSE UNION {LET m == c.msgs[k] IN
              IF Shaped(c) THEN {"new notice " \o ToString(i) : i \in Ids(m.two) \ Ids(m.one)} \cup {"lost notice " \o ToString(i) : i \in Ids(m.one) \ Ids(m.two)}
              ELSE {"new notice " \o ToString(p[1]) : p \in Bag(m.two) \ Bag(m.one)} \cup {"lost notice " \o ToString(p[1]) : p \in Bag(m.one) \ Bag(m.two)} : k \in 1..Len(c.msgs)}
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> Bad(Cases[vCase]), open |-> Open(Cases[vCase])]))
=============================================================================
