---------------------------- MODULE TraceUnknown ----------------------------
(* Judges chains: [ex, steps |-> sequence of facts, obs |-> one observation    *)
(* more: records from "req", "1"... to sequences of [id, n], exc |-> one text  *)
(* per observation].                                                           *)
EXTENDS Unknown, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
RECURSIVE After(_, _, _)
After(ex, steps, k) == IF k = 0 THEN ex ELSE LoseOne(After(ex, steps, k - 1), steps[k])
Count(l, id) == IF \E k \in 1..Len(l): l[k][1] = id THEN (CHOOSE x \in {l[k] : k \in 1..Len(l)}: x[1] = id)[2] ELSE 0
Ids(l) == {l[k][1] : k \in 1..Len(l)}
Text(k, w, id) == "step " \o ToString(k) \o " @" \o w \o " " \o ToString(id)
Judge(c) ==
  LET n == Len(c.steps)
      ex == TLCEval([k \in 0..n |-> After(c.ex, c.steps, k)]) IN
  IF \E k \in 1..(n + 1): c.exc[k] # "" THEN {"exception"}
  ELSE UNION {IF c.steps[k] \notin Facts(ex[k - 1]) THEN {"not a fact"}
              ELSE UNION {LET was == c.obs[k][w]   now == c.obs[k + 1][w]   free == Suppressed(ex[k - 1], c.steps[k], w) IN
                          {Text(k, w, id) : id \in {i \in Ids(now): i \notin free /\ Count(now, i) > Count(was, i)}}
                          : w \in DOMAIN c.obs[k + 1] \cap DOMAIN c.obs[k]} : k \in 1..n}
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> Judge(Cases[vCase])]))
=============================================================================
