----------------------------- MODULE TraceRules -----------------------------
(* Compares what check_exchange reported for an exchange with Expected(ex):   *)
(* for every notice of interest and every message, the number of times it is  *)
(* reported must be the number of offending subjects.                         *)
EXTENDS Rules, Json
CONSTANTS N, Ids
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE

C0 == Cases[vCase]
Wheres == {"req"} \cup {ToString(k) : k \in 1..Len(C0.ex.resps)}
CountOf(s, id, w) == Cardinality({x \in s : x[1] = id /\ x[2] = w})
ObsCount(w, id) == LET l == SelectSeq(C0.obs[w], LAMBDA p : p[1] = id) IN IF l = <<>> THEN 0 ELSE l[1][2]
Show(id, w, e, o) == ToString(id) \o "@" \o w \o " expected " \o ToString(e) \o " reported " \o ToString(o)
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET exp == {x \in Expected(C0.ex) : x[1] \in Ids}
         fired == {x[1] : x \in exp}
         bad == IF C0.exc # "" THEN {"exception " \o C0.exc}
                ELSE UNION {LET here == {x \in exp : x[2] = w}
                                ids == {x[1] : x \in here} \cup {C0.obs[w][k][1] : k \in {j \in 1..Len(C0.obs[w]) : C0.obs[w][j][1] \in Ids}} IN
                            {Show(id, w, CountOf(here, id, w), ObsCount(w, id)) : id \in {i \in ids : CountOf(here, i, w) # ObsCount(w, i)}}
                            : w \in Wheres}
                     \cup (IF C0.obs["exch"] # <<>> THEN {"notice on the exchange itself"} ELSE {})
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad, exp |-> fired]))
=============================================================================
