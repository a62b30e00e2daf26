----------------------------- MODULE TraceHeader -----------------------------
(* Judges what HTTPolice reported about lines of one header: a syntax error exactly *)
(* for the distinct lines outside the header's language (C10), and the other        *)
(* notices exactly as HeaderSem says (C29, C23, C24).                               *)
(* A case: [k |-> element, n |-> header name, es |-> lines (octets),                *)
(*          syn |-> number of syntax errors, obs |-> <<<<id, count>>, ...>>, exc]   *)
EXTENDS HeaderSem, Json
CONSTANTS N, Ids
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE

C0 == Cases[vCase]
Low(s) == s
CountOf(s, id) == Cardinality({x \in s : x[1] = id})
ObsCount(id) == LET l == SelectSeq(C0.obs, LAMBDA p : p[1] = id) IN IF l = <<>> THEN 0 ELSE l[1][2]
Show(id, e, o) == ToString(id) \o " expected " \o ToString(e) \o " reported " \o ToString(o)
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET lines == {C0.es[k] : k \in 1..Len(C0.es)}
         good == {s \in lines : InLanguage(C0.k, s)}
         wrong == Cardinality(lines) - Cardinality(good)
         last == C0.es[Len(C0.es)]
         syn == IF 1000 \in Ids /\ wrong # C0.syn THEN {Show(1000, wrong, C0.syn)} ELSE {}
         exp == IF Ids = {1000} THEN {}
                ELSE UNION {{<<x[1], s, x[2]>> : x \in Line(C0.n, s)} : s \in good}
                     \cup UNION {{<<x[1], "", x[2]>> : x \in Whole(C0.n, s)} : s \in IF C0.n = "content-disposition" THEN (good \cap {last}) ELSE good}
         open == IF Ids = {1000} THEN {} ELSE UNION {Open(C0.n, s, Lexed(C0.n, s)) : s \in good}
         ids == (({x[1] : x \in exp} \cup {C0.obs[j][1] : j \in 1..Len(C0.obs)}) \cap Ids) \ (open \cup {1000})
         bad == IF C0.exc # "" THEN {"exception " \o C0.exc}
                ELSE syn \cup {Show(id, CountOf(exp, id), ObsCount(id)) : id \in {i \in ids : CountOf(exp, i) # ObsCount(i)}}
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad, exp |-> {x[1] : x \in exp} \cap Ids, wrong |-> wrong]))
==============================================================================
