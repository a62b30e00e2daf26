-------------------------- MODULE TraceStreamFacts --------------------------
(* Judges the explanations of 1298, 1004, 1005 and 1040:                      *)
(* [k |-> "length" | "chunks" | "form", d |-> digits or octets, z |-> sizes,   *)
(*  have |-> octets that are there, got |-> <<[id, x |-> what it states]>>, exc] *)
EXTENDS StreamFacts, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
C0 == Cases[vCase]
Want == CASE C0.k = "length" -> OfLength(C0.d, C0.have)
          [] C0.k = "chunks" -> OfChunks(C0.z, 0)
Told == [k \in 1..Len(C0.got) |-> <<C0.got[k].id, C0.got[k].x>>]
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET bad == IF C0.exc # "" THEN {"exception " \o C0.exc}
                ELSE IF C0.odd # <<>> THEN {"words of " \o ToString(C0.odd)}
                ELSE IF C0.k = "form"
                THEN {"1040 of " \o ToString(C0.got[k].x[1]) : k \in {j \in 1..Len(C0.got): C0.got[j].x[1] \notin {<<o>> : o \in BadOctets(C0.d)}}}
                ELSE IF Told = (IF Want[1] = 0 THEN <<>> ELSE <<Want>>) THEN {} ELSE {"explained as " \o ToString(Told) \o " rather than " \o ToString(Want)}
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad]))
\* No size that is accepted is above the limit
Bounded == C0.k = "length" /\ Want[1] \in {0, 1004} => ~Over(Unpad(C0.d), Digits0(MaxBody))
=============================================================================
