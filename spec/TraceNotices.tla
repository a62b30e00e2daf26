----------------------------- MODULE TraceNotices -----------------------------
(* Judges recorded runs: the notices seen on every object after every operation.     *)
(* A case: [objs, ops, obs |-> <<after op 1, ...>> with the visible IDs of each object, exc] *)
EXTENDS Notices, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vStep, vSt, vBad
C == Cases[vCase]
Init == vCase \in 1..N /\ vStep = 0 /\ vBad = {} /\ vSt = Start(Cases[vCase].objs)
Step ==
  /\ vStep < Len(C.ops)
  /\ vStep' = vStep + 1 /\ UNCHANGED vCase
  /\ vSt' = Apply(C.objs, vSt, C.ops[vStep + 1])
  /\ vBad' = vBad \cup (IF vStep + 1 > Len(C.obs) THEN {"exception"}
       ELSE {"notices of the " \o C.objs[o].role \o " after step " \o ToString(vStep + 1) : o \in {p \in 1..Len(C.objs): C.obs[vStep + 1][p] # Visible(vSt')[p]}})
Done == /\ vStep = Len(C.ops)
        /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> vBad, hidden |-> \E o \in DOMAIN vSt.raised: VisibleOf(vSt, o) # vSt.raised[o]]))
        /\ vStep' = Len(C.ops) + 1 /\ UNCHANGED <<vCase, vSt, vBad>>
Next == Step \/ Done
==============================================================================
