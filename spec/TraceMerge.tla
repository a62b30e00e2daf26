------------------------------ MODULE TraceMerge ------------------------------
(* Judges recorded merges.  A case: [conns, labels |-> label of every exchange, out |-> labels in the order seen, exc]. *)
(* Exchanges that are only a notice are told apart only by the notice, so the set of possible states is tracked.       *)
EXTENDS Merge, TLC, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vStep, vPoss, vBad
C == Cases[vCase]
Init == vCase \in 1..N /\ vStep = 0 /\ vBad = {} /\ vPoss = {Begin(Cases[vCase].conns)}
Can(st, l) == {c \in Active(C.conns, st): C.labels[c][st[c].n + 1] = l}
Succ(poss, l) == UNION {{AfterEmit(C.conns, st, c) : c \in {d \in Can(st, l): MayEmit(C.conns, st, d)}} : st \in poss}
Step ==
  /\ vStep < Len(C.out) /\ vBad = {}
  /\ vStep' = vStep + 1 /\ UNCHANGED vCase
  /\ LET l == C.out[vStep + 1]
         next == Succ(vPoss, l) IN
     /\ vPoss' = next
     /\ vBad' = IF next # {} THEN {}
                ELSE IF \E st \in vPoss: Can(st, l) # {} THEN {"not the earliest: " \o l}
                ELSE {"not next in its connection: " \o l}
Done == /\ vStep = Len(C.out) \/ vBad # {}
        /\ vStep < 1000
        /\ LET bad == IF C.exc # "" THEN {"exception"} ELSE IF vBad # {} THEN vBad
                      ELSE IF \E st \in vPoss: Active(C.conns, st) = {} THEN {} ELSE {"exchanges missing"}
           IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad]))
        /\ vStep' = 1000 /\ UNCHANGED <<vCase, vPoss, vBad>>
Next == Step \/ Done
==============================================================================
