---------------------------- MODULE TraceFraming ----------------------------
(***************************************************************************)
(* Trace validation for Framing: each recorded case gives the two streams  *)
(* and what the real analysis produced for them.  The behaviour of the     *)
(* specification on those streams is computed with its own actions (every  *)
(* step is a TLC state, so its invariants are evaluated at every step) and *)
(* compared event by event with the observation.                           *)
(***************************************************************************)
EXTENDS Framing, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
\* (Names that no constant definition uses as a bound identifier: TLC would not cache those.)
VARIABLES vCase, vSt, vJudged
vars == <<vCase, vSt, vJudged>>

C == Cases[vCase]
Init == /\ vCase \in 1..N
        /\ vSt = Start(Cases[vCase].in, Cases[vCase].out)
        /\ vJudged = FALSE
ReadRequest  == vSt.ph = "req" /\ Good(vSt.i) /\ vSt' = DoRequest(C.codec, vSt) /\ UNCHANGED <<vCase, vJudged>>
EndRequests  == vSt.ph = "req" /\ ~Good(vSt.i) /\ vSt' = DoLeftover(vSt) /\ UNCHANGED <<vCase, vJudged>>
ReadOrphan   == vSt.ph = "orph" /\ Good(vSt.o) /\ vSt' = DoOrphan(C.codec, vSt) /\ UNCHANGED <<vCase, vJudged>>
EndResponses == vSt.ph = "orph" /\ ~Good(vSt.o) /\ vSt' = DoEnd(vSt) /\ UNCHANGED <<vCase, vJudged>>

(* ------------------------------ comparison ------------------------------ *)
CountOf(notes, id) == Cardinality({n \in notes : n[1] = id})
\* After a coding whose outcome is not modelled, its notices are not judged.
Judged(m, id) == m.body.k # "x" \/ id \notin {1002, 1003, 1027}
NotesDiff(m, o) ==           \* o.notes: sequence of <<id, count>>
  \/ \E k \in 1..Len(o.notes) : Judged(m, o.notes[k][1]) /\ CountOf(m.notes, o.notes[k][1]) # o.notes[k][2]
  \/ \E n \in m.notes : \A k \in 1..Len(o.notes) : o.notes[k][1] # n[1]
SameHdrs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k][1] = b[k][1] /\ a[k][2] = b[k][2]
MsgDiff(m, o) ==
  (IF m.off # o.off THEN {"offset"} ELSE {})
  \cup (IF m.a # o.a \/ m.b # o.b \/ m.ver # o.ver THEN {"startline"} ELSE {})
  \cup (IF ~SameHdrs(m.hdrs, o.hdrs) THEN {"headers"} ELSE {})
  \cup (IF m.body # o.body /\ m.body.k # "x" THEN {"body"} ELSE {})
  \cup (IF ~SameHdrs(m.trl, o.trl) THEN {"trailers"} ELSE {})
  \cup (IF NotesDiff(m, o) THEN {"notices"} ELSE {})
EvDiff(e, o) ==
  IF e.k # o.k THEN {"event"}
  ELSE IF e.k = "box"
       THEN IF e.id # o.id \/ (e.off >= 0 /\ o.off >= 0 /\ e.off # o.off) THEN {"box"} ELSE {}
       ELSE IF e.on # o.on \/ Len(e.resps) # Len(o.resps) THEN {"attribution"}
            ELSE (IF e.on THEN MsgDiff(e.req, o.req) ELSE {})
                 \cup UNION {MsgDiff(e.resps[k], o.resps[k]) : k \in 1..Len(e.resps)}
BoxesOf(ev) == LET x == SelectSeq(ev, LAMBDA e : e.k = "box") IN [j \in 1..Len(x) |-> x[j].id]
Bad ==
  IF C.exc # "" THEN {"exception"}
  ELSE LET n == IF Len(vSt.ev) < Len(C.obs) THEN Len(vSt.ev) ELSE Len(C.obs) IN
       (IF Len(vSt.ev) # Len(C.obs) THEN {"count"} ELSE {})
       \cup (IF BoxesOf(vSt.ev) # BoxesOf(C.obs) THEN {"box"} ELSE {})
       \cup UNION {EvDiff(vSt.ev[k], C.obs[k]) : k \in 1..n}

Judge == /\ vSt.ph = "done" /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED <<vCase, vSt>>
         /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> Bad]))
Next == ReadRequest \/ EndRequests \/ ReadOrphan \/ EndResponses \/ Judge
Spec == Init /\ [][Next]_vars

InvConservation == Conservation(vSt)
InvReported     == Reported(vSt)
InvFinalLast    == FinalLast(vSt)
InvNoBody       == NoBodyWhere(vSt)
\* Progress: every step either consumes input or moves to the next phase.
Progress == [][vSt'.i.p > vSt.i.p \/ vSt'.o.p > vSt.o.p \/ vSt'.ph # vSt.ph \/ vJudged' # vJudged
               \/ (vSt'.i.sane # vSt.i.sane) \/ (vSt'.o.sane # vSt.o.sane)
               \/ (vSt'.i.started # vSt.i.started) \/ (vSt'.o.started # vSt.o.started)]_vars
=============================================================================
