------------------------------ MODULE TraceWhy ------------------------------
(* Judges how the framing errors of a connection are explained in the report: [in, out, got |-> explanations in order, odd |-> what cannot be read, exc] *)
EXTENDS FramingWhy, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vSt, vJudged
C0 == Cases[vCase]
Init == vCase \in 1..N /\ vSt = Start(Cases[vCase].in, Cases[vCase].out) /\ vJudged = FALSE
Go == vSt.ph # "done" /\ vSt' = Step(<<>>, vSt) /\ UNCHANGED <<vCase, vJudged>>
Same(a, b) == a.id = b.id /\ a.name = b.name /\ a.at = b.at /\ a.what = b.what /\ a.n = b.n /\ a.sym = b.sym
Bad == IF C0.exc # "" THEN {"exception " \o C0.exc}
       ELSE IF C0.odd # <<>> THEN {"says " \o ToString(C0.odd)}
       ELSE LET x == Explained(vSt) IN
            IF Len(x) # Len(C0.got) THEN {"number of framing errors"}
            ELSE {ToString(x[k]) \o " explained as " \o ToString(C0.got[k]) : k \in {j \in 1..Len(x) : ~Same(x[j], C0.got[j])}}
Judge == /\ vSt.ph = "done" /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED <<vCase, vSt>>
         /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> Bad, ids |-> {Explained(vSt)[k].id : k \in 1..Len(Explained(vSt))}]))
Next == Go \/ Judge
\* An explanation is about data of the stream, and every framing error has one
InStream == \A k \in 1..Len(vSt.ev) : \A j \in 1..Len(OfEvent(vSt, k)) : LET x == OfEvent(vSt, k)[j] IN
    x.what # "none" /\ (x.at >= 0 => x.at <= Len(IF x.name = "in" THEN vSt.i.s ELSE vSt.o.s))
==============================================================================
