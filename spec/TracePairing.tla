----------------------------- MODULE TracePairing -----------------------------
(* Judges what came out of capture directories.                                     *)
(* kind "dir": [fs, names |-> "good" or "bad", alone |-> for each (in, out) that    *)
(* can be, the exchanges the two files give on their own, got |-> exchanges, err]   *)
(* kind "same": [got |-> one sequence of exchanges per format]                      *)
(* kind "combined": [files |-> each [ps, name, alone |-> for each two cuts (in, out) *)
(* what the two streams give on their own], got |-> exchanges, schemes, err]        *)
(* An exchange is a string that identifies it.                                      *)
EXTENDS Pairing, Combined, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
RECURSIVE Flat(_)
Flat(ss) == IF ss = {} THEN <<>> ELSE LET s == CHOOSE x \in ss: TRUE IN s[2] \o Flat(ss \ {s})
Count(seq, x) == Cardinality({k \in 1..Len(seq): seq[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s): Count(s, s[k]) = Count(t, s[k])
Files(c) == [k \in 1..Len(c.fs) |-> [dir |-> c.fs[k].dir, src |-> c.fs[k].src, dst |-> c.fs[k].dst, num |-> c.fs[k].num,
                                       time |-> c.fs[k].time, has |-> ClassOf(c.fs[k].head)]]
Lo(p) == IF p[1] < p[2] THEN p[1] ELSE p[2]
Hi(p) == IF p[1] < p[2] THEN p[2] ELSE p[1]
Expected(c, fs) ==
    LET Of(p) == LET d == Direction(fs, p)
                     boxes == [k \in 1..Len(Notices(fs, p)) |-> IF Notices(fs, p)[k] = 1278 THEN "1278 " \o c.path[p[1]]
                                ELSE "1279 " \o (IF Len(p) = 2 THEN c.path[Lo(p)] \o " " \o c.path[Hi(p)] ELSE c.path[p[1]])] IN
                 boxes \o (IF d.in = 0 /\ d.out = 0 THEN <<>>
                           ELSE c.alone[CHOOSE k \in 1..Len(c.alone): c.alone[k].in = d.in /\ c.alone[k].out = d.out].exchs)
    IN Flat({<<p, Of(p)>> : p \in Pairs(fs)})
AloneOf(f) == f.alone[CHOOSE k \in 1..Len(f.alone): f.alone[k].in = InAt(f.ps) /\ f.alone[k].out = OutAt(f.ps)]
RECURSIVE AllExchs(_), AllSchemes(_)
AllExchs(fs) == IF fs = <<>> THEN <<>> ELSE AloneOf(Head(fs)).exchs \o AllExchs(Tail(fs))
AllSchemes(fs) == IF fs = <<>> THEN <<>> ELSE [k \in 1..AloneOf(Head(fs)).nreq |-> SchemeOf(Head(fs).name)] \o AllSchemes(Tail(fs))
Bad(c) ==
    IF c.kind = "combined" THEN
        IF \E k \in 1..Len(c.files): ~WellFormed(c.files[k].ps) THEN (IF c.err THEN {} ELSE {"no input error"})
        ELSE IF c.err THEN {"input error"}
        ELSE (IF c.got # AllExchs(c.files) THEN {"combined: exchanges"} ELSE {})
             \cup (IF c.schemes # AllSchemes(c.files) THEN {"combined: scheme"} ELSE {})
    ELSE IF c.kind = "same" THEN {"not the same: " \o c.fmts[k] : k \in {j \in 2..Len(c.got): c.got[j] # c.got[1]}}
    ELSE IF c.names = "bad" \/ Duplicates(Files(c)) THEN (IF c.err THEN {} ELSE {"no input error"})
    ELSE IF c.err THEN {"input error"}
    ELSE LET want == Expected(c, Files(c)) IN
         {"missing: " \o want[k] : k \in {j \in 1..Len(want): Count(c.got, want[j]) < Count(want, want[j])}}
         \cup {"not expected: " \o c.got[k] : k \in {j \in 1..Len(c.got): Count(want, c.got[j]) < Count(c.got, c.got[j])}}
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET c == Cases[vCase]
         bad == IF c.exc # "" THEN {"exception"} ELSE Bad(c)
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad]))
==============================================================================
