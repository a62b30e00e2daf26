------------------------------ MODULE TraceCut ------------------------------
(***************************************************************************)
(* Truncated captures.  Each case also carries the complete streams; the   *)
(* behaviour on the truncated ones must agree with the behaviour on the    *)
(* complete ones about every message that was complete, and must report    *)
(* the truncation of the message that was not.                             *)
(***************************************************************************)
EXTENDS TraceFraming
Full == Run(C.codec, Start(C.fin, C.fout))
SameMsg(a, b) == a.off = b.off /\ a.a = b.a /\ a.b = b.b /\ a.ver = b.ver /\ a.hdrs = b.hdrs
                 /\ a.body = b.body /\ a.trl = b.trl /\ a.notes = b.notes /\ a.end = b.end
CutIn  == Len(C.in.s)
CutOut == Len(C.out.s)
\* The complete messages of the full stream reappear, in the same places of the sequence.
Keeps(full, cut, limit) ==
  \A k \in 1..Len(full) : full[k].end <= limit /\ ~full[k].close => k <= Len(cut) /\ SameMsg(full[k], cut[k])
HasNote(ms, ids) == \E k \in 1..Len(ms) : \E n \in ms[k].notes : n[1] \in ids
Inside(ms, c) == \E k \in 1..Len(ms) : ms[k].off < c /\ c < ms[k].end /\ ~ms[k].close
CutBad ==
  IF vSt.ph # "done" \/ ~C.cut THEN {}
  ELSE LET f == Full
           fq == ReqsOf(f.ev)   cq == ReqsOf(vSt.ev)
           fr == RespsOf(f.ev)  cr == RespsOf(vSt.ev)
       IN (IF ~Keeps(fq, cq, CutIn) THEN {"complete requests lost"} ELSE {})
          \cup (IF C.in = C.fin /\ ~Keeps(fr, cr, CutOut) THEN {"complete responses lost"} ELSE {})
          \cup (IF Inside(fq, CutIn) /\ C.out = C.fout /\ ~HasNote(cq, {1004, 1005}) /\ {1006, 1007} \cap BoxIds(vSt.ev) = {}
                THEN {"truncated request not reported"} ELSE {})
          \cup (IF Inside(fr, CutOut) /\ C.in = C.fin /\ ~HasNote(cr, {1004, 1005}) /\ {1009, 1010} \cap BoxIds(vSt.ev) = {}
                   /\ ~HasNote(cr, {1011, 1012})
                THEN {"truncated response not reported"} ELSE {})
InvCut == CutBad = {}
=============================================================================
