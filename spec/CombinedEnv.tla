----------------------------- MODULE CombinedEnv ------------------------------
(* All combined files of a few pieces. *)
EXTENDS Combined, Json
CONSTANT MaxPieces
VARIABLES vPs
Init == vPs = <<>>
Next == Len(vPs) < MaxPieces /\ \E p \in {"in", "out", "lfin", "lfout", "text", "req", "resp"}: vPs' = Append(vPs, p)
Emit == Len(vPs) > 1 => PrintT("@@" \o ToJson(vPs))
\* Nothing is lost: the file is the ignored part, the inbound stream, the outbound stream and the two markers
Whole == WellFormed(vPs) => SubSeq(vPs, 1, InAt(vPs) - 1) \o <<"in">> \o Inbound(vPs) \o <<"out">> \o Outbound(vPs) = vPs
\* What follows does not change how a file begins
Stable == WellFormed(vPs) => \A p \in {"in", "out", "text"}: LET qs == Append(vPs, p) IN
              WellFormed(qs) /\ Inbound(qs) = Inbound(vPs) /\ Outbound(qs) = Append(Outbound(vPs), p)
\* No stream depends on what is ignored
Ignored == WellFormed(vPs) => \A p \in {"out", "lfin", "text"}: Inbound(<<p>> \o vPs) = Inbound(vPs) /\ Outbound(<<p>> \o vPs) = Outbound(vPs)
==============================================================================
