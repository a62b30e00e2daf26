------------------------------- MODULE FragEnv -------------------------------
(***************************************************************************)
(* All sequences of at most MaxLen fragments 1..K (an adversarial sender). *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS K, MaxLen
VARIABLE vFrags
Init == vFrags = <<>>
Next == Len(vFrags) < MaxLen /\ \E k \in 1..K : vFrags' = Append(vFrags, k)
Emit == PrintT("@@" \o ToJson(vFrags))
=============================================================================
