----------------------------- MODULE FramingEnv -----------------------------
(***************************************************************************)
(* What may appear on a connection: an abstract client and server append   *)
(* messages (described by kinds) to their streams.  TLC enumerates every   *)
(* connection within a scope; the harness renders each as octets, feeds    *)
(* the real analysis with them, and TraceFraming judges the result.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Methods, ReqFramings, Statuses, RespFramings, Tails, MaxReq, MaxResp, MustOn
VARIABLES vReqs, vResps, vTail, vPhase
vars == <<vReqs, vResps, vTail, vPhase>>

Init == vReqs = <<>> /\ vResps = <<>> /\ vTail = "" /\ vPhase = "send"
SendRequest == /\ vPhase = "send" /\ vResps = <<>> /\ Len(vReqs) < MaxReq
               /\ \E m \in Methods, f \in ReqFramings : vReqs' = Append(vReqs, <<m, f>>)
               /\ UNCHANGED <<vResps, vTail, vPhase>>
SendResponse == /\ vPhase = "send" /\ Len(vResps) < MaxResp
                /\ \E s \in Statuses, f \in RespFramings : vResps' = Append(vResps, <<s, f>>)
                /\ UNCHANGED <<vReqs, vTail, vPhase>>
Close == /\ vPhase = "send" /\ vPhase' = "closed"
         /\ (MustOn => vReqs # <<>> /\ vResps # <<>>)
         /\ \E t \in Tails : vTail' = t
         /\ UNCHANGED <<vReqs, vResps>>
Next == SendRequest \/ SendResponse \/ Close
Spec == Init /\ [][Next]_vars
Emit == vPhase = "closed" => PrintT("@@" \o ToJson([q |-> vReqs, r |-> vResps, t |-> vTail]))
=============================================================================
