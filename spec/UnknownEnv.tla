----------------------------- MODULE UnknownEnv -----------------------------
(* The exchanges of the scopes of RulesEnv, with everything that may become  *)
(* unknown about them, fact after fact, in every order.                      *)
EXTENDS RulesEnv, Unknown
VARIABLES vEx, vLast, vWas, vNow, vDepth
CONSTANTS Depth, Share
None0 == [w |-> "none", f |-> "none"]
Blank == [none |-> TRUE]
Start == Init /\ vEx = Blank /\ vLast = None0 /\ vWas = [ex |-> Blank, exp |-> {}] /\ vNow = {} /\ vDepth = 0
Code == Hash(vPick \o <<77>> \o vQ \o <<78>> \o vP, 1)
Build == vDepth = 0 /\ Next /\ UNCHANGED <<vEx, vLast, vWas, vNow, vDepth>>
Freeze == vDepth = 0 /\ Code % Parts = Part /\ vEx' = Exchange /\ vDepth' = 1 /\ UNCHANGED <<vPick, vQ, vP, vLast, vWas>>
          /\ vNow' = IF (Code \div Parts) % Share = 0 THEN Expected(vEx') ELSE {}
Forget == /\ vDepth \in 1..Depth /\ (Code \div Parts) % Share = 0
          /\ \E x \in Facts(vEx): vEx' = LoseOne(vEx, x) /\ vLast' = x
          /\ vWas' = [ex |-> vEx, exp |-> vNow] /\ vNow' = Expected(vEx') /\ vDepth' = vDepth + 1 /\ UNCHANGED <<vPick, vQ, vP>>
Step == Build \/ Freeze \/ Forget
\* nothing appears, except what the known value suppressed
OnlyDisables == vDepth > 1 => \A y \in vNow: y \in vWas.exp \/ y[1] \in Suppressed(vWas.ex, vLast, y[2])
Emitted == vDepth # 1 \/ PrintT("@@" \o ToJson(vEx))
=============================================================================
