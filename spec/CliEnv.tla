-------------------------------- MODULE CliEnv --------------------------------
(* All command lines of a small scope: at most MaxPaths inputs, each good (showing     *)
(* notices of some severities) or broken; --fail-on; -s.  The model's shown severities *)
(* are those of the inputs minus what is silenced.                                     *)
EXTENDS Cli, Json
CONSTANTS MaxPaths
VARIABLES vIn, vFail, vSil, vOut
Kinds == {"clean", "D", "C", "E", "CE", "DC", "mutedE", "mutedsome"}
Broken == {"missing", "wrongtype", "malformed"}
Shows(k) == CASE k = "D" -> {"debug"} [] k = "C" -> {"comment"} [] k = "E" -> {"error"} [] k = "CE" -> {"comment", "error"}
              [] k = "DC" -> {"debug", "comment"} [] k = "mutedsome" -> {"comment"} [] OTHER -> {}
\* what -s leaves: nothing silenced, notices of one severity silenced, everything silenced, IDs not there
Silence == {"none", "D", "C", "E", "some", "all", "other"}
Left(shown) == CASE vSil = "all" -> {} [] vSil = "D" -> shown \ {"debug"} [] vSil = "C" -> shown \ {"comment"} [] vSil = "E" -> shown \ {"error"} [] OTHER -> shown
Init == vIn = <<>> /\ vFail \in Severities \cup {"none"} /\ vSil \in Silence /\ vOut \in {"text", "html"}
Next == Len(vIn) < MaxPaths /\ \E k \in Kinds \cup Broken: vIn' = Append(vIn, k) /\ UNCHANGED <<vFail, vSil, vOut>>
IsBroken == \E k \in 1..Len(vIn): vIn[k] \in Broken
InView == UNION {Shows(vIn[k]) : k \in 1..Len(vIn)}
Exit == ExitStatus(IsBroken, vFail, Left(InView))
Emit == (vIn # <<>>) => PrintT("@@" \o ToJson([in |-> vIn, fail |-> vFail, sil |-> vSil, out |-> vOut]))
\* Readable input and no --fail-on: success
Quiet == (~IsBroken /\ vFail = "none") => Exit = 0
\* A lower threshold never turns failure into success; silencing never turns success into failure
Monotone == \A a, b \in Severities: Rank(a) <= Rank(b) => ExitStatus(IsBroken, a, InView) >= ExitStatus(IsBroken, b, InView)
SilencingHelps == Exit <= ExitStatus(IsBroken, vFail, InView)
\* Broken input always fails
BrokenFails == IsBroken => Exit = 1
==============================================================================
