------------------------------ MODULE HelpersEnv ------------------------------
(* Every short list of entries, and popping the pseudo-headers from each, step by step; *)
(* every small CGI environment, in every order.                                         *)
EXTENDS Helpers, Json
CONSTANTS MaxLen
VARIABLES vKind, vList, vRun
Q(s) == TLCEval(B(s))
Names == TLCEval({B(":a"), B(":method"), B(":"), B("a"), B("x:a")})
Vars == TLCEval({B("HTTP_HOST"), B("HTTP_X_FOO"), B("CONTENT_LENGTH"), B("CONTENT_TYPE"), B("HTTP_CONTENT_TYPE"), B("HTTPS"), B("HTTP_"), B("PATH"), B("http_x"), B("X_HTTP_Y"), B("CONTENT_FOO")})
Vals == TLCEval({B(""), B("1")})
Init == vKind \in {"pop", "cgi"} /\ vList = <<>> /\ vRun = [k |-> 0, es |-> <<>>, got |-> <<>>]
Grow == /\ vRun.k = 0 /\ Len(vList) < MaxLen
        /\ \E n \in IF vKind = "pop" THEN Names ELSE Vars, v \in Vals:
              /\ vKind = "cgi" => \A k \in 1..Len(vList): vList[k].n # n
              /\ vList' = Append(vList, [n |-> n, v |-> v])
        /\ UNCHANGED <<vKind, vRun>>
Begin == vKind = "pop" /\ vRun.k = 0 /\ vRun' = PopStart(vList) /\ UNCHANGED <<vKind, vList>>
Step == vRun.k > 0 /\ ~PopDone(vRun) /\ vRun' = PopStep(vRun) /\ UNCHANGED <<vKind, vList>>
Next == Grow \/ Begin \/ Step
Emit == (vRun.k = 0) => PrintT("@@" \o ToJson([kind |-> vKind, list |-> vList]))
\* The procedure keeps what it should, at every step and at the end
Loop == vRun.k > 0 => /\ Kept(vRun.es) = Kept(vList)
                      /\ vRun.got \o Taken(vRun.es) = Taken(vList)
                      /\ PopDone(vRun) => vRun.es = Kept(vList)
==============================================================================
