------------------------------ MODULE SameEnv ------------------------------
(* All rewritings, up to a length, of all short headers over a few fields.  *)
EXTENDS Same, Json
CONSTANTS MaxFields, MaxSteps
VARIABLES vFrom, vNow, vSteps
F(n, v) == [n |-> B(n), v |-> B(v)]
Fields == TLCEval({F("Host", "a"), F("Allow", "GET,PUT"), F("allow", "FOO"), F("Age", "1,2"), F("Vary", "*"), F("Link", "<a,b>,c"), F("Accept", "a;b=\"c,d\", e"), F("Via", "1.1 a (b, c), d"), F("Accept", "a\\,b"), F("Vary", ",x,"), F("Cache-Control", "no-cache")})
Init == vFrom \in UNION {[1..n -> Fields] : n \in 0..MaxFields} /\ vNow = vFrom /\ vSteps = <<>>
Steps(h) == {[op |-> o, k |-> k, at |-> 0, ws |-> 0, v |-> B("1")] : o \in {"swap", "add", "join", "dilute"}, k \in 1..(Len(h) + 1)}
            \cup UNION {{[op |-> "split", k |-> k, at |-> a, ws |-> 0, v |-> <<>>] : a \in 1..Len(h[k].v)} : k \in 1..Len(h)}
            \cup UNION {{[op |-> "pad", k |-> k, at |-> a, ws |-> 9, v |-> <<>>] : a \in 1..(Len(h[k].v) + 1)} : k \in 1..Len(h)}
Next == /\ Len(vSteps) < MaxSteps
        /\ \E s \in Steps(vNow): Allowed(vNow, s) = TRUE /\ vNow' = Apply(vNow, s) /\ vSteps' = Append(vSteps, s)
        /\ UNCHANGED vFrom
Emit == (vSteps # <<>> /\ Len(vFrom) <= 2) => PrintT("@@" \o ToJson([ops |-> [k \in 1..Len(vSteps) |-> vSteps[k].op]]))
\* What it means stays, and the place of Host
Keeps == Meaning(vNow) = Meaning(vFrom) /\ HostFirst(vNow) = HostFirst(vFrom)
Replays == LET a == After(vFrom, vSteps) IN a.ok /\ a.h = vNow
\* A swap or a split can be undone
Undone == vSteps # <<>> =>
  LET s == vSteps[Len(vSteps)] IN
  (s.op = "swap" => Allowed(vNow, s)) /\ (s.op = "split" => Allowed(vNow, [s EXCEPT !.op = "join"]))
=============================================================================
