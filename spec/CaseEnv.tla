------------------------------- MODULE CaseEnv -------------------------------
(* Each template, in each place it may be, with each way of changing case, in *)
(* some context; each impostor with each of its wrong cases in each context.   *)
EXTENDS Case, Json
VARIABLES vKind, vPick, vDone
Contexts == {"get", "post", "put", "head", "options", "connect", "partial", "notmodified", "auth", "switch", "upgrade", "unsupported", "early", "continue", "redirect", "old", "h2", "noreq", "noresp", "proxyauth"}
Modes == {"up", "low", "odd", "even"}
Init == vDone = FALSE /\ \/ vKind = "vary" /\ vPick \in [k : 1..Len(Templates), c : {"any"}, m : Modes, name : {"up", "low", "odd", "same"}, at : {"req", "resp"}]
                            /\ (Templates[vPick.k].at = "any" \/ Templates[vPick.k].at = vPick.at)
                         \/ vKind = "impostor" /\ vPick \in [k : 1..Len(Impostors), c : Contexts, m : Modes]
Next == ~vDone /\ vDone' = TRUE /\ UNCHANGED <<vKind, vPick>>
Changed(fl, mode) == Flip(fl, mode) # Text(fl)
Name(mode, h) == Flip([k \in 1..Len(h) |-> [c |-> h[k], in |-> TRUE]], mode)
Out == IF vKind = "vary" THEN LET t == Templates[vPick.k] fl == Flag(t.v, 126) IN
         [kind |-> "vary", at |-> vPick.at, c |-> vPick.c, h |-> t.h, v |-> t.v, a |-> Text(fl), h2 |-> Name(vPick.name, t.h), b |-> Flip(fl, vPick.m)]
       ELSE LET t == Impostors[vPick.k] fl == Flag(t.v, 94) IN
         [kind |-> "impostor", at |-> t.at, c |-> vPick.c, h |-> t.h, v |-> t.v, a |-> Flip(fl, vPick.m), h2 |-> t.h, b |-> t.x]
Useful == IF vKind = "vary" THEN Out.a # Out.b \/ Out.h # Out.h2 ELSE Changed(Flag(Impostors[vPick.k].v, 94), vPick.m)
Emit == (vDone /\ Useful) => PrintT("@@" \o ToJson(Out))
\* what we vary is a variation, and being one is symmetric and the wrong case is none
Same(f, g) == Variation([k \in 1..Len(f) |-> [c |-> f[k], in |-> g[k].in]], Text(g))
Sane == IF vKind = "vary" THEN LET fl == Flag(Out.v, 126) IN Variation(fl, Out.b) /\ Variation(fl, Out.a) /\ Same(Out.b, fl) /\ LowerT(Out.h) = LowerT(Out.h2)
                               /\ (vPick.m = "up" => (Changed(fl, "low") \/ Changed(fl, "up") \/ \A k \in 1..Len(fl): fl[k].in => ~Letter(fl[k].c)))
        ELSE Changed(Flag(Out.v, 94), vPick.m) => ~Variation(Flag(Out.v, 126), Out.a)
==============================================================================
