------------------------------- MODULE Combined -------------------------------
(***************************************************************************)
(* The combined input format: one file with both streams of a connection.  *)
(* (Property C15.)  A file is a name and a sequence of pieces:             *)
(* "in", "out": the markers; "lfin", "lfout": the same without the CR that *)
(* a marker has to have; "text", "req", "resp": anything else.             *)
(***************************************************************************)
EXTENDS Abnf

\* What stands before the first inbound marker is ignored, also outbound markers
InAt(ps) == IF \E k \in 1..Len(ps): ps[k] = "in" THEN CHOOSE k \in 1..Len(ps): ps[k] = "in" /\ \A j \in 1..(k - 1): ps[j] # "in" ELSE 0
\* The first outbound marker after that ends the inbound stream; further markers are data
OutAt(ps) == IF InAt(ps) > 0 /\ \E k \in InAt(ps)..Len(ps): ps[k] = "out"
             THEN CHOOSE k \in InAt(ps)..Len(ps): ps[k] = "out" /\ \A j \in InAt(ps)..(k - 1): ps[j] # "out" ELSE 0
WellFormed(ps) == OutAt(ps) > 0
Inbound(ps) == SubSeq(ps, InAt(ps) + 1, OutAt(ps) - 1)
Outbound(ps) == SubSeq(ps, OutAt(ps) + 1, Len(ps))
\* The scheme of the requests, by the name of the file
EndsIn(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
SchemeOf(name) == IF EndsIn(name, B(".https")) THEN "https" ELSE IF EndsIn(name, B(".noscheme")) THEN "none" ELSE "http"
==============================================================================
