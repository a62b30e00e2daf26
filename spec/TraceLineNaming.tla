-------------------------- MODULE TraceLineNaming --------------------------
(* Judges the titles reported for a message with one interesting header:     *)
(* [n |-> header, es |-> its lines (octets), got |-> titles with variable    *)
(* parts also as code points, odd, exc].  The header they name is that one,  *)
(* and other names they mention are in one of its lines.                     *)
EXTENDS Naming, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
C0 == Cases[vCase]
Low(s) == [k \in 1..Len(s) |-> IF s[k] \in 65..90 THEN s[k] + 32 ELSE s[k]]
Inside(p, s) == \E k \in 1..(Len(s) - Len(p) + 1): SubSeq(s, k, k + Len(p) - 1) = p
\* (escapes and octets outside ASCII are shown in another form)
Simple(s) == \A k \in 1..Len(s): s[k] \in 32..126 /\ s[k] # 92
\* The position of the name of a part of the header
PartAt == TLCEval([id \in {1154, 1155, 1156, 1157, 1158, 1225, 1247, 1253, 1282, 1296} |-> IF id \in {1156, 1157, 1158} THEN 2 ELSE 1])
Here == TLCEval(DOMAIN PlaceAt \ {1013, 1026})
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET bad == IF C0.exc # "" THEN {"exception " \o C0.exc}
                ELSE {"title of " \o ToString(C0.odd[k]) : k \in 1..Len(C0.odd)}
                     \cup {ToString(C0.got[k].id) \o " names another header" :
                           k \in {j \in 1..Len(C0.got): C0.got[j].id \in Here \cup {1013} /\ C0.got[j].low[PlaceAt[C0.got[j].id]] # C0.n}}
                     \cup {ToString(C0.got[k].id) \o " names something else" :
                           k \in {j \in 1..Len(C0.got): /\ C0.got[j].id \in DOMAIN PartAt
                                                        /\ \A i \in 1..Len(C0.es): /\ Simple(C0.es[i])
                                                                                   /\ ~Inside(C0.got[j].oct[PartAt[C0.got[j].id]], Low(C0.es[i]))}}
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad]))
=============================================================================
