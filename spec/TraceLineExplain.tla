-------------------------- MODULE TraceLineExplain --------------------------
(* Judges the explanations reported for a message with one interesting header: *)
(* [n |-> header, k |-> its grammar, es |-> its lines (octets), got |-> notices *)
(* with their variable parts (octets), odd, exc].                              *)
EXTENDS LineFacts, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
C0 == Cases[vCase]
\* (other octets are shown in another form)
Plain(s) == \A k \in 1..Len(s): s[k] \in 32..126
Shown(f) == ToString(f[1]) \o " " \o ToString(f[2])
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET good == {k \in 1..Len(C0.es): InLanguage(C0.k, C0.es[k])}
         exp == UNION {LineFacts(C0.n, C0.es[k], k = Len(C0.es)) : k \in good}
         open == UNION {Open(C0.n, C0.es[k], Lexed(C0.n, C0.es[k])) : k \in good}
         told == {k \in 1..Len(C0.got): C0.got[k].id \in DOMAIN Stating \ open}
         stated == {Stated(C0.got[k]) : k \in told}
         ids == {C0.got[k].id : k \in told}
         bad == IF C0.exc # "" THEN {"exception " \o C0.exc}
                ELSE {"words of " \o ToString(C0.odd[k]) : k \in 1..Len(C0.odd)}
                     \cup {"repeats another " \o ToString(C0.got[k].id) : k \in {j \in 1..Len(C0.got): ~Consistent(C0.got[j])}}
                     \cup IF \A k \in 1..Len(C0.es): Plain(C0.es[k])
                          THEN {"states " \o Shown(f) : f \in stated \ exp}
                               \cup {"does not state " \o Shown(f) : f \in {x \in exp: x[1] \in ids} \ stated}
                          ELSE {}
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad]))
=============================================================================
