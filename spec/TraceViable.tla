----------------------------- MODULE TraceViable -----------------------------
(* Judges how HTTPolice explains a syntax error: [k |-> element, s |-> text, n |-> how many syntax errors are reported,  *)
(* pos |-> offset, eof |-> "found end of data", found |-> octet or -1, opts |-> octets that were expected,             *)
(* end |-> the end of data was expected, odd |-> parts of the explanation that say none of these, exc]                 *)
EXTENDS Viable, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
C0 == Cases[vCase]
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET s == C0.s
         wrong == ~InLanguage(C0.k, s)
         p == IF wrong THEN StopAt(C0.k, s) ELSE 0
         opts == {C0.opts[j] : j \in 1..Len(C0.opts)}
         bad == IF C0.exc # "" THEN {"exception " \o C0.exc}
                ELSE IF C0.n # (IF wrong THEN 1 ELSE 0) THEN {"syntax errors: " \o ToString(C0.n)}
                ELSE IF ~wrong THEN {}
                ELSE IF C0.odd # <<>> THEN {"says " \o ToString(C0.odd)}
                ELSE IF C0.pos # p THEN {"offset " \o ToString(C0.pos) \o " is not " \o ToString(p)}
                ELSE (IF C0.eof # (p = Len(s)) \/ C0.found # (IF p = Len(s) THEN -1 ELSE s[p + 1]) THEN {"found " \o ToString(C0.found)} ELSE {})
                     \cup (LET c == Could(C0.k, s, p) IN
                           (IF c \ opts # {} THEN {"not expected: " \o ToString(c \ opts)} ELSE {})
                           \cup (IF opts \ c # {} THEN {"expected: " \o ToString(opts \ c)} ELSE {}))
                     \cup (IF C0.end # CouldEnd(C0.k, s, p) THEN {"end of data"} ELSE {})
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad, wrong |-> wrong]))
==============================================================================
