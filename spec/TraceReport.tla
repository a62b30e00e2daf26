----------------------------- MODULE TraceReport -----------------------------
(* Judges pairs of reports.  A case: [exchs, text |-> lines, html |-> [utf8, balanced, tags, attrs, classes, exchs], *)
(* tchars, hchars |-> the distinct characters of the reports, exc]                                                  *)
EXTENDS Report, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
Set(seq) == {seq[k] : k \in 1..Len(seq)}
TextBad(c) ==
    LET want == TextLines(c.exchs) IN
    IF Len(want) # Len(c.text) THEN {"text lines"}
    ELSE UNION {IF LineOk(want[k], c.text[k]) THEN {} ELSE {IF want[k].mark THEN "text marker" ELSE "text notice"} : k \in 1..Len(want)}
HtmlBad(c) ==
    LET want == HtmlExchs(c.exchs)   got == c.html.exchs IN
    IF Len(want) # Len(got) THEN {"html exchanges"} ELSE UNION {BadExch(want[k], got[k]) : k \in 1..Len(want)}
\* Both reports word the notices alike
TitlesT(c) == LET want == TextLines(c.exchs) IN
    [k \in 1..Len(want) |-> IF want[k].mark THEN <<>> ELSE Norm(SubSeq(c.text[k], Len(want[k].s) + 1, Len(c.text[k])), <<>>)]
TitlesH(c) ==
    LET OfX(x) == Concat([k \in 1..Len(x.secs) |-> x.secs[k].notices]) \o x.own
        all == Concat([k \in 1..Len(c.html.exchs) |-> OfX(c.html.exchs[k])]) IN
    [k \in 1..Len(all) |-> Norm(Plain(all[k].title), <<>>)]
Agree(c) == SelectSeq(TitlesT(c), LAMBDA t: t # <<>>) = TitlesH(c)
WellFormed(c) ==
    (IF ~c.html.utf8 \/ ~c.tutf8 THEN {"encoding"} ELSE {})
    \cup (IF ~c.html.balanced THEN {"html structure"} ELSE {})
    \cup (IF Set(c.html.tags) \subseteq Tags /\ Set(c.html.attrs) \subseteq Attrs /\ Set(c.html.classes) \subseteq Classes THEN {} ELSE {"html markup"})
    \cup (IF \E x \in Set(c.tchars): Unprintable(x) THEN {"text characters"} ELSE {})
    \cup (IF \E x \in Set(c.hchars): Unprintable(x) THEN {"html characters"} ELSE {})
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET c == Cases[vCase]
         one == TextBad(c) \cup HtmlBad(c)
         bad == IF c.exc # "" THEN {"exception"} ELSE WellFormed(c) \cup one \cup (IF one = {} /\ ~Agree(c) THEN {"titles differ"} ELSE {})
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad, lines |-> Len(TextLines(c.exchs))]))
==============================================================================
