------------------------------- MODULE TraceCli -------------------------------
(* Judges runs of the tool.  A case: [broken, fail, ids (of -s), base, text |-> lines of the text reports without *)
(* and with -s, hbase, html |-> lists of notices in the HTML reports, out |-> "text" or "html", code, err, exc]   *)
EXTENDS Cli, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
Set(seq) == {seq[k] : k \in 1..Len(seq)}
Bad(c) ==
    LET ids == Set(c.ids)
        ls == Lines(c.text)
        bs == Lines(c.base)
        shown == IF c.out = "text" THEN ShownIn(ls) ELSE {NameOf(c.html[k].sev) : k \in 1..Len(c.html)}
        \* severities are those of the notices, not just what the report says
        known == IF c.out = "text" THEN {NameOf(Sev(ls[k].id)) : k \in {j \in 1..Len(ls): ls[j].lv = 3 /\ ls[j].id \in KnownIds}}
                 ELSE {NameOf(Sev(c.html[k].id)) : k \in {j \in 1..Len(c.html): c.html[j].id \in KnownIds}}
    IN  (IF c.code # ExitStatus(c.broken, c.fail, shown) THEN {"exit status"} ELSE {})
        \cup (IF shown # known THEN {"severity"} ELSE {})
        \cup (IF c.broken # c.err THEN {"standard error"} ELSE {})
        \cup (IF c.broken THEN {} ELSE
              IF c.out = "text" THEN (IF ls # Without(bs, ids) THEN {"text report under -s"} ELSE {})
              ELSE (IF c.html # WithoutHtml(c.hbase, ids) THEN {"html report under -s"} ELSE {}))
        \cup (IF c.out = "text" /\ \E k \in 1..Len(ls): ls[k].lv = 9 THEN {"text report line"} ELSE {})
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ LET c == Cases[vCase]
         bad == IF c.exc # "" THEN {"exception"} ELSE Bad(c)
     IN PrintT("@@" \o ToJson([i |-> vCase, bad |-> bad]))
==============================================================================
