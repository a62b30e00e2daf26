---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command-line tool: what it exits with, and what -s removes from a   *)
(* report.  (Property C13.)                                                *)
(* A report is a sequence of lines [mark, sev, id, s]: section markers     *)
(* (level 1: exchange, level 2: response) and notices.                     *)
(***************************************************************************)
EXTENDS Report

Severities == {"debug", "comment", "error"}
Rank(sev) == CASE sev = "debug" -> 1 [] sev = "comment" -> 2 [] sev = "error" -> 3
NameOf(letter) == CASE letter = "D" -> "debug" [] letter = "C" -> "comment" [] letter = "E" -> "error"
\* broken: some input cannot be read or understood; shown: severities of the notices reported
ExitStatus(broken, failOn, shown) ==
    IF broken \/ (failOn # "none" /\ \E sev \in shown: Rank(sev) >= Rank(failOn)) THEN 1 ELSE 0

------------------------------------------------------------------------------
(* Reading a text report *)
Dashes == B("------------")
MarkLevel(s) == IF ~Starts(s, Dashes) THEN 0 ELSE IF Starts(s, Dashes \o B(" response: ")) THEN 2 ELSE 1
LetterOf(s) == IF Len(s) < 7 THEN "?" ELSE CASE s[1] = 68 -> "D" [] s[1] = 67 -> "C" [] s[1] = 69 -> "E" [] OTHER -> "?"
IsNotice(s) == LetterOf(s) # "?" /\ s[2] = 32 /\ s[7] = 32 /\ \A k \in 3..6: s[k] \in 48..57
IdOf(s) == 1000 * (s[3] - 48) + 100 * (s[4] - 48) + 10 * (s[5] - 48) + (s[6] - 48)
Line(s) == IF MarkLevel(s) > 0 THEN [lv |-> MarkLevel(s), sev |-> "", id |-> 0, s |-> s]
           ELSE IF IsNotice(s) THEN [lv |-> 3, sev |-> LetterOf(s), id |-> IdOf(s), s |-> s]
           ELSE [lv |-> 9, sev |-> "", id |-> 0, s |-> s]
Lines(ss) == [k \in 1..Len(ss) |-> Line(ss[k])]
\* Removing notices, and the markers left without any
RECURSIVE Prune(_, _)
Prune(ls, k) == \* (from the end) keep a marker if a notice follows before the next marker of its level or above
    IF k = 0 THEN ls
    ELSE IF ls[k].lv = 3 \/ (k < Len(ls) /\ ls[k + 1].lv > ls[k].lv) THEN Prune(ls, k - 1)
    ELSE Prune(SubSeq(ls, 1, k - 1) \o SubSeq(ls, k + 1, Len(ls)), k - 1)
Without(ls, ids) == LET kept == SelectSeq(ls, LAMBDA l: ~(l.lv = 3 /\ l.id \in ids)) IN Prune(kept, Len(kept))
ShownIn(ls) == {NameOf(ls[k].sev) : k \in {j \in 1..Len(ls): ls[j].lv = 3}}
\* An HTML report: per exchange, the notices by section
WithoutHtml(ns, ids) == SelectSeq(ns, LAMBDA n: n.id \notin ids)
==============================================================================
