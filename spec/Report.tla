-------------------------------- MODULE Report --------------------------------
(***************************************************************************)
(* What the text and HTML reports of a sequence of exchanges contain.      *)
(* Text is sequences of Unicode code points.  (Properties C31, C32.)       *)
(*  exchange: [req |-> message or [none], resps, own |-> notice IDs]       *)
(*  message: [method, target, version, status, reason, remark, hdrs, trls, *)
(*            body |-> [st, text, steps], notices |-> IDs]                 *)
(***************************************************************************)
EXTENDS Abnf, KnownNotices

Unprintable(c) == \/ c \in 0..8 \/ c = 11 \/ c = 12 \/ c \in 14..31 \/ c \in 127..159
                  \/ c \in 55296..57343 \/ c \in 64976..65007 \/ c \in {65534, 65535}
Clean(s) == [k \in 1..Len(s) |-> IF Unprintable(s[k]) THEN 65533 ELSE s[k]]
Ellipsize(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n - 3) \o B("...")
RECURSIVE Digs(_)
Digs(n) == IF n < 10 THEN <<48 + n>> ELSE Digs(n \div 10) \o <<48 + (n % 10)>>
Blanks == {9, 10, 13, 32}
\* White space normalized to single spaces, none at the ends
RECURSIVE Norm(_, _)
Norm(s, acc) == IF s = <<>> THEN (IF acc # <<>> /\ acc[Len(acc)] = 32 THEN SubSeq(acc, 1, Len(acc) - 1) ELSE acc)
    ELSE Norm(Tail(s), IF Head(s) \in Blanks THEN (IF acc = <<>> \/ acc[Len(acc)] = 32 THEN acc ELSE Append(acc, 32)) ELSE Append(acc, Head(s)))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

------------------------------------------------------------------------------
(* Notices *)

KnownIds == TLCEval({NoticeTable[k][1] : k \in 1..Len(NoticeTable)})
Entry == TLCEval([id \in KnownIds |-> NoticeTable[CHOOSE k \in 1..Len(NoticeTable): NoticeTable[k][1] = id]])
Sev(id) == Entry[id][2]
\* (compared without white space: a variable part may be empty)
Solid(s) == SelectSeq(s, LAMBDA c: c \notin Blanks)
TitleParts == TLCEval([id \in KnownIds |-> [k \in 1..Len(Entry[id][3]) |-> Solid(B(Entry[id][3][k]))]])
\* Typographic punctuation written plainly
RECURSIVE Plain(_)
Plain(s) == IF s = <<>> THEN <<>> ELSE
    (CASE Head(s) \in {8220, 8221} -> <<34>> [] Head(s) \in {8216, 8217} -> <<39>> [] Head(s) = 8212 -> <<45, 45>>
       [] Head(s) \in {8211, 8722} -> <<45>> [] Head(s) = 160 -> <<32>> [] OTHER -> <<Head(s)>>) \o Plain(Tail(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* s is the parts in order with anything between them
RECURSIVE Fits(_, _)
Fits(s, ps) == IF Len(ps) = 1 THEN s = ps[1]
    ELSE Starts(s, ps[1]) /\ \E j \in (Len(ps[1]) + 1)..(Len(s) + 1): Fits(SubSeq(s, j, Len(s)), Tail(ps))
TitleOk(id, s) == Fits(Solid(Plain(s)), TitleParts[id])

------------------------------------------------------------------------------
(* The text report *)

None(x) == "none" \in DOMAIN x
StatusTitle == TLCEval([n \in {StatusTitles[k][1] : k \in 1..Len(StatusTitles)} |-> B(StatusTitles[CHOOSE k \in 1..Len(StatusTitles): StatusTitles[k][1] = n][2])])
ReasonOf(m) == IF m.reason # <<>> THEN m.reason ELSE IF m.status \in DOMAIN StatusTitle THEN StatusTitle[m.status] ELSE B("(unknown)")
ExchMark(x) ==
    IF ~None(x.req) THEN Ellipsize(B("------------ request: ") \o Clean(x.req.method) \o <<32>> \o Clean(x.req.target), 79)
    ELSE IF x.resps # <<>> THEN B("------------ unknown request") ELSE B("------------")
RespMark(m) == Ellipsize(B("------------ response: ") \o Digs(m.status) \o <<32>> \o Clean(ReasonOf(m)), 60)
NoticeLines(ids) == [k \in 1..Len(ids) |-> [mark |-> FALSE, id |-> ids[k], s |-> B(Sev(ids[k])) \o <<32>> \o Digs(ids[k]) \o <<32>>]]
Mark(s) == [mark |-> TRUE, id |-> 0, s |-> s]
RespLines(m) == IF m.notices = <<>> THEN <<>> ELSE <<Mark(RespMark(m))>> \o NoticeLines(m.notices)
ExchLines(x) ==
    LET inner == (IF None(x.req) THEN <<>> ELSE NoticeLines(x.req.notices))
                 \o Concat([k \in 1..Len(x.resps) |-> RespLines(x.resps[k])])
                 \o NoticeLines(x.own) IN
    IF inner = <<>> THEN <<>> ELSE <<Mark(ExchMark(x))>> \o inner
TextLines(xs) == Concat([k \in 1..Len(xs) |-> ExchLines(xs[k])])
LineOk(want, got) == IF want.mark THEN got = want.s ELSE Starts(got, want.s) /\ TitleOk(want.id, SubSeq(got, Len(want.s) + 1, Len(got)))

------------------------------------------------------------------------------
(* The HTML report *)

Steps(b) ==
    b.steps \o (IF Len(b.text) > 1000 THEN <<B("taking the first 1000 characters")>> ELSE <<>>)
    \o (IF \E k \in 1..(IF Len(b.text) > 1000 THEN 1000 ELSE Len(b.text)): Unprintable(b.text[k])
        THEN <<B("replacing non-printable characters with the ") \o <<65533>> \o B(" sign")>> ELSE <<>>)
RECURSIVE JoinRest(_, _)
JoinRest(ss, k) == IF k > Len(ss) THEN <<>> ELSE (IF k = Len(ss) THEN B(", and ") ELSE B(", ")) \o ss[k] \o JoinRest(ss, k + 1)
Nicely(ss) == IF Len(ss) = 1 THEN ss[1] ELSE IF Len(ss) = 2 THEN ss[1] \o B(" and ") \o ss[2] ELSE ss[1] \o JoinRest(ss, 2)
BodyHead(b) == CASE b.st = "unknown" -> B("Body is unknown")
                 [] b.st = "unavailable" -> B("Body is present, but not available for inspection")
                 [] b.st = "text" -> IF Steps(b) = <<>> THEN <<>> ELSE B("Body after ") \o Nicely(Steps(b))
                 [] OTHER -> <<>>
BodyText(b) == IF b.st = "text" THEN Clean(IF Len(b.text) > 1000 THEN SubSeq(b.text, 1, 1000) ELSE b.text) ELSE <<>>
StartLine(m) ==
    IF "method" \in DOMAIN m THEN <<Clean(m.method), Clean(m.target)>> \o (IF m.version = <<>> THEN <<>> ELSE <<Clean(m.version)>>)
    ELSE (IF m.version = <<>> THEN <<>> ELSE <<Clean(m.version)>>) \o <<Digs(m.status) \o <<32>> \o Clean(ReasonOf(m))>>
Shown(hs) == [k \in 1..Len(hs) |-> Clean(hs[k].n) \o <<58, 32>> \o Clean(hs[k].v)]

\* failing clauses of one notice list / section
BadNotices(ids, got) == IF Len(ids) # Len(got) \/ \E k \in 1..Len(ids): k <= Len(got) /\ (got[k].id # ids[k] \/ got[k].sev # Sev(ids[k]))
                        THEN {"html notices"}
                        ELSE IF \E k \in 1..Len(ids): ~TitleOk(ids[k], got[k].title) THEN {"html title"} ELSE {}
Normed(ss) == [k \in 1..Len(ss) |-> Norm(ss[k], <<>>)]
BadSection(m, got) ==
    BadNotices(m.notices, got.notices)
    \cup (IF Normed(got.start) # Normed(StartLine(m)) THEN {"html start line"} ELSE {})
    \cup (IF Norm(got.remark, <<>>) # Norm(Clean(m.remark), <<>>) THEN {"html remark"} ELSE {})
    \cup (IF got.hdrs # Shown(m.hdrs) THEN {"html headers"} ELSE {})
    \cup (IF got.trls # Shown(m.trls) THEN {"html trailers"} ELSE {})
    \cup (IF m.body.st # "open" /\ (Norm(got.head, <<>>) # BodyHead(m.body) \/ got.body # BodyText(m.body)) THEN {"html body"} ELSE {})
Messages(x) == (IF None(x.req) THEN <<>> ELSE <<x.req>>) \o x.resps
BadExch(x, got) ==
    LET ms == Messages(x) IN
    IF Len(ms) # Len(got.secs) THEN {"html messages"}
    ELSE UNION {BadSection(ms[k], got.secs[k]) : k \in 1..Len(ms)} \cup BadNotices(x.own, got.own)
HtmlExchs(xs) == SelectSeq(xs, LAMBDA x: Messages(x) # <<>> \/ x.own # <<>>)

Tags == {"html", "head", "meta", "title", "style", "base", "script", "body", "h1", "h2", "h3", "hr", "div", "section", "p", "code", "pre", "span", "a", "abbr",
         "cite", "q", "var"}
Attrs == {"lang", "charset", "name", "content", "type", "target", "class", "data-ref-id", "data-ref-to", "href", "title"}
Classes == {"report", "exchange", "message-display", "message-remark", "StatusCode", "body-display", "trailer", "header-entry", "complaints",
            "notice error", "notice comment", "notice debug", "severity", "ident"}
==============================================================================
