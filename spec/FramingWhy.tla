----------------------------- MODULE FramingWhy -----------------------------
(***************************************************************************)
(* How a framing error on a stream is explained: where reading went wrong  *)
(* (the beginning of the line or data that was being read), what was       *)
(* expected there, and as part of what.  (Property C39.)                   *)
(***************************************************************************)
EXTENDS Framing

Why(at, what, n, sym) == [at |-> at, what |-> what, n |-> n, sym |-> sym]
\* Reading the line at p as (part of) sym failed: it has no end, or is too long
NoLine(s, p, sym) == Why(p, IF Len(s) - p >= MaxLine THEN "long" ELSE "line", 0, sym)
NoWhy == Why(-1, "none", 0, "")

RECURSIVE WhyFold(_, _), WhyFields(_, _)
WhyFold(s, p) ==            \* [bad, why, next]
  IF Peek(s, p) \notin {32, 9} THEN [bad |-> FALSE, why |-> NoWhy, next |-> p]
  ELSE LET l == ReadLine(s, p) IN
       IF ~l.ok THEN [bad |-> TRUE, why |-> NoLine(s, p, "header-field"), next |-> p] ELSE WhyFold(s, l.next)
WhyFields(s, p) ==
  IF Peek(s, p) \in {13, 10, -1} THEN [bad |-> FALSE, why |-> NoWhy, next |-> p]
  ELSE LET l == ReadLine(s, p) IN
       IF ~l.ok THEN [bad |-> TRUE, why |-> NoLine(s, p, "header-field"), next |-> p]
       ELSE IF Find(l.line, 58, 1, Len(l.line)) = 0 THEN [bad |-> TRUE, why |-> Why(p, "self", 0, "header-field"), next |-> p]
       ELSE LET f == WhyFold(s, l.next) IN IF f.bad THEN f ELSE WhyFields(s, f.next)
\* the fields at p and the empty line after them, of sym
WhyBlock(s, p, sym) ==
  LET f == WhyFields(s, p) IN
  IF f.bad THEN f.why
  ELSE LET l == ReadLine(s, f.next) IN
       IF ~l.ok THEN NoLine(s, f.next, sym) ELSE IF l.line # <<>> THEN Why(f.next, "eol", 0, sym) ELSE NoWhy

WhyRequest(s, p) ==
  LET l == ReadLine(s, p)
      w == Split(l.line, 32, 0) IN
  IF ~l.ok THEN NoLine(s, p, "request-line")
  ELSE IF Len(w) # 3 \/ ~IsVersion(w[3]) THEN Why(p, "self", 0, "request-line")
  ELSE WhyBlock(s, l.next, "HTTP-message")
WhyResponse(s, p) ==
  LET l == ReadLine(s, p)
      w == Split(l.line, 32, 3) IN
  IF ~l.ok THEN NoLine(s, p, "status-line")
  ELSE IF Len(w) # 3 \/ ~IsVersion(w[1]) \/ ~IsStatus(w[2]) THEN Why(p, "self", 0, "status-line")
  ELSE WhyBlock(s, l.next, "HTTP-message")

RECURSIVE WhyChunked(_, _)
WhyChunked(s, p) ==
  LET l == ReadLine(s, p)
      z == ChunkSize(l.line) IN
  IF ~l.ok THEN NoLine(s, p, "chunk")
  ELSE IF z = <<>> \/ \E i \in 1..Len(z) : z[i] \notin (48..57) \cup (65..70) \cup (97..102) THEN Why(p, "self", 0, "chunk-size")
  ELSE LET n == HexOrBig(z) IN
       IF n = 0 THEN WhyBlock(s, l.next, "chunked-body")
       ELSE IF n < 0 \/ n > MaxBody THEN NoWhy
       ELSE IF l.next + n > Len(s) THEN Why(l.next, "bytes", n, "chunk")
       ELSE LET e == ReadLine(s, l.next + n) IN
            IF ~e.ok THEN NoLine(s, l.next + n, "chunk")
            ELSE IF e.line # <<>> THEN Why(l.next + n, "eol", 0, "chunk")
            ELSE WhyChunked(s, e.next)

(* The explanations of the framing notices of an analysed connection, in the order in which they are reported *)
Expl(id, name, w) == [id |-> id, name |-> name, at |-> w.at, what |-> w.what, n |-> w.n, sym |-> w.sym]
OfMsg(s, name, m) ==
  (IF <<1004, "">> \in m.notes THEN <<Expl(1004, name, Why(-1, "bytes", ContentLength(m.hdrs).n, ""))>> ELSE <<>>)
  \o (IF <<1005, "">> \in m.notes THEN <<Expl(1005, name, WhyChunked(s, m.hend))>> ELSE <<>>)
EndOf(ms) == IF ms = <<>> THEN 0 ELSE Last(ms).end
OfEvent(st, k) ==
  LET e == st.ev[k]
      before == SubSeq(st.ev, 1, k - 1) IN
  IF e.k = "box"
  THEN CASE e.id = 1006 -> <<Expl(1006, "in", WhyRequest(st.i.s, EndOf(ReqsOf(before))))>>
         [] e.id = 1009 -> <<Expl(1009, "out", WhyResponse(st.o.s, EndOf(RespsOf(before))))>>
         [] e.id = 1007 -> <<Expl(1007, "in", Why(e.off, "rest", 0, ""))>>
         [] e.id = 1010 -> <<Expl(1010, "out", Why(e.off, "rest", 0, ""))>>
         [] OTHER -> <<>>
  ELSE (IF e.on THEN OfMsg(st.i.s, "in", e.req) ELSE <<>>) \o Concat([j \in 1..Len(e.resps) |-> OfMsg(st.o.s, "out", e.resps[j])])
Explained(st) == Concat([k \in 1..Len(st.ev) |-> OfEvent(st, k)])
=============================================================================
