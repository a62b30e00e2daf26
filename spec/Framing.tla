------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* HTTP/1.x message framing as HTTPolice performs it on a captured         *)
(* connection: an inbound (request) stream and an outbound (response)      *)
(* stream, each possibly absent.  State = how far each stream has been     *)
(* consumed, whether its next message boundary is still known, and the     *)
(* events (exchanges and standalone notices) produced so far.              *)
(*                                                                         *)
(* A stream is [on, s]; s is a sequence of octets.  Bodies after removal   *)
(* of a content-independent coding come from an uninterpreted table        *)
(* (codec): zlib is not modelled.                                          *)
(***************************************************************************)
EXTENDS Abnf

MaxLine == 16384
MaxBody == 1073741824      \* 1 GiB

(* ------------------------------- low level ----------------------------- *)
Min2(a, b) == IF a < b THEN a ELSE b
Peek(s, p) == IF p < Len(s) THEN s[p + 1] ELSE -1

\* First index in lo..hi holding octet b, or 0.
RECURSIVE Find(_, _, _, _)
Find(s, b, lo, hi) ==
  IF lo > hi THEN 0
  ELSE LET m == Min2(hi, lo + 31)
           S == {k \in lo..m : s[k] = b}
       IN IF S # {} THEN CHOOSE k \in S : \A j \in S : k <= j
          ELSE Find(s, b, m + 1, hi)

\* Reading a line at p: at most MaxLine octets including its LF.
ReadLine(s, p) ==
  LET hi == Min2(Len(s), p + MaxLine)
      k  == Find(s, 10, p + 1, hi)
  IN IF k = 0 THEN [ok |-> FALSE, next |-> hi, line |-> <<>>, barelf |-> FALSE]
     ELSE LET cr == k > p + 1 /\ s[k - 1] = 13 IN
          [ok |-> TRUE, next |-> k, barelf |-> ~cr,
           line |-> SubSeq(s, p + 1, IF cr THEN k - 2 ELSE k - 1)]

RECURSIVE LStrip(_), RStrip(_)
LStrip(x) == IF x # <<>> /\ Head(x) \in {32, 9} THEN LStrip(Tail(x)) ELSE x
RStrip(x) == IF x # <<>> /\ x[Len(x)] \in {32, 9} THEN RStrip(SubSeq(x, 1, Len(x) - 1)) ELSE x
Strip(x)  == RStrip(LStrip(x))

RECURSIVE Split(_, _, _)
Split(x, b, n) ==      \* split on octet b into at most n pieces (n = 0: no limit)
  LET k == IF n = 1 THEN 0 ELSE Find(x, b, 1, Len(x)) IN
  IF k = 0 THEN <<x>>
  ELSE <<SubSeq(x, 1, k - 1)>> \o Split(SubSeq(x, k + 1, Len(x)), b, IF n = 0 THEN 0 ELSE n - 1)

(* ------------------------------ header block ---------------------------- *)
\* Result: [ok, next, hdrs, notes]; notes is a subset of {1016, 1224}.
RECURSIVE Fold(_, _, _, _)
Fold(s, p, v, notes) ==
  IF Peek(s, p) \notin {32, 9} THEN [ok |-> TRUE, next |-> p, v |-> v, notes |-> notes]
  ELSE LET l == ReadLine(s, p) IN
       IF ~l.ok THEN [ok |-> FALSE, next |-> l.next, v |-> v, notes |-> notes]
       ELSE Fold(s, l.next, v \o <<32>> \o LStrip(l.line),
                 notes \cup {1016} \cup (IF l.barelf THEN {1224} ELSE {}))

RECURSIVE Fields(_, _, _, _)
Fields(s, p, hdrs, notes) ==
  IF Peek(s, p) \in {13, 10, -1} THEN [ok |-> TRUE, next |-> p, hdrs |-> hdrs, notes |-> notes]
  ELSE LET l == ReadLine(s, p)
           c == Find(l.line, 58, 1, Len(l.line))
       IN IF ~l.ok \/ c = 0 THEN [ok |-> FALSE, next |-> l.next, hdrs |-> hdrs, notes |-> notes]
          ELSE LET f == Fold(s, l.next, SubSeq(l.line, c + 1, Len(l.line)),
                             notes \cup (IF l.barelf THEN {1224} ELSE {}))
               IN IF ~f.ok THEN [ok |-> FALSE, next |-> f.next, hdrs |-> hdrs, notes |-> f.notes]
                  ELSE Fields(s, f.next, Append(hdrs, <<SubSeq(l.line, 1, c - 1), Strip(f.v)>>), f.notes)

\* Fields followed by an empty line.
HeaderBlock(s, p, notes0) ==
  LET f == Fields(s, p, <<>>, notes0) IN
  IF ~f.ok THEN f
  ELSE LET l == ReadLine(s, f.next) IN
       [ok |-> l.ok /\ l.line = <<>>, next |-> l.next, hdrs |-> f.hdrs,
        notes |-> f.notes \cup (IF l.ok /\ l.barelf THEN {1224} ELSE {})]

HttpSlash == TLCEval(B("HTTP/"))
IsVersion(x) == Len(x) = 8 /\ SubSeq(x, 1, 5) = HttpSlash /\ x[6] \in 48..57 /\ x[7] = 46 /\ x[8] \in 48..57
IsStatus(x)  == Len(x) = 3 /\ \A i \in 1..3 : x[i] \in 48..57
Num3(x)      == (x[1] - 48) * 100 + (x[2] - 48) * 10 + (x[3] - 48)

(* --------------------------- framing header fields ---------------------- *)
FieldValues(hdrs, name) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(hdrs) THEN <<>>
               ELSE (IF Lower(hdrs[i][1]) = name THEN <<hdrs[i][2]>> ELSE <<>>) \o go(i + 1)
  IN go(1)

nTE == TLCEval(B("transfer-encoding"))
nCL == TLCEval(B("content-length"))
nChunked == TLCEval(B("chunked"))
nGzip == TLCEval(B("gzip"))
nXGzip == TLCEval(B("x-gzip"))
nDeflate == TLCEval(B("deflate"))

BWSp == OWS
TransferParam == TLCEval(Cat(<<Token, BWSp, Cls({61}), BWSp, Alt(<<Token, QString>>)>>))
BuiltIn == TLCEval({B("chunked"), B("compress"), B("deflate"), B("gzip")})
TransferExt == TLCEval(Cat(<<But(Token, BuiltIn), Many(Cat(<<OWS, Cls({59}), OWS, TransferParam>>))>>))
TransferCodingG == TLCEval(Alt(<<TransferExt, Lit("chunked"), Lit("compress"), Lit("deflate"), Lit("gzip")>>))
TEGrammar == TLCEval(List1(TransferCodingG))

\* Elements of a list value, splitting at commas outside quoted strings.
RECURSIVE SplitList(_, _, _, _)
SplitList(v, i, from, q) ==       \* q: 0 outside quotes, 1 inside, 2 after a backslash inside
  IF i > Len(v) THEN <<SubSeq(v, from, Len(v))>>
  ELSE IF q = 0 /\ v[i] = 44 THEN <<SubSeq(v, from, i - 1)>> \o SplitList(v, i + 1, i + 1, 0)
  ELSE SplitList(v, i + 1, from,
                 CASE q = 2 -> 1
                   [] q = 1 /\ v[i] = 92 -> 2
                   [] v[i] = 34 -> 1 - q
                   [] OTHER -> q)
CodingName(e) ==                  \* the token before any parameters
  LET k == Find(e, 59, 1, Len(e)) IN Lower(Strip(IF k = 0 THEN e ELSE SubSeq(e, 1, k - 1)))
Codings1(v) ==                    \* of one field: sequence of names, or <<"BAD">>
  IF ~Matches(NoEnv, TEGrammar, v) THEN <<[bad |-> TRUE, n |-> <<>>]>>
  ELSE LET es == SelectSeq([i \in 1..Len(SplitList(v, 1, 1, 0)) |-> Strip(SplitList(v, 1, 1, 0)[i])],
                           LAMBDA e : e # <<>>)
       IN [i \in 1..Len(es) |-> [bad |-> FALSE, n |-> CodingName(es[i])]]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
TECodings(hdrs) == LET vs == FieldValues(hdrs, nTE) IN Concat([i \in 1..Len(vs) |-> Codings1(vs[i])])

(* ------------------------------- big numbers ---------------------------- *)
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d
HexVal(b) == IF b \in 48..57 THEN b - 48 ELSE Lc(b) - 87
RECURSIVE Value(_, _, _)
Value(d, base, acc) == IF d = <<>> THEN acc ELSE Value(Tail(d), base, acc * base + HexVal(Head(d)))
\* Decimal digits (no leading zeros) as a number, or -1 if more than MaxBody.
DecOrBig(d0) == LET d == StripZeros(d0) IN
  IF Len(d) > 10 \/ (Len(d) = 10 /\ d[1] > 49) THEN -1
  ELSE LET v == Value(d, 10, 0) IN IF v > MaxBody THEN -1 ELSE v
HexOrBig(d0) == LET d == StripZeros(d0) IN
  IF Len(d) > 8 \/ (Len(d) = 8 /\ HexVal(d[1]) >= 8) THEN -1
  ELSE LET v == Value(d, 16, 0) IN IF v > MaxBody THEN -1 ELSE v

\* Content-Length: the last field counts.  [present, ok, n]; n = -1 if too big.
ContentLength(hdrs) ==
  LET vs == FieldValues(hdrs, nCL) IN
  IF vs = <<>> THEN [on |-> FALSE, ok |-> FALSE, n |-> 0]
  ELSE LET v == vs[Len(vs)]
           ok == v # <<>> /\ \A i \in 1..Len(v) : v[i] \in 48..57
       IN [on |-> TRUE, ok |-> ok, n |-> IF ok THEN DecOrBig(v) ELSE 0]

(* --------------------------------- bodies ------------------------------- *)
NoBody   == [k |-> "b", b |-> <<>>]
Bytes(x) == [k |-> "b", b |-> x]
Unavail  == [k |-> "u", b |-> <<>>]

\* Body outcome: [body, next, sane, notes (set of <<id, place>>), trl]
Out(body, next, sane, notes, trl) == [body |-> body, next |-> next, sane |-> sane, notes |-> notes, trl |-> trl, close |-> FALSE]

LengthBody(s, p, cl) ==
  IF ~cl.ok THEN Out(Unavail, p, FALSE, {}, <<>>)
  ELSE IF cl.n < 0 THEN Out(Unavail, p, FALSE, {<<1298, "cl">>}, <<>>)
  ELSE IF p + cl.n > Len(s) THEN Out(Unavail, Len(s), FALSE, {<<1004, "">>}, <<>>)
  ELSE Out(Bytes(SubSeq(s, p + 1, p + cl.n)), p + cl.n, TRUE, {}, <<>>)

ChunkSize(line) == RStrip(Split(line, 59, 2)[1])
RECURSIVE Chunks(_, _, _, _)
Chunks(s, p, data, notes) ==       \* [st: "ok"|"bad"|"big", next, data, notes]
  LET l == ReadLine(s, p)
      z == ChunkSize(l.line)
      n1 == notes \cup (IF l.ok /\ l.barelf THEN {1224} ELSE {})
  IN IF ~l.ok \/ z = <<>> \/ \E i \in 1..Len(z) : z[i] \notin (48..57) \cup (65..70) \cup (97..102)
     THEN [st |-> "bad", next |-> l.next, data |-> data, notes |-> n1]
     ELSE LET n == HexOrBig(z) IN
          IF n = 0 THEN [st |-> "ok", next |-> l.next, data |-> data, notes |-> n1]
          ELSE IF n < 0 \/ n > MaxBody - Len(data) THEN [st |-> "big", next |-> l.next, data |-> data, notes |-> n1]
          ELSE IF l.next + n > Len(s) THEN [st |-> "bad", next |-> Len(s), data |-> data, notes |-> n1]
          ELSE LET e == ReadLine(s, l.next + n) IN
               IF ~e.ok \/ e.line # <<>> THEN [st |-> "bad", next |-> e.next, data |-> data, notes |-> n1]
               ELSE Chunks(s, e.next, data \o SubSeq(s, l.next + 1, l.next + n),
                           n1 \cup (IF e.barelf THEN {1224} ELSE {}))

ChunkedBody(s, p) ==
  LET c == Chunks(s, p, <<>>, {}) IN
  CASE c.st = "bad" -> Out(Unavail, c.next, FALSE, {<<1005, "">>}, <<>>)
    [] c.st = "big" -> Out(Unavail, c.next, FALSE, {<<1298, "chunked">>}, <<>>)
    [] OTHER ->
       LET h == HeaderBlock(s, c.next, c.notes) IN
       IF ~h.ok THEN Out(Unavail, h.next, FALSE, {<<1005, "">>}, <<>>)
       ELSE Out(Bytes(c.data), h.next, TRUE, {<<n, "chunked framing">> : n \in h.notes}, h.hdrs)

\* codec: sequence of [c |-> coding, i |-> input, ok |-> BOOLEAN, o |-> output].
\* Of inputs that are not in the table nothing is known: their outcome is "x".
DecodeWith(codec, c, b) ==
  LET hits == {k \in 1..Len(codec) : codec[k].c = c /\ codec[k].i = b} IN
  IF hits = {} THEN [k |-> "x", o |-> <<>>]
  ELSE LET h == codec[CHOOSE k \in hits : TRUE] IN [k |-> IF h.ok THEN "b" ELSE "u", o |-> h.o]
Unknown == [k |-> "x", b |-> <<>>]

RECURSIVE Decode(_, _, _)
Decode(codec, o, cs) ==            \* remove codings cs from last to first
  IF cs = <<>> \/ o.body.k # "b" THEN o
  ELSE LET c == cs[Len(cs)]
           rest == SubSeq(cs, 1, Len(cs) - 1)
           fail(notes) == [o EXCEPT !.body = Unavail, !.notes = @ \cup notes]
           dec(k) == LET d == DecodeWith(codec, k, o.body.b) IN
                     CASE d.k = "b" -> Decode(codec, [o EXCEPT !.body = Bytes(d.o)], rest)
                       [] d.k = "u" -> fail({<<1027, "">>})
                       [] OTHER -> [o EXCEPT !.body = Unknown]
       IN CASE c.bad -> fail({})
            [] c.n = nChunked -> fail({<<1002, "">>})
            [] c.n \in {nGzip, nXGzip} -> dec("gzip")
            [] c.n = nDeflate -> dec("deflate")
            [] OTHER -> fail({<<1003, "">>})

Last(x)    == x[Len(x)]
ButLast(x) == SubSeq(x, 1, Len(x) - 1)

RequestBody(codec, s, p, hdrs) ==
  LET te == TECodings(hdrs)
      cl == ContentLength(hdrs)
  IN IF te # <<>>
     THEN IF ~Last(te).bad /\ Last(te).n = nChunked
          THEN Decode(codec, ChunkedBody(s, p), ButLast(te))
          ELSE Out(Unavail, p, FALSE, {<<1001, "">>}, <<>>)
     ELSE IF cl.on THEN LengthBody(s, p, cl)
     ELSE Out(NoBody, p, TRUE, {}, <<>>)

mHEAD == TLCEval(B("HEAD"))
mCONNECT == TLCEval(B("CONNECT"))
Informational(st) == st \in 100..199
Successful(st)    == st \in 200..299

\* meth = <<>> when the request is unknown
ResponseBody(codec, s, p, hdrs, st, meth) ==
  LET te == TECodings(hdrs)
      cl == ContentLength(hdrs)
      rest == [Out(Bytes(SubSeq(s, p + 1, Len(s))), Len(s), TRUE, {}, <<>>) EXCEPT !.close = TRUE]
  IN CASE st = 101 -> Out(NoBody, p, FALSE, {<<1011, "">>}, <<>>)
       [] meth = mCONNECT /\ Successful(st) -> Out(NoBody, p, FALSE, {<<1012, "">>}, <<>>)
       [] Informational(st) \/ st \in {204, 304} \/ meth = mHEAD -> Out(NoBody, p, TRUE, {}, <<>>)
       [] te # <<>> -> IF ~Last(te).bad /\ Last(te).n = nChunked
                       THEN Decode(codec, ChunkedBody(s, p), ButLast(te))
                       ELSE Decode(codec, rest, te)
       [] cl.on -> LengthBody(s, p, cl)
       [] OTHER -> rest

(* -------------------------------- messages ------------------------------ *)
\* [ok, msg, next, sane]
Heading(place, h) == {<<n, place>> : n \in h.notes}

ParseRequest(codec, s, p) ==
  LET l == ReadLine(s, p)
      w == Split(l.line, 32, 0)
  IN IF ~l.ok \/ Len(w) # 3 \/ ~IsVersion(w[3]) THEN [ok |-> FALSE, next |-> l.next, sane |-> FALSE]
     ELSE LET h == HeaderBlock(s, l.next, IF l.barelf THEN {1224} ELSE {}) IN
          IF ~h.ok THEN [ok |-> FALSE, next |-> h.next, sane |-> FALSE]
          ELSE LET b == RequestBody(codec, s, h.next, h.hdrs) IN
               [ok |-> TRUE, next |-> b.next, sane |-> b.sane,
                msg |-> [off |-> p, hend |-> h.next, a |-> w[1], b |-> w[2], ver |-> w[3], hdrs |-> h.hdrs, body |-> b.body,
                         trl |-> b.trl, notes |-> Heading("request heading", h) \cup b.notes, end |-> b.next, close |-> b.close]]

ParseResponse(codec, s, p, meth) ==
  LET l == ReadLine(s, p)
      w == Split(l.line, 32, 3)
  IN IF ~l.ok \/ Len(w) # 3 \/ ~IsVersion(w[1]) \/ ~IsStatus(w[2])
     THEN [ok |-> FALSE, next |-> l.next, sane |-> FALSE]
     ELSE LET h == HeaderBlock(s, l.next, IF l.barelf THEN {1224} ELSE {}) IN
          IF ~h.ok THEN [ok |-> FALSE, next |-> h.next, sane |-> FALSE]
          ELSE LET b == ResponseBody(codec, s, h.next, h.hdrs, Num3(w[2]), meth) IN
               [ok |-> TRUE, next |-> b.next, sane |-> b.sane,
                msg |-> [off |-> p, hend |-> h.next, a |-> w[2], b |-> w[3], ver |-> w[1], hdrs |-> h.hdrs, body |-> b.body,
                         trl |-> b.trl, notes |-> Heading("response heading", h) \cup b.notes, end |-> b.next, close |-> b.close]]

(* -------------------------------- streams ------------------------------- *)
\* Stream state: [on, s, p, sane, started].  "eof" = something was read and nothing is left.
Fresh(x) == [on |-> x.on, s |-> x.s, p |-> 0, sane |-> TRUE, started |-> FALSE]
Eof(x)   == x.started /\ x.p = Len(x.s)
Good(x)  == x.on /\ x.sane /\ ~Eof(x)
Advance(x, p, sane) == [x EXCEPT !.p = p, !.sane = @ /\ sane, !.started = TRUE]

\* All responses to one request: [resps, o (stream), box]
RECURSIVE Responses(_, _, _, _)
Responses(codec, o, meth, resps) ==
  IF ~Good(o) THEN [resps |-> resps, o |-> o, box |-> FALSE]
  ELSE LET r == ParseResponse(codec, o.s, o.p, meth) IN
       IF ~r.ok THEN [resps |-> resps, o |-> Advance(o, r.next, FALSE), box |-> TRUE]
       ELSE LET st == Num3(r.msg.a)
                o1 == Advance(o, r.next, r.sane)
                all == Append(resps, r.msg)
            IN IF ~Informational(st) \/ st = 101 THEN [resps |-> all, o |-> o1, box |-> FALSE]
               ELSE Responses(codec, o1, meth, all)

NoMsg == [off |-> -1, hend |-> -1, a |-> <<>>, b |-> <<>>, ver |-> <<>>, hdrs |-> <<>>, body |-> Unavail, trl |-> <<>>, notes |-> {}, end |-> -1, close |-> FALSE]
Exch(req, resps) == [k |-> "exch", id |-> 0, off |-> -1, on |-> TRUE, req |-> req, resps |-> resps]
Orphan(resps)    == [k |-> "exch", id |-> 0, off |-> -1, on |-> FALSE, req |-> NoMsg, resps |-> resps]
Box(id, off)     == [k |-> "box", id |-> id, off |-> off, on |-> FALSE, req |-> NoMsg, resps |-> <<>>]

Boxes(cond, id) == IF cond THEN <<Box(id, -1)>> ELSE <<>>

(* ----------------------- the analysis as transitions -------------------- *)
\* st: [i, o, ph, ev]; ph: "req" -> "left" -> "orph" -> "left2" -> "done"
Start(in, out) == [i |-> Fresh(in), o |-> Fresh(out), ph |-> "req", ev |-> <<>>]

Ended(req, resps) ==       \* the connection stops being HTTP/1.x after this exchange
  resps # <<>> /\ (Num3(Last(resps).a) = 101 \/ (req.a = mCONNECT /\ Successful(Num3(Last(resps).a))))

\* One request and its responses.
DoRequest(codec, st) ==
  LET r == ParseRequest(codec, st.i.s, st.i.p) IN
  IF ~r.ok
  THEN [st EXCEPT !.i = Advance(@, r.next, FALSE), !.ev = @ \o <<Box(1006, -1)>>]
  ELSE LET rs == IF Good(st.o) THEN Responses(codec, st.o, r.msg.a, <<>>)
                 ELSE [resps |-> <<>>, o |-> st.o, box |-> FALSE]
       IN [st EXCEPT !.i = Advance(@, r.next, r.sane /\ ~Ended(r.msg, rs.resps)),
                     !.o = rs.o,
                     !.ev = @ \o <<Exch(r.msg, rs.resps)>> \o Boxes(rs.box, 1009)]

DoLeftover(st) ==
  [st EXCEPT !.ph = "orph",
             !.ev = @ \o (IF st.i.on /\ ~Eof(st.i) THEN <<Box(1007, st.i.p)>> ELSE <<>>)
                      \o (IF Good(st.o) /\ st.i.on THEN <<Box(1008, -1)>> ELSE <<>>)]

DoOrphan(codec, st) ==
  LET rs == Responses(codec, st.o, <<>>, <<>>) IN
  [st EXCEPT !.o = rs.o,
             !.ev = @ \o (IF rs.resps # <<>> THEN <<Orphan(rs.resps)>> ELSE <<>>) \o Boxes(rs.box, 1009)]

DoEnd(st) ==
  [st EXCEPT !.ph = "done",
             !.ev = @ \o (IF st.o.on /\ ~Eof(st.o) THEN <<Box(1010, st.o.p)>> ELSE <<>>)]

Step(codec, st) ==
  CASE st.ph = "req" /\ Good(st.i)   -> DoRequest(codec, st)
    [] st.ph = "req" /\ ~Good(st.i)  -> DoLeftover(st)
    [] st.ph = "orph" /\ Good(st.o)  -> DoOrphan(codec, st)
    [] st.ph = "orph" /\ ~Good(st.o) -> DoEnd(st)

RECURSIVE Run(_, _)
Run(codec, st) == IF st.ph = "done" THEN st ELSE Run(codec, Step(codec, st))

(* ------------------------------ properties ------------------------------ *)
Exchs(ev)  == SelectSeq(ev, LAMBDA e : e.k = "exch")
ReqsOf(ev) == LET x == SelectSeq(ev, LAMBDA e : e.k = "exch" /\ e.on) IN [j \in 1..Len(x) |-> x[j].req]
RespsOf(ev) == Concat([j \in 1..Len(ev) |-> ev[j].resps])

\* Messages tile the consumed part of their stream: nothing skipped, nothing used twice.
Tiles(ms, from) == \A j \in 1..Len(ms) : ms[j].off = (IF j = 1 THEN from ELSE ms[j - 1].end) /\ ms[j].end > ms[j].off
Conservation(st) ==
  /\ Tiles(ReqsOf(st.ev), 0) /\ Tiles(RespsOf(st.ev), 0)
  /\ st.i.p <= Len(st.i.s) /\ st.o.p <= Len(st.o.s)
  /\ (\A m \in {ReqsOf(st.ev)[j] : j \in 1..Len(ReqsOf(st.ev))} : m.end <= st.i.p)

\* When the analysis is over, every octet was consumed or its remainder was reported.
BoxIds(ev) == {ev[j].id : j \in {j \in 1..Len(ev) : ev[j].k = "box"}}
Reported(st) == st.ph = "done" =>
  /\ (st.i.on /\ st.i.p < Len(st.i.s)) => 1007 \in BoxIds(st.ev)
  /\ (st.o.on /\ st.o.p < Len(st.o.s)) => 1010 \in BoxIds(st.ev)
  /\ 1007 \in BoxIds(st.ev) => ~st.i.sane
  /\ 1010 \in BoxIds(st.ev) => ~st.o.sane

\* Each exchange has at most one final response, and it is the last one.
FinalLast(st) == \A j \in 1..Len(st.ev) :
  LET rs == st.ev[j].resps IN
  \A k \in 1..Len(rs) : (~Informational(Num3(rs[k].a)) \/ Num3(rs[k].a) = 101) => k = Len(rs)

\* No body where HTTP allows none.
NoBodyWhere(st) == \A j \in 1..Len(st.ev) :
  LET rs == st.ev[j].resps IN
  \A k \in 1..Len(rs) :
    (Informational(Num3(rs[k].a)) \/ Num3(rs[k].a) \in {204, 304} \/ (st.ev[j].on /\ st.ev[j].req.a = mHEAD))
      => rs[k].body = NoBody
=============================================================================
