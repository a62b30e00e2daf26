-------------------------------- MODULE Body --------------------------------
(***************************************************************************)
(* What a message body decodes to, and which notices that gives            *)
(* (RFC 7231 section 3.1, RFC 8259, XML 1.0, RFC 2046, HTML forms).        *)
(*                                                                         *)
(* A body is a leaf (octets) under layers of content codings, outermost    *)
(* last; a layer may be damaged.  A case c:                                *)
(*   req     TRUE for a request                                            *)
(*   st      status code of a response (0 for a request)                   *)
(*   meth    "" if the request is unknown, else its method                 *)
(*   ce      sequence of Content-Encoding fields: [ok, cs |-> codings]     *)
(*   ct      [has, ok, mt |-> octets, ps |-> sequence of [n, v] octets]    *)
(*   av      "none" | "unav" | "bytes"                                     *)
(*   layers  sequence of [c |-> "gzip" | "deflate" | "br", ok]             *)
(*   stages  the octets under 0, 1, 2... of the layers (the first: leaf)   *)
(*   xml     sequence of XML tokens, if the leaf is XML                    *)
(* A decoded thing is [k |-> "none" | "unav" | "ok", ...].                 *)
(***************************************************************************)
EXTENDS Abnf

(* ---------------------------- content codings -------------------------- *)
CodingOf(name) ==
  LET n == Lower(name) IN
  IF n \in {B("gzip"), B("x-gzip")} THEN "gzip"
  ELSE IF n = B("deflate") THEN "deflate"
  ELSE IF n = B("br") THEN "br" ELSE ""
\* The codings in order of application; "?" stands for a field that cannot be read
RECURSIVE Codings(_, _)
Codings(ce, k) == IF k > Len(ce) THEN <<>>
                  ELSE (IF ce[k].ok THEN ce[k].cs ELSE << <<63>> >>) \o Codings(ce, k + 1)

\* One step of decoding: [k, layers, rest (codings still to remove), ids]
Start(c) == [k |-> CASE c.av = "none" -> "none" [] c.av = "unav" -> "unav" [] OTHER -> "ok",
             layers |-> c.layers, rest |-> Codings(c.ce, 1), ids |-> <<>>]
Content(c, d) == c.stages[Len(d.layers) + 1]
EmptyNow(c, d) == Content(c, d) = <<>>
Done(c, d) == d.k # "ok" \/ d.rest = <<>> \/ EmptyNow(c, d)
Peel(c, d) ==
  LET coding == d.rest[Len(d.rest)]
      rest == SubSeq(d.rest, 1, Len(d.rest) - 1)
      top == IF d.layers = <<>> THEN [c |-> "", ok |-> FALSE] ELSE d.layers[Len(d.layers)] IN
  IF coding = <<63>> THEN [d EXCEPT !.k = "unav", !.rest = rest]
  ELSE IF CodingOf(coding) = "" THEN [d EXCEPT !.k = "unav", !.rest = rest, !.ids = Append(@, 1036)]
  ELSE IF top.c = CodingOf(coding) /\ top.ok
       THEN [d EXCEPT !.layers = SubSeq(@, 1, Len(@) - 1), !.rest = rest]
  ELSE [d EXCEPT !.k = "unav", !.rest = rest, !.ids = Append(@, 1037)]
RECURSIVE PeelAll(_, _)
PeelAll(c, d) == IF Done(c, d) THEN d ELSE PeelAll(c, Peel(c, d))
Decoded(c) == PeelAll(c, Start(c))

(* ------------------------------- charsets ------------------------------ *)
Lookup(ps, n) == LET S == {k \in 1..Len(ps): Lower(ps[k].n) = n} IN
                 IF S = {} THEN [has |-> FALSE, v |-> <<>>]
                 ELSE [has |-> TRUE, v |-> ps[CHOOSE k \in S: \A j \in S: j <= k].v]
CharsetName(c) == IF c.ct.has /\ c.ct.ok THEN Lookup(c.ct.ps, B("charset")) ELSE [has |-> FALSE, v |-> <<>>]
\* Character encodings of the specification; "" is anything without a meaning
CharsetOf(c) ==
  LET p == CharsetName(c)  n == Lower(p.v) IN
  IF ~p.has \/ n \in {B("utf-8"), B("utf8")} THEN "utf8"
  ELSE IF n \in {B("us-ascii"), B("ascii")} THEN "ascii"
  ELSE IF n \in {B("iso-8859-1"), B("latin1"), B("latin-1")} THEN "latin1"
  ELSE IF n = B("utf-16le") THEN "utf16le"
  ELSE IF n = B("utf-16be") THEN "utf16be"
  ELSE ""
Fail == <<-1>>          \* the text of octets that are not in the character encoding
Cont(b) == b \in 128..191
RECURSIVE Utf8(_, _, _), Utf16(_, _, _, _)
Utf8(s, i, acc) ==
  LET n == Len(s) - i
      at(k) == IF k <= n THEN s[i + k] ELSE 0 IN
  IF n = 0 THEN acc
  ELSE IF at(1) < 128 THEN Utf8(s, i + 1, Append(acc, at(1)))
  ELSE IF at(1) \in 194..223 /\ Cont(at(2)) THEN Utf8(s, i + 2, Append(acc, (at(1) - 192) * 64 + (at(2) - 128)))
  ELSE IF at(1) \in 224..239 /\ Cont(at(2)) /\ Cont(at(3)) THEN
       LET v == (at(1) - 224) * 4096 + (at(2) - 128) * 64 + (at(3) - 128) IN
       IF v >= 2048 /\ v \notin 55296..57343 THEN Utf8(s, i + 3, Append(acc, v)) ELSE Fail
  ELSE IF at(1) \in 240..244 /\ Cont(at(2)) /\ Cont(at(3)) /\ Cont(at(4)) THEN
       LET v == (at(1) - 240) * 262144 + (at(2) - 128) * 4096 + (at(3) - 128) * 64 + (at(4) - 128) IN
       IF v \in 65536..1114111 THEN Utf8(s, i + 4, Append(acc, v)) ELSE Fail
  ELSE Fail
Utf16(s, le, i, acc) ==
  LET unit(j) == IF le THEN s[j + 1] + 256 * s[j + 2] ELSE 256 * s[j + 1] + s[j + 2] IN
  IF i = Len(s) THEN acc
  ELSE IF i + 2 > Len(s) THEN Fail
  ELSE LET u == unit(i) IN
       IF u \notin 55296..57343 THEN Utf16(s, le, i + 2, Append(acc, u))
       ELSE IF u \in 55296..56319 /\ i + 4 <= Len(s) /\ unit(i + 2) \in 56320..57343
            THEN Utf16(s, le, i + 4, Append(acc, 65536 + (u - 55296) * 1024 + (unit(i + 2) - 56320)))
       ELSE Fail
DecodeText(cs, s) ==
  CASE cs = "utf8" -> Utf8(s, 0, <<>>)
    [] cs = "ascii" -> IF \A k \in 1..Len(s): s[k] < 128 THEN s ELSE Fail
    [] cs = "latin1" -> s
    [] cs = "utf16le" -> Utf16(s, TRUE, 0, <<>>)
    [] cs = "utf16be" -> Utf16(s, FALSE, 0, <<>>)
    [] OTHER -> Fail
\* Text(c, d): [k, t]
Text(c, d) ==
  IF d.k # "ok" THEN [k |-> d.k, t |-> <<>>]
  ELSE LET t == DecodeText(CharsetOf(c), Content(c, d)) IN
       IF t = Fail THEN [k |-> "unav", t |-> <<>>] ELSE [k |-> "ok", t |-> t]

(* --------------------------------- JSON -------------------------------- *)
\* RFC 8259, over code points; every code point above 255 stands for itself as 255
Squash(t) == [k \in 1..Len(t) |-> IF t[k] > 255 THEN 255 ELSE t[k]]
JWs == TLCEval(Many(Cls({9, 10, 13, 32})))
JTok(str) == TLCEval(Cat(<<JWs, CLit(str), JWs>>))
JHex == TLCEval(HexDig)
JString == TLCEval(Cat(<<Cls({34}),
              Many(Alt(<<Cls((32..255) \ {34, 92}),
                         Cat(<<Cls({92}), Alt(<<Ch("\"\\/bfnrt"), Cat(<<CLit("u"), JHex, JHex, JHex, JHex>>)>>)>>)>>)),
              Cls({34})>>))
JNumber == TLCEval(Cat(<<Opt(CLit("-")), Alt(<<CLit("0"), Cat(<<Cls(49..57), Many(Digit)>>)>>),
              Opt(Cat(<<CLit("."), Many1(Digit)>>)),
              Opt(Cat(<<Ch("eE"), Opt(Ch("+-")), Many1(Digit)>>))>>))
JValue == Ref("value")
JEnv == TLCEval([n \in {"value"} |->
  Alt(<<CLit("true"), CLit("false"), CLit("null"), JNumber, JString,
        Cat(<<JTok("["), Opt(Cat(<<JValue, Many(Cat(<<JTok(","), JValue>>))>>)), JTok("]")>>),
        Cat(<<JTok("{"), Opt(Cat(<<JString, JTok(":"), JValue, Many(Cat(<<JTok(","), JString, JTok(":"), JValue>>))>>)),
              JTok("}")>>)>>)])
JText == TLCEval(Cat(<<JWs, JValue, JWs>>))
IsJson(t) == Matches(JEnv, JText, Squash(t))

(* --------------------------------- XML --------------------------------- *)
\* Documents are sequences of tokens; an automaton reads them.  Names of elements are "a" and "b".
\*   decl   <?xml version="1.0"?>     com, pi   comment, processing instruction     ws, text
\*   oa ob  <a> <b>     ca cb  </a> </b>    ea  <a/>     dt  <!DOCTYPE a>     dte  one that declares an entity
\*   amp  &amp;   ent  &nope;   cdata   lt  a stray "<"   bare  a stray "&"   bad  an octet that is not UTF-8
XInit == [st |-> "start", stack |-> <<>>, res |-> ""]
\* st: start (nothing yet), prolog, dtd (prolog after a DOCTYPE), root, after
XStep(x, tok) ==
  LET inside == x.st = "root"
      err == [x EXCEPT !.res = "bad"]
      move == [x EXCEPT !.st = IF @ = "start" THEN "prolog" ELSE @]
      open(e) == IF x.st = "after" THEN err ELSE [x EXCEPT !.st = "root", !.stack = Append(@, e)]
      close(e) == IF ~inside \/ x.stack[Len(x.stack)] # e THEN err
                  ELSE [x EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.st = IF Len(x.stack) = 1 THEN "after" ELSE "root"] IN
  IF x.res # "" THEN x
  ELSE CASE tok = "decl" -> IF x.st = "start" THEN move ELSE err
         [] tok \in {"com", "pi", "ws"} -> move
         [] tok = "text" -> IF inside THEN x ELSE err
         [] tok \in {"amp", "cdata"} -> IF inside THEN x ELSE err
         [] tok \in {"ent", "lt", "bare", "bad"} -> err
         [] tok = "oa" -> open("a")
         [] tok = "ob" -> open("b")
         [] tok = "ca" -> close("a")
         [] tok = "cb" -> close("b")
         [] tok = "ea" -> IF x.st = "after" THEN err ELSE IF inside THEN x ELSE [x EXCEPT !.st = "after"]
         [] tok = "dt" -> IF x.st \in {"start", "prolog"} THEN [x EXCEPT !.st = "dtd"] ELSE err
         [] tok = "dte" -> IF x.st \in {"start", "prolog"} THEN [x EXCEPT !.res = "ent"] ELSE err
RECURSIVE XRun(_, _, _)
XRun(toks, k, x) == IF k > Len(toks) THEN x ELSE XRun(toks, k + 1, XStep(x, toks[k]))
XResult(toks) == LET x == XRun(toks, 1, XInit) IN
                 IF x.res # "" THEN x.res ELSE IF x.st = "after" THEN "ok" ELSE "bad"

(* ------------------------------- multipart ----------------------------- *)
\* There is a line "--" boundary, with nothing but white space after it
CrLf == <<13, 10>>
RECURSIVE SkipWsp(_, _)
SkipWsp(s, i) == IF i < Len(s) /\ s[i + 1] \in {32, 9} THEN SkipWsp(s, i + 1) ELSE i
LineStart(s, i) == i = 0 \/ (i >= 2 /\ SubSeq(s, i - 1, i) = CrLf)
DelimiterAt(s, d, i) ==
  /\ LineStart(s, i) /\ SubSeq(s, i + 1, i + Len(d)) = d
  /\ LET j == SkipWsp(s, i + Len(d)) IN j = Len(s) \/ (j + 2 <= Len(s) /\ SubSeq(s, j + 1, j + 2) = CrLf)
HasDashBoundary(s, b) == LET d == <<45, 45>> \o b IN \E i \in 0..(Len(s) - Len(d)): DelimiterAt(s, d, i)
\* A close-delimiter line before the first dash-boundary: left open
ClosesFirst(s, b) == LET d == <<45, 45>> \o b  e == d \o <<45, 45>> IN
  \E i \in 0..(Len(s) - Len(e)): DelimiterAt(s, e, i) /\ \A j \in 0..(i - 1): ~DelimiterAt(s, d, j)

(* ------------------------------ URL-encoded ---------------------------- *)
\* Whether : ; < > ? are good is left open (the code takes them)
FormGood == TLCEval({37, 38, 42, 43, 45, 46, 95, 61} \cup (48..57) \cup (65..90) \cup (97..122))
FormOpen == TLCEval({58, 59, 60, 62, 63})

(* ----------------------------- media types ----------------------------- *)
EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
BeginsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
IsJsonType(mt) == mt = B("application/json") \/ EndsWith(mt, B("+json"))
IsXmlType(mt)  == mt \in {B("application/xml"), B("text/xml")} \/ EndsWith(mt, B("+xml"))
IsMultipart(mt) == BeginsWith(mt, B("multipart/"))
IsForm(mt) == mt = B("application/x-www-form-urlencoded")

\* Does the message carry a whole instance of its media type?
Full(c) ==
  \/ c.req
  \/ /\ c.st \notin {304, 103}
     /\ (c.st = 206 => (c.ct.has /\ c.ct.ok /\ Lower(c.ct.mt) = B("multipart/byteranges")))
     /\ IF c.meth = "" THEN c.av = "bytes" /\ ~EmptyNow(c, Start(c)) ELSE c.meth # "HEAD"

(* -------------------------------- notices ------------------------------ *)
Formats(c, d) ==
  IF ~c.ct.has \/ ~c.ct.ok \/ d.k # "ok" \/ ~Full(c) THEN <<>>
  ELSE LET mt == Lower(c.ct.mt)
           s == Content(c, d)
           tx == Text(c, d)
           bnd == Lookup(c.ct.ps, B("boundary")) IN
    (IF IsJsonType(mt) /\ tx.k = "ok"
     THEN (IF ~IsJson(tx.t) THEN <<1038>> ELSE IF CharsetOf(c) \notin {"utf8", "ascii"} THEN <<1281>> ELSE <<>>) ELSE <<>>)
    \o (IF IsXmlType(mt) THEN (LET r == IF d.layers # <<>> THEN "bad" ELSE XResult(c.xml) IN
          IF r = "bad" THEN <<1039>> ELSE IF r = "ent" THEN <<1275>> ELSE <<>>) ELSE <<>>)
    \o (IF IsMultipart(mt) THEN (IF ~bnd.has THEN <<1139>>
                                 ELSE IF ~HasDashBoundary(s, bnd.v) THEN <<1140>> ELSE <<>>) ELSE <<>>)
    \o (IF IsForm(mt) /\ \E k \in 1..Len(s): s[k] \notin (FormGood \cup FormOpen) THEN <<1040>> ELSE <<>>)
OpenMulti(c) == c.ct.has /\ IsMultipart(Lower(c.ct.mt)) /\ ClosesFirst(Content(c, Decoded(c)), Lookup(c.ct.ps, B("boundary")).v)
Open(c) == LET s == Content(c, Decoded(c)) IN
  c.ct.has /\ IsForm(Lower(c.ct.mt)) /\ (\E k \in 1..Len(s): s[k] \in FormOpen) /\ (\A k \in 1..Len(s): s[k] \in FormGood \cup FormOpen)
Watched == {1036, 1037, 1038, 1039, 1040, 1139, 1140, 1275, 1281}
\* What the code should show: [body, text, ids]
Expected(c) ==
  LET d == Decoded(c) tx == Text(c, d) IN
  [bk |-> d.k, b |-> IF d.k = "ok" THEN Content(c, d) ELSE <<>>, tk |-> tx.k, t |-> tx.t, ids |-> d.ids \o Formats(c, d)]
=============================================================================
