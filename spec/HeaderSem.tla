------------------------------ MODULE HeaderSem ------------------------------
(***************************************************************************)
(* What HTTPolice must report about a single well-formed header value,     *)
(* from its octets.  Values are first split into lexical tokens (quoted    *)
(* strings, comments, <...>, white space, delimiters and other runs); the  *)
(* notices are then defined on the tokens.  (Property C29 and parts of C23 *)
(* and C24.)                                                               *)
(***************************************************************************)
EXTENDS Grammars, Known

Oct(set) == {Lower(B(x)) : x \in set}
S(str) == Lower(B(str))

------------------------------------------------------------------------------
(* Lexical tokens: [k |-> kind, c |-> text or contents, e |-> escaped octets] where kind is
   "t" run of other characters, "q" quoted string, "m" comment, "u" <...>, "w" white space, "d" delimiter. *)

RECURSIVE QScan(_, _, _, _, _)
QScan(s, i, esc, acc, e) ==
    IF i > Len(s) THEN [k |-> "q", c |-> acc, e |-> e, n |-> i]
    ELSE IF s[i] = 34 THEN [k |-> "q", c |-> acc, e |-> e, n |-> i + 1]
    ELSE IF s[i] = 92 /\ esc /\ i < Len(s) THEN QScan(s, i + 2, esc, Append(acc, s[i + 1]), Append(e, s[i + 1]))
    ELSE QScan(s, i + 1, esc, Append(acc, s[i]), e)
RECURSIVE CScan(_, _, _, _)
CScan(s, i, depth, e) ==
    IF i > Len(s) \/ depth = 0 THEN [k |-> "m", c |-> <<>>, e |-> e, n |-> i]
    ELSE IF s[i] = 92 /\ i < Len(s) THEN CScan(s, i + 2, depth, Append(e, s[i + 1]))
    ELSE CScan(s, i + 1, IF s[i] = 40 THEN depth + 1 ELSE IF s[i] = 41 THEN depth - 1 ELSE depth, e)
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, stop) == IF i > Len(s) \/ s[i] \in stop THEN i ELSE RunEnd(s, i + 1, stop)
RECURSIVE WsEnd(_, _)
WsEnd(s, i) == IF i <= Len(s) /\ s[i] \in {9, 32} THEN WsEnd(s, i + 1) ELSE i

\* md: "q" quoted strings with escapes, "o" opaque quoted strings, "c" comments, "l" like q and <...>
TokAt(s, i, md) ==
    LET stop == {9, 32, 44, 59, 61} \cup (IF md = "c" THEN {40} ELSE {34}) \cup (IF md = "l" THEN {60} ELSE {})
        x == s[i] IN
    IF x \in {9, 32} THEN LET n == WsEnd(s, i) IN [k |-> "w", c |-> SubSeq(s, i, n - 1), e |-> <<>>, n |-> n]
    ELSE IF x \in {44, 59, 61} THEN [k |-> "d", c |-> <<x>>, e |-> <<>>, n |-> i + 1]
    ELSE IF x = 34 /\ md # "c" THEN QScan(s, i + 1, md # "o", <<>>, <<>>)
    ELSE IF x = 40 /\ md = "c" THEN LET m == CScan(s, i + 1, 1, <<>>) IN [m EXCEPT !.c = SubSeq(s, i + 1, m.n - 2)]
    ELSE IF x = 60 /\ md = "l" THEN LET n == RunEnd(s, i + 1, {62}) IN [k |-> "u", c |-> SubSeq(s, i + 1, n - 1), e |-> <<>>, n |-> n + 1]
    ELSE LET n == RunEnd(s, i, stop) IN [k |-> "t", c |-> SubSeq(s, i, n - 1), e |-> <<>>, n |-> n]
RECURSIVE Toks(_, _, _)
Toks(s, i, md) == IF i > Len(s) THEN <<>> ELSE LET t == TokAt(s, i, md) IN <<t>> \o Toks(s, t.n, md)

IsD(t, c) == t.k = "d" /\ t.c = B(c)
RECURSIVE SplitT(_, _, _)
SplitT(ts, c, acc) ==
    IF ts = <<>> THEN <<acc>>
    ELSE IF IsD(Head(ts), c) THEN <<acc>> \o SplitT(Tail(ts), c, <<>>)
    ELSE SplitT(Tail(ts), c, Append(acc, Head(ts)))
Split(ts, c) == SplitT(ts, c, <<>>)
NoWs(ts) == SelectSeq(ts, LAMBDA t: t.k # "w")
Idx(seq, P(_)) == {k \in 1..Len(seq): P(seq[k])}
Sel(seq, P(_)) == SelectSeq(seq, P)

\* a "name [= value]" piece: [n |-> name, a |-> "none"/"t"/"q", v |-> value]
Pair(part) ==
    LET p == NoWs(part) IN
    IF Len(p) >= 3 /\ IsD(p[2], "=") THEN [n |-> Lower(p[1].c), a |-> p[3].k, v |-> p[3].c]
    ELSE [n |-> Lower(p[1].c), a |-> "none", v |-> <<>>]
Blank(part) == NoWs(part) = <<>>
Pairs(parts) == [k \in 1..Len(Sel(parts, LAMBDA p: ~Blank(p))) |-> Pair(Sel(parts, LAMBDA p: ~Blank(p))[k])]

------------------------------------------------------------------------------
(* Which headers have what *)

CommentHdrs == {"user-agent", "server", "via"}
DateHdrs == {"date", "expires", "last-modified", "if-modified-since", "if-unmodified-since"}
TagHdrs == {"etag", "if-match", "if-none-match", "if-range"}
AuthListHdrs == {"www-authenticate", "proxy-authenticate"}
AuthHdrs == {"authorization", "proxy-authorization"}
QsHdrs == {"accept", "accept-patch", "accept-post", "alt-svc", "authorization", "proxy-authorization", "www-authenticate", "proxy-authenticate",
           "cache-control", "content-disposition", "content-type", "forwarded", "link", "pragma", "prefer", "preference-applied",
           "strict-transport-security", "te", "transfer-encoding", "warning"}
ListHdrs == {"accept", "accept-charset", "accept-encoding", "accept-language", "accept-patch", "accept-post", "accept-ranges",
             "access-control-allow-headers", "access-control-allow-methods", "access-control-expose-headers", "access-control-request-headers",
             "allow", "alt-svc", "cache-control", "connection", "content-encoding", "content-language", "httpolice-silence",
             "if-match", "if-none-match", "link", "pragma", "prefer", "preference-applied", "te", "trailer", "transfer-encoding",
             "upgrade", "vary", "via", "warning"}
BwsHdrs == {"te", "transfer-encoding", "link"} \cup AuthListHdrs \cup AuthHdrs
MediaHdrs == {"content-type", "accept", "accept-patch", "accept-post"}

Mode(n) == IF n \in CommentHdrs THEN "c" ELSE IF n \in TagHdrs THEN "o" ELSE IF n = "link" THEN "l" ELSE "q"
Lexed(n, s) == IF n \in QsHdrs \cup ListHdrs \cup CommentHdrs THEN Toks(s, 1, Mode(n)) ELSE <<>>

------------------------------------------------------------------------------
(* Dates *)

Num(s, i, j) == LET d(k) == s[k] - 48 IN
    IF j = i THEN d(i) ELSE IF j = i + 1 THEN d(i) * 10 + d(j) ELSE d(i) * 1000 + d(i + 1) * 100 + d(i + 2) * 10 + d(j)
MonthNo(s, i) == CHOOSE m \in 1..12: SubSeq(s, i, i + 2) = B(<<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>[m])
DayNo(s) == CHOOSE d \in 0..6: SubSeq(s, 1, 3) = B(<<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>[d + 1])
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 31
\* day of the week, 0 = Sunday (Sakamoto)
Weekday(y0, m, d) ==
    LET y == IF m < 3 THEN y0 - 1 ELSE y0
        t == <<0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4>> IN
    (y + y \div 4 - y \div 100 + y \div 400 + t[m] + d) % 7

DateParts(s) ==
    IF s[4] = 44 THEN [obs |-> FALSE, d |-> Num(s, 6, 7), m |-> MonthNo(s, 9), y |-> Num(s, 13, 16),
                       hh |-> Num(s, 18, 19), mm |-> Num(s, 21, 22), ss |-> Num(s, 24, 25)]
    ELSE IF s[4] = 32 THEN [obs |-> TRUE, d |-> IF s[9] = 32 THEN Num(s, 10, 10) ELSE Num(s, 9, 10), m |-> MonthNo(s, 5), y |-> Num(s, 21, 24),
                            hh |-> Num(s, 12, 13), mm |-> Num(s, 15, 16), ss |-> Num(s, 18, 19)]
    ELSE LET p == CHOOSE k \in 1..Len(s): s[k] = 44 /\ \A j \in 1..(k - 1): s[j] # 44 IN
         [obs |-> TRUE, d |-> Num(s, p + 2, p + 3), m |-> MonthNo(s, p + 5), y |-> 1900 + Num(s, p + 9, p + 10),
          hh |-> Num(s, p + 12, p + 13), mm |-> Num(s, p + 15, p + 16), ss |-> Num(s, p + 18, p + 19)]
OfDate(s) ==
    LET x == DateParts(s)
        dok == x.y >= 1 /\ x.d \in 1..MonthLen(x.y, x.m)
        tok == x.hh <= 23 /\ x.mm <= 59 /\ x.ss <= 59 IN
    (IF x.obs THEN {<<1107, "">>} ELSE {})
    \cup (IF dok THEN {} ELSE {<<1222, ToString(<<x.d, x.m, x.y>>)>>})
    \cup (IF tok THEN {} ELSE {<<1223, ToString(<<x.hh, x.mm, x.ss>>)>>})
    \cup (IF dok /\ tok /\ Weekday(x.y, x.m, x.d) # DayNo(s) THEN {<<1108, ToString(<<x.d, x.m, x.y, DayNo(s)>>)>>} ELSE {})
\* HTTP allows the leap second 23:59:60, which the implementation is known not to parse.
LeapSecond(s) == LET x == DateParts(s) IN x.ss = 60

\* texts of all the dates in a value
Dates(n, s, ts) ==
    IF n \in DateHdrs THEN {s}
    ELSE IF n \in {"retry-after", "if-range"} THEN (IF Matches(Env, HttpDate, s) THEN {s} ELSE {})
    ELSE IF n = "warning" THEN {Sel(p, LAMBDA t: t.k = "q")[2].c : p \in {x \in {Split(ts, ",")[k] : k \in 1..Len(Split(ts, ","))}: Len(Sel(x, LAMBDA t: t.k = "q")) = 2}}
    ELSE {}

------------------------------------------------------------------------------
(* White space, escapes and empty elements *)

One(id, cond) == IF cond THEN {<<id, "">>} ELSE {}
Each(id, subjects) == {<<id, ToString(x)>> : x \in subjects}
Elems(seq) == {seq[k] : k \in 1..Len(seq)}

OfEscapes(n, ts) ==
    IF n \in CommentHdrs THEN Each(1017, UNION {{x \in Elems(ts[k].e): x \notin {40, 41, 92}} : k \in Idx(ts, LAMBDA t: t.k = "m")})
    ELSE IF n \in QsHdrs THEN Each(1017, UNION {{x \in Elems(ts[k].e): x \notin {34, 92}} : k \in Idx(ts, LAMBDA t: t.k = "q")})
    ELSE {}

\* RWS: every run of white space inside an element
OfRws(n, ts) ==
    IF n \notin CommentHdrs \cup {"httpolice-silence"} THEN {}
    ELSE Each(1014, {Len(ts[k].c) : k \in {j \in 2..(Len(ts) - 1): /\ ts[j].k = "w" /\ ts[j].c # <<32>>
                                                                  /\ ~(n \in {"via", "httpolice-silence"} /\ (IsD(ts[j - 1], ",") \/ IsD(ts[j + 1], ",")))}})

BwsAt(ts, k) == IsD(ts[k], "=") /\ \/ k > 1 /\ ts[k - 1].k = "w"
                                   \/ k + 1 < Len(ts) /\ ts[k + 1].k = "w" /\ ts[k + 2].k \in {"t", "q"}
OfBws(n, ts) == IF n \in BwsHdrs THEN One(1015, \E k \in 1..Len(ts): BwsAt(ts, k)) ELSE {}

\* One of several list elements is empty
Hollow(slots) == Len(slots) > 1 /\ \E k \in 1..Len(slots): Blank(slots[k])
IsPairSlot(p) == LET q == NoWs(p) IN Len(q) > 1 /\ IsD(q[2], "=") /\ Len(q) > 2 /\ q[3].k \in {"t", "q"}
NextFilled(slots, k) == {j \in (k + 1)..Len(slots): ~Blank(slots[j]) /\ \A i \in (k + 1)..(j - 1): Blank(slots[i])}
\* "Scheme , a=b": the parameter list of a challenge starts with an empty element
LateParams(slots) == \E k \in 1..Len(slots): /\ Len(NoWs(slots[k])) = 1
                                             /\ \E j \in NextFilled(slots, k): IsPairSlot(slots[j])
AfterScheme(ts) == IF Len(ts) > 2 THEN SubSeq(ts, 3, Len(ts)) ELSE <<>>
OfEmpty(n, ts) ==
    LET slots == Split(ts, ",") IN
    IF n \in ListHdrs THEN One(1151, Hollow(slots))
    ELSE IF n \in AuthListHdrs THEN One(1151, Hollow(slots) \/ LateParams(slots))
    ELSE IF n \in AuthHdrs THEN One(1151, Hollow(Split(AfterScheme(ts), ",")))
    ELSE {}

------------------------------------------------------------------------------
(* Arguments of directives and parameters *)

\* The grammar of an argument, if it has one
ArgGrammar(n, a) ==
    CASE n = "cache-control" /\ a \in Oct(CcDelta) -> [g |-> Digits]
      [] n = "cache-control" /\ a \in Oct(CcNames) -> [g |-> FieldNames]
      [] n = "strict-transport-security" /\ a = S("max-age") -> [g |-> Digits]
      [] n \in {"prefer", "preference-applied"} /\ a = S("return") -> [g |-> PrefReturn]
      [] n \in {"prefer", "preference-applied"} /\ a = S("handling") -> [g |-> PrefHandling]
      [] n \in {"prefer", "preference-applied"} /\ a = S("wait") -> [g |-> Digits]
      [] n = "forwarded" /\ a \in {S("for"), S("by")} -> [g |-> FwdNode]
      [] n = "forwarded" /\ a = S("host") -> [g |-> HostPort]
      [] n = "forwarded" /\ a = S("proto") -> [g |-> Scheme]
      [] n = "alt-svc" /\ a = S("ma") -> [g |-> Digits]
      [] n = "alt-svc" /\ a = S("persist") -> [g |-> L("1")]
      [] n = "link" /\ a = S("anchor") -> [g |-> URIReference]
      [] n = "link" /\ a \in {S("rel"), S("rev")} -> [g |-> Rel]
      [] n = "link" /\ a = S("hreflang") -> [g |-> LanguageTag]
      [] n = "link" /\ a = S("type") -> [g |-> LinkType]
      [] n = "link" /\ a = S("title*") -> [g |-> ExtValue]
      [] OTHER -> [none |-> TRUE]
Required(n) == CASE n = "cache-control" -> Oct(CcArgReq) [] n = "strict-transport-security" -> Oct(HstsReq)
                 [] n \in {"prefer", "preference-applied"} -> Oct(PrefReq) [] n = "forwarded" -> Oct(FwdReq) [] n = "alt-svc" -> Oct(AltReq)
                 [] OTHER -> {}
Forbidden(n) == CASE n = "cache-control" -> Oct(CcArgNo) [] n = "strict-transport-security" -> Oct(HstsNo)
                  [] n \in {"prefer", "preference-applied"} -> Oct(PrefNo) [] n = "forwarded" -> Oct(FwdNo) [] n = "alt-svc" -> Oct(AltNo)
                  [] OTHER -> {}
DirectiveHdrs == {"cache-control", "strict-transport-security", "prefer", "preference-applied", "forwarded", "alt-svc"}

Slots(n, ts) == LET all == IF n = "strict-transport-security" THEN Split(ts, ";") ELSE IF n \in ListHdrs \cup {"forwarded"} THEN Split(ts, ",") ELSE <<ts>> IN
                Sel(all, LAMBDA p: ~Blank(p))
Rest(parts) == IF parts = <<>> THEN <<>> ELSE SubSeq(parts, 2, Len(parts))
\* The "name = argument" pairs of a slot
Directives(n, slot) ==
    CASE n \in {"cache-control", "strict-transport-security", "preference-applied"} -> <<Pair(slot)>>
      [] n = "prefer" -> <<Pair(Split(slot, ";")[1])>>
      [] n = "forwarded" -> Pairs(Split(slot, ";"))
      [] n \in {"alt-svc", "link", "content-disposition", "content-type", "accept-patch", "accept-post"} -> Pairs(Rest(Split(slot, ";")))
      [] OTHER -> <<>>
\* An empty value is no value in Prefer and Preference-Applied
NoArg(n, d) == d.a = "none" \/ (n \in {"prefer", "preference-applied"} /\ d.v = <<>>)
ArgOk(n, d) == \/ NoArg(n, d) /\ n # "link"
               \/ /\ d.n \notin Forbidden(n)
                  /\ LET g == ArgGrammar(n, d.n) IN "none" \in DOMAIN g \/ Matches(Env, g.g, d.v)
AllDirectives(n, ts) == LET sl == Slots(n, ts) IN UNION {Elems(Directives(n, sl[k])) : k \in 1..Len(sl)}
OfArgs(n, ts) ==
    IF n \notin DirectiveHdrs THEN {}
    ELSE LET ds == IF n = "alt-svc" /\ ts[1].c = B("clear") /\ Len(ts) = 1 THEN {} ELSE AllDirectives(n, ts) IN
    UNION {
    Each(1156, {d.n : d \in {x \in ds: NoArg(n, x) /\ x.n \in Required(n)}}),
    Each(1157, {d.n : d \in {x \in ds: ~NoArg(n, x) /\ x.n \in Forbidden(n)}}),
    Each(1158, {<<d.n, d.v>> : d \in {x \in ds: ~NoArg(n, x) /\ x.n \notin Forbidden(n) /\ ~ArgOk(n, x)}}),
    \* lists of field names inside Cache-Control arguments
    IF n = "cache-control" THEN Each(1151, {<<d.n, d.v>> : d \in {x \in ds: x.n \in Oct(CcNames) /\ x.a # "none" /\ ArgOk(n, x) /\ Hollow(Split(Toks(x.v, 1, "q"), ","))}})
    ELSE {}}

\* by directive name only: reported once for the whole message
OfCcForm(n, ts) ==
    IF n # "cache-control" THEN {}
    ELSE LET ds == AllDirectives(n, ts) IN
         Each(1154, {d.n : d \in {x \in ds: x.n \in Oct(CcQuoted) /\ x.a = "t"}}) \cup Each(1155, {d.n : d \in {x \in ds: x.n \in Oct(CcToken) /\ x.a = "q"}})

------------------------------------------------------------------------------
(* Entity tags, ranges *)

OfTags(n, s) == IF n \in TagHdrs /\ ~(n = "if-range" /\ Matches(Env, HttpDate, s)) THEN One(1119, \E k \in 1..Len(s): s[k] = 92) ELSE {}

RECURSIVE SplitO(_, _, _)
SplitO(s, c, acc) == IF s = <<>> THEN <<acc>> ELSE IF Head(s) = c THEN <<acc>> \o SplitO(Tail(s), c, <<>>) ELSE SplitO(Tail(s), c, Append(acc, Head(s)))
RECURSIVE Strip0(_)
Strip0(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip0(Tail(s)) ELSE s
\* a > b on strings of digits
Greater(a0, b0) == LET a == Strip0(a0)   b == Strip0(b0) IN
    Len(a) > Len(b) \/ (Len(a) = Len(b) /\ \E k \in 1..Len(a): a[k] > b[k] /\ \A j \in 1..(k - 1): a[j] = b[j])
NoBlanks(s) == SelectSeq(s, LAMBDA c: c \notin {9, 32})
OfRange(n, s) ==
    IF n = "range" THEN
        LET halves == SplitO(s, 61, <<>>) IN
        IF Lower(halves[1]) # S("bytes") THEN {}
        ELSE LET specs == SplitO(NoBlanks(halves[2]), 44, <<>>)
                 Bad(x) == LET ab == SplitO(x, 45, <<>>) IN Len(ab) = 2 /\ ab[1] # <<>> /\ ab[2] # <<>> /\ Greater(ab[1], ab[2]) IN
             One(1133, \E k \in 1..Len(specs): Bad(specs[k])) \cup One(1151, Len(specs) > 1 /\ \E k \in 1..Len(specs): specs[k] = <<>>)
    ELSE IF n = "content-range" THEN
        LET halves == SplitO(s, 32, <<>>) IN
        IF Lower(halves[1]) # S("bytes") \/ halves[2][1] = 42 THEN {}
        ELSE LET rc == SplitO(halves[2], 47, <<>>)   ab == SplitO(rc[1], 45, <<>>) IN
             One(1148, Greater(ab[1], ab[2]) \/ (rc[2] # B("*") /\ ~Greater(rc[2], ab[2])))
    ELSE {}

------------------------------------------------------------------------------
(* Media types *)

BadTypes == {S("application/text"), S("plain/text"), S("text/json")}
OfMedia(n, ts) ==
    IF n \notin MediaHdrs THEN {}
    ELSE LET sl == Slots(n, ts) IN Each(1282, {Lower(NoWs(sl[k])[1].c) : k \in 1..Len(sl)} \cap BadTypes)

------------------------------------------------------------------------------
(* RFC 8187 values *)

Cont == Cls(128..191)
Utf8 == TLCEval(Many(Alt(<<Cls(0..127), Cat(<<Cls(194..223), Cont>>),
    Cat(<<Cls({224}), Cls(160..191), Cont>>), Cat(<<Cls((225..236) \cup {238, 239}), Cont, Cont>>), Cat(<<Cls({237}), Cls(128..159), Cont>>),
    Cat(<<Cls({240}), Cls(144..191), Cont, Cont>>), Cat(<<Cls(241..243), Cont, Cont, Cont>>), Cat(<<Cls({244}), Cls(128..143), Cont, Cont>>)>>)))
IsHex(c) == c \in (48..57) \cup (65..70) \cup (97..102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE Lc(c) - 87
RECURSIVE PctDecode(_)
PctDecode(s) == IF s = <<>> THEN <<>>
    ELSE IF s[1] = 37 /\ Len(s) > 2 /\ IsHex(s[2]) /\ IsHex(s[3]) THEN <<16 * HexVal(s[2]) + HexVal(s[3])>> \o PctDecode(SubSeq(s, 4, Len(s)))
    ELSE <<s[1]>> \o PctDecode(Tail(s))
\* The same error in the same field is said once, whichever parameter has it
OfExt(v, subj) ==
    LET ap == {k \in 1..Len(v): v[k] = 39}
        a1 == CHOOSE k \in ap: \A j \in ap: k <= j
        a2 == CHOOSE k \in ap: k # a1 /\ \A j \in ap \ {a1}: k <= j
        cs == Lower(SubSeq(v, 1, a1 - 1)) IN
    IF cs # S("utf-8") THEN {<<1253, ToString(<<subj, cs>>)>>}
    ELSE IF Matches(Env, Utf8, PctDecode(SubSeq(v, a2 + 1, Len(v)))) THEN {} ELSE {<<1254, ToString(<<subj, PctDecode(SubSeq(v, a2 + 1, Len(v)))>>)>>}

------------------------------------------------------------------------------
(* Content-Disposition *)

HasPct(v) == \E k \in 1..(Len(v) - 2): v[k] = 37 /\ IsHex(v[k + 1]) /\ IsHex(v[k + 2])
OfDispParams(ts) ==         \* of the header that counts
    LET ps == Pairs(Rest(Split(ts, ";")))
        F == Idx(ps, LAMBDA p: p.n = S("filename"))   X == Idx(ps, LAMBDA p: p.n = S("filename*"))
        fn == ps[CHOOSE k \in F: \A j \in F: k <= j].v IN
    UNION {
    Each(1247, {ps[k].n : k \in {j \in 1..Len(ps): \E i \in 1..Len(ps): i # j /\ ps[i].n = ps[j].n}}),
    IF F # {} THEN One(1248, HasPct(fn)) \cup One(1249, \E k \in 1..Len(fn): fn[k] \in {34, 92}) \cup One(1250, \E k \in 1..Len(fn): fn[k] > 127)
    ELSE {},
    One(1251, X # {} /\ F = {}),
    One(1252, X # {} /\ F # {} /\ \E k \in X: \A j \in F: k < j)}
OfDispExt(n, ts) ==
    IF n # "content-disposition" THEN {}
    ELSE LET ps == Pairs(Rest(Split(ts, ";"))) IN UNION {OfExt(ps[k].v, "") : k \in Idx(ps, LAMBDA p: p.n = S("filename*"))}

------------------------------------------------------------------------------
(* Link *)

OnceParams == {S("rel"), S("media"), S("title"), S("title*"), S("type")}
LinkParams(slot) == Pairs(Rest(Split(slot, ";")))
Used(ps) == {k \in 1..Len(ps): ~(ps[k].n \in OnceParams /\ \E j \in 1..(k - 1): ps[j].n = ps[k].n)}
OfLink(n, ts) ==
    IF n # "link" THEN {}
    ELSE LET sl == Slots(n, ts)
             Of(ps) == UNION {
                Each(1225, {ps[k].n : k \in (1..Len(ps)) \ Used(ps)}),
                One(1226, \E k \in 1..Len(ps): ps[k].n = S("rev")),
                One(1307, \E k \in Used(ps): ps[k].n = S("title") /\ ps[k].a = "t"),
                One(1308, \E k \in Used(ps): ps[k].n = S("hreflang") /\ ps[k].a = "q"),
                One(1309, ~\E k \in 1..Len(ps): ps[k].n = S("rel")),
                Each(1158, {<<ps[k].n, ps[k].v>> : k \in {j \in Used(ps): ~ArgOk(n, ps[j])}}),
                Each(1282, {<<Lower(ps[k].v), ps[k].v>> : k \in {j \in Used(ps): ps[j].n = S("type") /\ Lower(ps[j].v) \in BadTypes}}),
                UNION {OfExt(ps[k].v, <<ps[k].n, ps[k].v>>) : k \in {j \in Used(ps): ps[j].n = S("title*") /\ ArgOk(n, ps[j])}}} IN
         UNION {Of(LinkParams(sl[k])) : k \in 1..Len(sl)}

------------------------------------------------------------------------------
(* Forwarded, Alt-Svc *)

OfForwarded(n, ts) ==
    IF n # "forwarded" THEN {}
    ELSE LET sl == Slots(n, ts)   el(k) == Pairs(Split(sl[k], ";"))
             names == [k \in 1..Len(sl) |-> IF Len(el(k)) > 0 THEN el(k)[1].n ELSE <<>>] IN
         Each(1296, UNION {{el(k)[i].n : i \in {x \in 1..Len(el(k)): \E y \in 1..Len(el(k)): x # y /\ el(k)[y].n = el(k)[x].n}} : k \in 1..Len(sl)})
         \cup One(1297, /\ Len(sl) > 1 /\ \A k \in 1..Len(sl): Len(el(k)) = 1
                        /\ \A j \in 1..Len(sl), k \in 1..Len(sl): j # k => names[j] # names[k])

HexChar(x) == IF x < 10 THEN 48 + x ELSE 55 + x
RECURSIVE PctEncode(_)
PctEncode(s) == IF s = <<>> THEN <<>>
    ELSE (IF s[1] \in TcharSet \ {37} THEN <<s[1]>> ELSE <<37, HexChar(s[1] \div 16), HexChar(s[1] % 16)>>) \o PctEncode(Tail(s))
OfAltSvc(n, ts) ==
    IF n # "alt-svc" \/ (Len(ts) = 1 /\ ts[1].c = B("clear")) THEN {}
    ELSE LET sl == Slots(n, ts)   alt(k) == NoWs(sl[k]) IN
         Each(1256, {alt(k)[1].c : k \in {j \in 1..Len(sl): PctEncode(PctDecode(alt(j)[1].c)) # alt(j)[1].c}})
         \cup Each(1257, {alt(k)[3].c : k \in {j \in 1..Len(sl): ~Matches(Env, AltAuthority, alt(j)[3].c)}})

------------------------------------------------------------------------------
(* Commas and semicolons in quoted strings.  Whether one counts in an argument that is malformed,
   or in the <...> of a Link, is left open. *)

\* (The comma of the date that ends a warning is not counted.)
QuotedWith(ts, c) == \E i \in 1..Len(ts): ts[i].k \in {"q", "m"} /\ c \in Elems(ts[i].c)
                              /\ ~\E j \in 1..(i - 2): ts[j].k = "q" /\ ts[j + 1].k = "w" /\ j + 2 = i
UriWith(ts, c) == \E k \in 1..Len(ts): ts[k].k = "u" /\ c \in Elems(ts[k].c)
AllGood(n, ts) == IF n \in DirectiveHdrs \cup {"link"} THEN
                     /\ \A d \in AllDirectives(n, ts): ArgOk(n, d)
                     /\ n = "link" => LET sl == Slots(n, ts) IN \A k \in 1..Len(sl): Used(LinkParams(sl[k])) = 1..Len(LinkParams(sl[k]))
                  ELSE TRUE
DelimOpen(n, ts, c) == UriWith(ts, c) \/ (QuotedWith(ts, c) /\ ~AllGood(n, ts))
OfDelims(n, ts) ==
    One(1299, n \in HdrQuotedComma /\ QuotedWith(ts, 44)) \cup One(1300, n \in HdrQuotedSemi /\ QuotedWith(ts, 59))

------------------------------------------------------------------------------
(* Everything about one well-formed line *)

\* Where the grammar is ambiguous, or see above: notices on which nothing is claimed
Open(n, s, ts) ==
    UNION {
    IF n = "link" /\ \E k \in 2..Len(ts): ts[k].k = "w" /\ ts[k - 1].k = "t" /\ (k = Len(ts) \/ ~IsD(ts[k + 1], "=")) THEN {1015} ELSE {},
    IF n = "forwarded" /\ \E k \in 1..Len(Split(ts, ",")): Blank(Split(ts, ",")[k]) THEN {1151, 1297} ELSE {},
    \* commas are allowed in host names, too; and host names may be empty
    IF n = "via" /\ \/ \E k \in 1..Len(Slots(n, ts)): LET p == NoWs(Slots(n, ts)[k]) IN Len(p) = 1 \/ p[2].k # "t"
                     \/ \E j \in 2..Len(ts): ts[j].k = "m" /\ ts[j - 1].k # "w" THEN {1014, 1151, 1299} ELSE {},
    IF n = "warning" /\ \E k \in 1..Len(Slots(n, ts)): Cardinality(Idx(Slots(n, ts)[k], LAMBDA t: t.k = "q")) = 0 THEN {1151, 1299} ELSE {},
    \* whether these names are case-sensitive is not said
    IF n = "alt-svc" /\ \E k \in 1..Len(ts): Lower(ts[k].c) \in {S("ma"), S("persist")} /\ ts[k].c # Lower(ts[k].c) THEN {1156, 1157, 1158} ELSE {},
    IF n \in HdrQuotedComma /\ DelimOpen(n, ts, 44) THEN {1299} ELSE {},
    IF n \in HdrQuotedSemi /\ DelimOpen(n, ts, 59) THEN {1300} ELSE {},
    IF \E d \in Dates(n, s, ts): LeapSecond(d) THEN {1223, 1108} ELSE {}}

Line(n, s) ==
    LET ts == Lexed(n, s) IN
    UNION {OfEscapes(n, ts), OfRws(n, ts), OfBws(n, ts), OfEmpty(n, ts), OfArgs(n, ts), OfTags(n, s), OfRange(n, s), OfMedia(n, ts),
           UNION {OfDate(d) : d \in Dates(n, s, ts)}, OfDispExt(n, ts), OfLink(n, ts), OfForwarded(n, ts), OfAltSvc(n, ts), OfDelims(n, ts)}
Whole(n, s) ==
    LET ts == Lexed(n, s) IN
    OfCcForm(n, ts) \cup (IF n = "content-disposition" THEN OfDispParams(ts) ELSE {})
==============================================================================
