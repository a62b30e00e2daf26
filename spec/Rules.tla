------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* What HTTPolice must report about an exchange: for every notice, the     *)
(* condition it documents, on an abstract exchange.                        *)
(*                                                                         *)
(* An exchange is [req |-> message or [none |-> TRUE], resps |-> <<...>>]. *)
(* A message has: kind, ver, body, hdrs and (requests) method, mok,        *)
(* scheme, tgt / (responses) status, reason.  A header entry is            *)
(*   [n |-> name in lower case, t |-> from the trailer?, nok |-> is the    *)
(*    name a token?, x |-> spelled with X-?, ok |-> does the value match   *)
(*    its grammar?, star |-> is it the singleton form?, v |-> its value]   *)
(*                                                                         *)
(* The result is a set of <<notice, where, subject>>, where `where' is     *)
(* "req", "exch" or the number of the response as a string, and the        *)
(* subject tells different offending items apart.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Known

NoReq(r) == "none" \in DOMAIN r

------------------------------------------------------------------------------
(* Access to headers: the rules of combination (see also property C07). *)

HEntries(m, n) == SelectSeq(m.hdrs, LAMBDA e: e.n = n /\ ~(e.t /\ n \in HdrBadTrailer))
Has(m, n) == \E k \in 1..Len(m.hdrs): m.hdrs[k].n = n /\ ~(m.hdrs[k].t /\ n \in HdrBadTrailer)
Lacks(m, n) == ~Has(m, n)
Names(m) == {m.hdrs[k].n : k \in 1..Len(m.hdrs)}

\* Headers with a single value: the last entry counts.
OkOne(m, n) == LET es == HEntries(m, n) IN Len(es) > 0 /\ es[Len(es)].ok
One(m, n) == LET es == HEntries(m, n) IN es[Len(es)].v
BadOne(m, n) == Has(m, n) /\ ~OkOne(m, n)

\* Headers with a list value.
RECURSIVE CatV(_, _)
CatV(es, k) == IF k > Len(es) THEN <<>> ELSE (IF es[k].ok THEN es[k].v ELSE <<>>) \o CatV(es, k + 1)
HasStar(es) == \E k \in 1..Len(es): es[k].ok /\ es[k].star
Star(m, n) == LET es == HEntries(m, n) IN Len(es) = 1 /\ HasStar(es)
List(m, n) == LET es == HEntries(m, n) IN IF HasStar(es) THEN <<>> ELSE CatV(es, 1)
Elems(m, n) == LET l == List(m, n) IN {l[k] : k \in 1..Len(l)}
\* Not empty, malformed entries included
Filled(m, n) == LET es == HEntries(m, n) IN HasStar(es) \/ (\E k \in 1..Len(es): ~es[k].ok) \/ CatV(es, 1) # <<>>

Items(m, n) == {x.i : x \in Elems(m, n)}

Connection(m) == Elems(m, "connection")
TECodings(m) == Items(m, "transfer-encoding")
Chunked(m) == "chunked" \in TECodings(m)

CtypeOk(m) == OkOne(m, "content-type")
Ctype(m) == One(m, "content-type")
CtypeIs(m, t) == CtypeOk(m) /\ Ctype(m).i = t

\* Dates are seconds relative to now.
DateOf(m, n) == One(m, n)
OkDate(m, n) == OkOne(m, n)

------------------------------------------------------------------------------
(* Cache directives: the first occurrence of a name counts. *)

\* Value of a directive: kind "true" (no argument), "num", "names", "str", "bad".
CcVal(d) ==
    IF d.k = "none" THEN (IF d.d \in CcArgReq THEN [k |-> "bad", raw |-> "(none)"] ELSE [k |-> "true"])
    ELSE IF d.d \in CcArgNo THEN [k |-> "bad", raw |-> d.raw]
    ELSE IF d.d \in CcDelta THEN (IF d.k = "num" THEN [k |-> "num", num |-> d.num] ELSE [k |-> "bad", raw |-> d.raw])
    ELSE IF d.d \in CcNames THEN (IF d.k \in {"num", "names"} THEN [k |-> "names", raw |-> d.raw, empty |-> d.empty]
                                                              ELSE [k |-> "bad", raw |-> d.raw])
    ELSE [k |-> "str", raw |-> d.raw]
CcTruthy(v) == CASE v.k = "num" -> v.num # 0
                 [] v.k = "names" -> ~v.empty
                 [] v.k = "str" -> v.raw # ""
                 [] OTHER -> TRUE
RECURSIVE CcFind(_, _, _)
CcFind(l, d, k) == IF k > Len(l) THEN [k |-> "absent"] ELSE IF l[k].d = d THEN CcVal(l[k]) ELSE CcFind(l, d, k + 1)
Cc(m, d) == CcFind(List(m, "cache-control"), d, 1)
CcHas(m, d) == Cc(m, d).k # "absent"
CcOn(m, d) == CcHas(m, d) /\ CcTruthy(Cc(m, d))
CcNum(m, d) == Cc(m, d).k = "num"
\* given without a list of field names
CcBare(m, d) == Cc(m, d).k = "true" \/ (Cc(m, d).k = "names" /\ Cc(m, d).empty)

WarnCodes(m) == {w.c : w \in Elems(m, "warning")}
NoCachePragma(m) == "no-cache" \in {p.i : p \in Elems(m, "pragma")}

------------------------------------------------------------------------------
(* Derived facts *)

ReqTls(r) == r.scheme = "https"
ReqPlain(r) == r.scheme = "http"
HasBytes(m) == m.body.st \in {"some", "unavail"}           \* known to have a body
HttpOne(m) == m.ver \in {"HTTP/1.0", "HTTP/1.1"}

\* "yes", "no" or "unknown"
ReqHasBody(r) == IF HasBytes(r) THEN "yes"
                 ELSE IF HttpOne(r) THEN (IF Has(r, "content-length") \/ Has(r, "transfer-encoding") THEN "yes" ELSE "no")
                 ELSE "unknown"

TargetForm(r) == IF r.method = "CONNECT" THEN (IF r.tgt.au THEN "authority" ELSE "bad")
                 ELSE IF r.tgt.o THEN "origin"
                 ELSE IF r.tgt.st /\ r.method = "OPTIONS" THEN "asterisk"
                 ELSE IF r.tgt.ab THEN "absolute"
                 ELSE "bad"
ToProxy(r) == HttpOne(r) /\ TargetForm(r) = "absolute"
NotToProxy(r) == HttpOne(r) /\ TargetForm(r) # "absolute"

\* The effective request URI, or [none |-> TRUE] when it cannot be told.
Uri(s, a, p, q) == [s |-> s, a |-> a, p |-> p, q |-> q, f |-> "-"]
Slashless == [abs |-> FALSE, segs |-> <<>>]
HasEU(r) ==
    \/ TargetForm(r) = "absolute"
    \/ r.scheme # "-" /\ TargetForm(r) = "authority"
    \/ r.scheme # "-" /\ TargetForm(r) \in {"origin", "asterisk"} /\ OkOne(r, "host")
EU(r) == CASE TargetForm(r) = "absolute" -> r.tgt.u
           [] TargetForm(r) = "authority" -> Uri(r.scheme, r.tgt.u.a, Slashless, "-")
           [] TargetForm(r) = "asterisk" -> Uri(r.scheme, One(r, "host"), Slashless, "-")
           [] OTHER -> Uri(r.scheme, One(r, "host"), r.tgt.u.p, r.tgt.u.q)

\* Reference resolution (RFC 3986 section 5.2), on URIs split into components.
RECURSIVE RemoveDots(_, _)
RemoveDots(inp, out) ==
    IF inp = <<>> THEN out
    ELSE LET x == Head(inp)   last == Len(inp) = 1
             cut == IF out = <<>> THEN <<>> ELSE SubSeq(out, 1, Len(out) - 1) IN
         IF x = "." THEN RemoveDots(Tail(inp), IF last THEN Append(out, "") ELSE out)
         ELSE IF x = ".." THEN RemoveDots(Tail(inp), IF last THEN Append(cut, "") ELSE cut)
         ELSE RemoveDots(Tail(inp), Append(out, x))
Merge(base, p) == IF base.segs = <<>> THEN p.segs ELSE SubSeq(base.segs, 1, Len(base.segs) - 1) \o p.segs
Resolve(base, ref) ==
    IF ref.s # "-" THEN ref
    ELSE IF ref.a # "-" THEN [ref EXCEPT !.s = base.s]
    ELSE IF ref.p = Slashless THEN [base EXCEPT !.q = IF ref.q = "-" THEN base.q ELSE ref.q, !.f = ref.f]
    ELSE [s |-> base.s, a |-> base.a, q |-> ref.q, f |-> ref.f,
          p |-> [abs |-> TRUE, segs |-> RemoveDots(IF ref.p.abs THEN ref.p.segs ELSE Merge(base.p, ref.p), <<>>)]]
SameUri(r, m, n) == HasEU(r) /\ OkOne(m, n) /\ Resolve(EU(r), One(m, n)) = EU(r)

\* Contents of a body in URL-encoded form: a sequence of [k |-> name, v |-> value].
ContentKnown(m) == /\ m.body.st = "empty" \/ (m.body.st = "some" /\ ~Filled(m, "content-encoding"))
FormPairs(m) == IF m.body.st = "some" /\ m.body.kind = "form" /\ CtypeIs(m, "application/x-www-form-urlencoded") /\ ContentKnown(m)
                THEN m.body.pairs ELSE <<>>
FormReadable(m) == m.body.st = "empty" \/ (m.body.st = "some" /\ m.body.kind = "form" /\ ContentKnown(m))
HasKey(pairs, k) == \E j \in 1..Len(pairs): pairs[j].k = k /\ pairs[j].v # ""
QueryPairs(r) == IF HasEU(r) THEN r.tgt.qp ELSE <<>>

Informational(m) == m.status \in 100..199
Successful(m) == m.status \in 200..299
Redirection(m) == m.status \in 300..399
ClientError(m) == m.status \in 400..499
ServerError(m) == m.status \in 500..599

ByClose(m, r) ==
    /\ Lacks(m, "content-length") /\ ~Chunked(m) /\ ~Informational(m) /\ m.status \notin {204, 304} /\ m.ver # "HTTP/2"
    /\ ~NoReq(r)
    /\ r.method # "HEAD" /\ ~(r.method = "CONNECT" /\ Successful(m))
    /\ HttpOne(m)

\* Was the response taken from a cache?  (Unknown counts as no.)
AgeImpossible(m) == m.status # 103 /\ OkDate(m, "date") /\ OkOne(m, "age") /\ One(m, "age") > 30 - DateOf(m, "date")
FirstWarn(m, lo, hi) == LET l == SelectSeq(List(m, "warning"), LAMBDA w: w.c >= lo /\ w.c < hi) IN l
FromCache(m) == m.status # 103 /\ ~AgeImpossible(m) /\ (Has(m, "age") \/ FirstWarn(m, 100, 200) # <<>>)
Heuristic(m) == FromCache(m) /\ (\/ 113 \in WarnCodes(m)
                                 \/ /\ Lacks(m, "expires") /\ ~CcOn(m, "max-age")
                                    /\ Lacks(m, "cache-control"))
StaleByWarn(m) == m.status # 103 /\ WarnCodes(m) \cap {110, 111} # {}
StaleByMaxAge(m) == m.status # 103 /\ ~StaleByWarn(m) /\ ~CcHas(m, "s-maxage")
                    /\ OkOne(m, "age") /\ CcNum(m, "max-age") /\ One(m, "age") > Cc(m, "max-age").num
StaleByExpires(m) == m.status # 103 /\ ~StaleByWarn(m) /\ ~StaleByMaxAge(m) /\ ~CcHas(m, "s-maxage")
                     /\ ~CcHas(m, "max-age") /\ OkDate(m, "expires") /\ OkDate(m, "date") /\ OkOne(m, "age")
                     /\ One(m, "age") > DateOf(m, "expires") - DateOf(m, "date")
Stale(m) == StaleByWarn(m) \/ StaleByMaxAge(m) \/ StaleByExpires(m)

TransformedReq(r) == 214 \in WarnCodes(r)
TransformedResp(m) == m.status # 103 /\ (m.status = 203 \/ 214 \in WarnCodes(m))

------------------------------------------------------------------------------
(* Notices *)

C(cond, id) == IF cond THEN {<<id, "">>} ELSE {}
E(id, subjects) == {<<id, ToString(s)>> : s \in subjects}

CcPairs(m, id, pairs) == E(id, {k \in 1..Len(pairs): CcOn(m, pairs[k][1]) /\ CcOn(m, pairs[k][2])})

\* An unquoted realm is reported for every header line that has one.
BareRealm(a) == a.k = "params" /\ \E k \in 1..Len(a.p): a.p[k].n = "realm" /\ ~a.p[k].qd
RealmLines(m, n, list) ==
    LET es == HEntries(m, n)
        Bare(x) == x.ok /\ IF list THEN \E k \in 1..Len(x.v): BareRealm(x.v[k]) ELSE BareRealm(x.v) IN
    {<<n, es[j].raw>> : j \in {k \in 1..Len(es): Bare(es[k])}}

\* Rules for any message.  `tls' tells whether it is known to have been sent over TLS.
OfMessage(m, tls, early) ==
    LET names == Names(m)
        transformed == IF m.kind = "req" THEN TransformedReq(m) ELSE TransformedResp(m)
        h2 == m.ver = "HTTP/2" IN
    UNION {
    E(1197, names \cap HdrDeprecated),
    E(1293, {m.hdrs[k].n : k \in {j \in 1..Len(m.hdrs): ~m.hdrs[j].nok}}),
    C(\E k \in 1..Len(m.hdrs): m.hdrs[k].x /\ m.hdrs[k].n \notin HdrKnown, 1277),
    C(m.ver = "HTTP/1.1" /\ Has(m, "trailer") /\ ~Chunked(m), 1054),
    E(1030, {<<m.hdrs[k].n, m.hdrs[k].raw>> : k \in {j \in 1..Len(m.hdrs): m.hdrs[j].t /\ m.hdrs[j].n \notin Elems(m, "trailer")}}),
    C(Has(m, "transfer-encoding") /\ Has(m, "content-length"), 1020),
    E(1034, Connection(m) \cap HdrBadConn),
    C(CtypeOk(m) /\ Ctype(m).i \in MtDeprecated, 1035),
    IF CtypeOk(m) THEN E(1042, {p \in {Ctype(m).p[k] : k \in 1..Len(Ctype(m).p)} :
                                Cardinality({k \in 1..Len(Ctype(m).p): Ctype(m).p[k] = p}) > 1}) ELSE {},
    C(CtypeIs(m, "application/json") /\ \E k \in 1..Len(Ctype(m).p): Ctype(m).p[k] = "charset", 1280),
    C(OkDate(m, "date") /\ DateOf(m, "date") > 10, 1109),
    E(1163, {c \in WarnCodes(m): c < 100 \/ c > 299}),
    E(1164, {w.c : w \in {x \in Elems(m, "warning"): x.dok /\ OkDate(m, "date") /\ x.date # DateOf(m, "date")}}),
    E(1160, {p.i : p \in {x \in Elems(m, "pragma"): ~(x.i = "no-cache")}}),
    C(\E p \in Elems(m, "upgrade"): p.i = "h2", 1228),
    C(tls /\ \E p \in Elems(m, "upgrade"): p.i = "h2c", 1233),
    E(1196, RealmLines(m, "authorization", FALSE) \cup RealmLines(m, "proxy-authorization", FALSE)
            \cup RealmLines(m, "www-authenticate", TRUE) \cup RealmLines(m, "proxy-authenticate", TRUE)),
    IF early THEN {} ELSE UNION {
        C(Has(m, "upgrade") /\ "upgrade" \notin Connection(m), 1050),
        C(214 \in WarnCodes(m) /\ transformed /\ ~(m.kind = "resp" /\ m.status = 203), 1189),
        C(transformed /\ 214 \notin WarnCodes(m), 1191),
        C(transformed /\ CcOn(m, "no-transform"), 1192),
        IF h2 THEN E(1244, names \cap {"connection", "transfer-encoding", "keep-alive"}) ELSE {},
        C(h2 /\ "upgrade" \in names, 1245)}}

\* Accept-like headers: one wildcard makes another, equally weighted item redundant.
Subsumed(l) == \E j \in 1..Len(l), k \in 1..Len(l): j # k /\ l[j].wild # "" /\ l[j].q = l[k].q /\ l[j].i # l[k].i
                  /\ \/ l[j].wild = "*"
                     \/ l[k].type = l[j].type /\ l[k].wild # "*"

AuthHdrs == <<"authorization", "proxy-authorization">>
OfCredentials(r, n) ==
    IF ~OkOne(r, n) THEN {}
    ELSE LET a == One(r, n) IN
    UNION {
    IF a.scheme = "basic" THEN
        (IF a.k # "t68" THEN E(1209, {n})
         ELSE IF ~a.b64 THEN E(1210, {n})
         ELSE E(1211, IF a.colon THEN {} ELSE {n}) \cup E(1212, {<<n, a.ctl[k]>> : k \in 1..Len(a.ctl)}))
    ELSE IF a.scheme = "bearer" THEN
        E(1261, IF ReqPlain(r) THEN {n} ELSE {}) \cup E(1262, IF a.k = "t68" THEN {} ELSE {n})
    ELSE E(1274, IF a.k = "none" THEN {n} ELSE {})}

\* Cache directives that contradict each other, and those that have no effect with another
ReqContradict == <<<<"max-stale", "min-fresh">>, <<"stale-if-error", "min-fresh">>, <<"max-stale", "no-cache">>, <<"max-age", "no-cache">>>>
RespContradict == <<<<"public", "no-store">>, <<"private", "public">>, <<"private", "no-store">>,
                    <<"must-revalidate", "stale-while-revalidate">>, <<"must-revalidate", "stale-if-error">>>>
NoEffect == <<<<"max-age", "no-cache">>, <<"max-age", "no-store">>, <<"s-maxage", "private">>, <<"s-maxage", "no-cache">>, <<"s-maxage", "no-store">>>>

OfRequest(r) ==
    LET m == r.method
        hasbody == ReqHasBody(r)
        cc == Elems(r, "cache-control")
        prefs == List(r, "prefer")
        PrefIs(k, n, v) == prefs[k].n = n /\ prefs[k].v = v
        \* the first preference of a name counts
        FirstPref(n) == LET l == SelectSeq(prefs, LAMBDA p: p.n = n) IN IF l = <<>> THEN "absent" ELSE l[1].v
        AnyPref(n, v) == \E k \in 1..Len(prefs): PrefIs(k, n, v)
        certain == {h \in Names(r): TRUE}
        form == HasKey(FormPairs(r), "access_token") IN
    UNION {
    OfMessage(r, ReqTls(r), FALSE),
    E(1292, IF r.mok THEN {} ELSE {m}),
    C(r.up # m /\ r.up \in MethKnown, 1295),
    C(TargetForm(r) = "bad", 1045),
    C(HasBytes(r) /\ Lacks(r, "content-type"), 1041),
    C(HttpOne(r) /\ m \in MethBody /\ Lacks(r, "content-length") /\ Lacks(r, "transfer-encoding"), 1021),
    C(m \in MethNoBody /\ r.body.st = "empty" /\ Has(r, "content-length"), 1022),
    C("chunked" \in Items(r, "te"), 1028),
    E(1244, IF r.ver = "HTTP/2" /\ Filled(r, "te") /\ ~(List(r, "te") # <<>> /\ Len(List(r, "te")) = 1 /\ List(r, "te")[1].i = "trailers"
                                                     /\ \A k \in 1..Len(HEntries(r, "te")): HEntries(r, "te")[k].ok) THEN {"te"} ELSE {}),
    C(r.ver = "HTTP/1.1" /\ Filled(r, "te") /\ "te" \notin Connection(r), 1029),
    C(r.ver = "HTTP/1.1" /\ Lacks(r, "host"), 1031),
    C(Has(r, "host") /\ r.hdrs[1].n # "host", 1032),
    E(1063, Names(r) \cap HdrNotForReq),
    E(1053, IF hasbody = "no" THEN {n \in Names(r): n \in HdrRepMeta /\ n \notin HdrNotForReq} ELSE {}),
    C(HasBytes(r) /\ m = "GET", 1056),
    C(HasBytes(r) /\ m = "HEAD", 1057),
    C(HasBytes(r) /\ m = "DELETE", 1059),
    C(HasBytes(r) /\ m = "CONNECT", 1061),
    C(HasBytes(r) /\ m = "OPTIONS" /\ Lacks(r, "content-type"), 1062),
    C(OkOne(r, "expect") /\ hasbody = "no", 1066),
    C(Has(r, "max-forwards") /\ m \notin {"OPTIONS", "TRACE"}, 1067),
    C(OkOne(r, "referer") /\ ReqPlain(r) /\ One(r, "referer").s = "https", 1068),
    C(Lacks(r, "user-agent"), 1070),
    C(LET ps == SelectSeq(One(r, "user-agent"), LAMBDA p: p.k = "p") IN
      OkOne(r, "user-agent") /\ ps # <<>> /\ \A k \in 1..Len(ps): ps[k].i \in Libraries, 1093),
    E(1116, {x.i : x \in {y \in Elems(r, "accept-encoding"): y.i \in {"x-gzip", "x-compress"} /\ y.hasq}}),
    C(\E t \in Elems(r, "if-match"): t.w, 1120),
    E(1131, IF m = "HEAD" THEN Names(r) \cap HdrPrecond ELSE {}),
    E(1130, IF m \in {"CONNECT", "OPTIONS", "TRACE"}
            THEN Names(r) \cap {"if-modified-since", "if-unmodified-since", "if-match", "if-none-match", "if-range"} ELSE {}),
    C(m \notin {"CONNECT", "OPTIONS", "TRACE", "GET", "HEAD"} /\ Has(r, "if-modified-since"), 1122),
    C(Has(r, "range") /\ m # "GET", 1132),
    C(Has(r, "if-range") /\ Lacks(r, "range"), 1134),
    C(OkOne(r, "if-range") /\ One(r, "if-range").tag /\ One(r, "if-range").w, 1135),
    E(1152, {d.d : d \in {x \in cc: x.d \in CcNotForReq}}),
    C(\E d \in cc: d.d = "no-cache" /\ CcVal(d).k # "true", 1159),
    C(CcOn(r, "no-cache") /\ ~NoCachePragma(r), 1161),
    E(1165, {c \in WarnCodes(r): c \in 100..199}),
    IF m \in MethNotCacheable
    THEN E(1171, {<<d.d, CcVal(d)>> : d \in {x \in cc: x.d \in {"max-age", "max-stale", "min-fresh", "no-cache", "no-store", "only-if-cached"}}})
    ELSE {},
    CcPairs(r, 1193, ReqContradict),
    OfCredentials(r, "authorization"), OfCredentials(r, "proxy-authorization"),
    C(m = "PATCH" /\ CtypeOk(r) /\ Ctype(r).i \in MtNotPatch, 1213),
    C(Lacks(r, "http2-settings") /\ \E p \in Elems(r, "upgrade"): p.i = "h2c", 1231),
    C(Has(r, "http2-settings") /\ "http2-settings" \notin Connection(r), 1230),
    C(OkOne(r, "http2-settings") /\ ~One(r, "http2-settings").safe, 1234),
    C(HasKey(QueryPairs(r), "access_token"), 1270),
    E(1271, (IF HasKey(QueryPairs(r), "access_token") /\ ReqPlain(r) THEN {"uri"} ELSE {})
            \cup (IF form /\ ReqPlain(r) THEN {"body"} ELSE {})),
    C(HasKey(QueryPairs(r), "access_token") /\ ~CcOn(r, "no-store"), 1272),
    E(1276, {h \in {"accept", "accept-charset", "accept-encoding", "accept-language"}: Subsumed(List(r, h))}),
    E(1285, {prefs[k].n : k \in {j \in 1..Len(prefs): \E i \in 1..(j - 1): prefs[i].n = prefs[j].n}}),
    C(FirstPref("respond-async") # "absent" /\ m \in MethSafe, 1287),
    C(FirstPref("return") = "minimal" /\ m = "GET", 1288),
    C(AnyPref("return", "minimal") /\ AnyPref("return", "representation"), 1289),
    C(AnyPref("handling", "strict") /\ AnyPref("handling", "lenient"), 1290),
    C(ToProxy(r), 1236)}

------------------------------------------------------------------------------
(* Challenges *)

Params(c) == {c.p[k].n : k \in 1..Len(c.p)}
ParamVal(c, n) == LET l == SelectSeq(c.p, LAMBDA x: x.n = n) IN l[1]
Dups(c) == {n \in Params(c): Cardinality({k \in 1..Len(c.p): c.p[k].n = n}) > 1}

OfBasicChallenge(c, n) ==
    IF c.k = "t68" THEN E(1273, {n})
    ELSE UNION {
        E(1206, IF "realm" \notin Params(c) THEN {n} ELSE {}),
        E(1208, {<<n, c.p[k].v>> : k \in {j \in 1..Len(c.p): c.p[j].n = "charset" /\ c.p[j].low # "utf-8"}}),
        E(1207, {<<n, p>> : p \in Params(c) \ {"charset", "realm"}})}

OfBearerChallenge(c, m, r) ==
    LET bearerReq == ~NoReq(r) /\ OkOne(r, "authorization") /\ One(r, "authorization").scheme = "bearer"
        hasToken == bearerReq \/ (~NoReq(r) /\ (HasKey(FormPairs(r), "access_token") \/ HasKey(QueryPairs(r), "access_token")))
        \* a token may be where we cannot see it
        hidden == ~NoReq(r) /\ (\/ ~HasEU(r) /\ r.tgt.qp # <<>>
                                \/ CtypeIs(r, "application/x-www-form-urlencoded") /\ ~FormReadable(r))
        Expected(e) == CASE e = "invalid_request" -> 400 [] e = "invalid_token" -> 401 [] e = "insufficient_scope" -> 403 [] OTHER -> 0
        err == ParamVal(c, "error").v IN
    UNION {
    C(~NoReq(r) /\ ReqPlain(r), 1263),
    IF c.k # "params" \/ c.p = <<>> THEN C(TRUE, 1264)
    ELSE UNION {
        E(1265, Dups(c) \cap {"realm", "scope", "error", "error_description", "error_uri"}),
        E(1266, {<<p, ParamVal(c, p).v>> : p \in {q \in {"scope", "error", "error_description", "error_uri"}: q \in Params(c) /\ ~ParamVal(c, q).gok}}),
        C(m.status = 401 /\ "error" \notin Params(c) /\ bearerReq, 1267),
        E(1268, IF "error" \in Params(c) /\ Expected(err) # 0 /\ Expected(err) # m.status THEN {err} ELSE {}),
        IF ~NoReq(r) /\ Lacks(r, "authorization") /\ ~hasToken /\ ~hidden
        THEN E(1269, Params(c) \cap {"error", "error_description", "error_uri"}) ELSE {}}}

OfChallenges(m, r, n) ==
    UNION {(IF c.scheme = "basic" THEN OfBasicChallenge(c, n) ELSE {})
           \cup (IF c.scheme = "bearer" /\ n = "www-authenticate" THEN OfBearerChallenge(c, m, r) ELSE {})
           : c \in Elems(m, n)}

------------------------------------------------------------------------------
(* The response on its own.  (`r' is only consulted for the connection: TLS, and
   what the request says about how the response ends.) *)

StsDirs(m) == One(m, "strict-transport-security")
StsHas(m, d) == \E k \in 1..Len(StsDirs(m)): StsDirs(m)[k].d = d
StsFirst(m, d) == LET l == SelectSeq(StsDirs(m), LAMBDA x: x.d = d) IN l[1]

OfResponseItself(m, r) ==
    LET st == m.status
        early == st = 103
        cc == Elems(m, "cache-control")
        tls == ~NoReq(r) /\ ReqTls(r)
        fc == FromCache(m) IN
    UNION {
    OfMessage(m, tls, early),
    C(~m.rok, 1294),
    C(st \notin 100..599, 1167),
    C(ByClose(m, r), 1025),
    C(ByClose(m, r) /\ m.ver = "HTTP/1.1" /\ "close" \notin Connection(m), 1047),
    E(1064, Names(m) \cap HdrNotForResp),
    C(st = 101 /\ Lacks(m, "upgrade"), 1048),
    C(st = 101 /\ m.ver = "HTTP/2", 1246),
    C(st = 204 /\ HasBytes(m), 1240),
    C(st = 205 /\ HasBytes(m), 1076),
    C(Lacks(m, "location") /\ st = 301, 1078),
    C(Lacks(m, "location") /\ st = 302, 1079),
    C(Lacks(m, "location") /\ st = 303, 1080),
    C(Lacks(m, "location") /\ st = 307, 1084),
    C(Lacks(m, "location") /\ st = 308, 1205),
    C(st = 305, 1082), C(st = 306, 1083), C(st = 402, 1088),
    C(st = 405 /\ Lacks(m, "allow"), 1089),
    C(st = 408 /\ "close" \notin Connection(m), 1094),
    C(Lacks(m, "date") /\ (Successful(m) \/ Redirection(m) \/ ClientError(m)), 1110),
    C(st = 201 /\ OkOne(m, "location") /\ One(m, "location").f \notin {"-", ""}, 1111),
    C(OkDate(m, "date") /\ OkDate(m, "last-modified") /\ DateOf(m, "date") < DateOf(m, "last-modified"), 1118),
    E(1127, IF st = 304 THEN (Names(m) \cap HdrRepMeta) \ {"etag", "last-modified"} ELSE {}),
    IF st = 206 /\ CtypeIs(m, "multipart/byteranges") THEN
        (IF m.body.st = "some" /\ m.body.kind = "parts" /\ ContentKnown(m) /\ (NoReq(r) \/ r.method # "HEAD")
         THEN E(1141, {k \in 1..Len(m.body.parts): ~m.body.parts[k].cr})
              \cup E(1142, {k \in 1..Len(m.body.parts): ~m.body.parts[k].ct})
         ELSE {})
        \cup C(Has(m, "content-range"), 1143)
    ELSE C(st = 206 /\ Lacks(m, "content-range"), 1138),
    E(1153, {d.d : d \in {x \in cc: x.d \in CcNotForResp}}),
    C(NoCachePragma(m), 1162),
    C(st = 451 /\ ~\E l \in Elems(m, "link"): l.relok /\ "blocked-by" \in {l.rel[k] : k \in 1..Len(l.rel)}, 1243),
    C(Has(m, "alt-svc") /\ m.ver = "HTTP/2", 1258),
    C(Has(m, "alt-svc") /\ st = 421, 1260),
    IF OkOne(m, "strict-transport-security") THEN UNION {
        C(~StsHas(m, "max-age"), 1218),
        C(/\ StsHas(m, "max-age") /\ StsFirst(m, "max-age").num = 0
          /\ StsHas(m, "includesubdomains"), 1219),
        E(1220, {d \in {StsDirs(m)[k].d : k \in 1..Len(StsDirs(m))} : Cardinality({k \in 1..Len(StsDirs(m)): StsDirs(m)[k].d = d}) > 1})}
    ELSE {},
    E(1227, {t.i : t \in {x \in Elems(m, "accept-patch"): x.i \in MtNotPatch}}),
    CcPairs(m, 1193, RespContradict),
    E(1238, {k \in 1..5: CcOn(m, NoEffect[k][1]) /\ CcBare(m, NoEffect[k][2])}),
    C("host" \in Elems(m, "vary"), 1235),
    C(st = 401 /\ Lacks(m, "www-authenticate"), 1194),
    C(st = 407 /\ Lacks(m, "proxy-authenticate"), 1195),
    OfChallenges(m, r, "www-authenticate"), OfChallenges(m, r, "proxy-authenticate"),
    IF early THEN {} ELSE UNION {
        C((Informational(m) \/ st = 204) /\ Has(m, "transfer-encoding"), 1018),
        C((Informational(m) \/ st = 204) /\ Has(m, "content-length"), 1023),
        C(Informational(m) /\ "close" \in Connection(m), 1198),
        E(1052, IF Informational(m) THEN Names(m) \cap HdrRepMeta ELSE {}),
        C(Has(m, "location") /\ ~Redirection(m) /\ st # 201, 1112),
        C(Has(m, "retry-after") /\ ~Redirection(m) /\ st \notin {413, 503, 429}, 1113),
        C(Has(m, "content-range") /\ st \notin {206, 416}, 1147),
        C(AgeImpossible(m), 1241),
        C(fc /\ Has(m, "age"), 1168),
        E(1169, IF fc /\ Lacks(m, "age") THEN {FirstWarn(m, 100, 200)[1].c} ELSE {}),
        C(fc /\ Lacks(m, "age"), 1166),
        C(fc /\ CcBare(m, "no-cache"), 1175),
        C(fc /\ CcOn(m, "no-store"), 1176),
        C(fc /\ st \in StNotAtAll, 1202),
        C(fc /\ st \in StNotByDefault /\ Lacks(m, "expires") /\ Lacks(m, "cache-control"), 1177),
        C(fc /\ 113 \in WarnCodes(m), 1179),
        C(Heuristic(m) /\ 113 \notin WarnCodes(m), 1178),
        C(Heuristic(m) /\ OkOne(m, "age") /\ One(m, "age") > 86400 /\ 113 \notin WarnCodes(m), 1180),
        C(Heuristic(m) /\ Has(m, "expires"), 1181),
        C(Heuristic(m) /\ Lacks(m, "expires") /\ CcHas(m, "max-age"), 1182),
        E(1183, IF StaleByWarn(m) THEN {IF 110 \in WarnCodes(m) THEN 110 ELSE 111} ELSE {}),
        C(StaleByMaxAge(m), 1184),
        C(StaleByExpires(m), 1185),
        C(Stale(m) /\ 110 \notin WarnCodes(m), 1186),
        C(Stale(m) /\ CcOn(m, "must-revalidate"), 1187),
        C(/\ CcOn(m, "immutable")
          /\ Lacks(m, "expires") \/ (OkDate(m, "expires") /\ OkDate(m, "date") /\ DateOf(m, "expires") <= DateOf(m, "date"))
          /\ ~CcOn(m, "max-age"), 1301),
        C(CcOn(m, "immutable") /\ ~NoReq(r) /\ ReqPlain(r), 1302),
        C(CcOn(m, "immutable") /\ ByClose(m, r), 1303),
        C(Has(m, "allow") /\ Has(m, "accept-patch") /\ "PATCH" \notin Elems(m, "allow"), 1217),
        C(Has(m, "allow") /\ Has(m, "accept-post") /\ "POST" \notin Elems(m, "allow"), 1310),
        C(st = 203, 1190),
        C(TransformedResp(m) /\ Lacks(m, "via"), 1046)}}

------------------------------------------------------------------------------
(* The response in the context of its request *)

EmptyBodyNotice(m) ==
    LET s == m.status IN
    CASE s = 202 -> 1284 [] s = 300 -> 1077 [] s = 303 -> 1081 [] s = 406 -> 1092 [] s = 409 -> 1096
      [] s = 428 -> 1201 [] s = 429 -> 1203 [] s = 451 -> 1242 [] ClientError(m) -> 1087
      [] s = 505 -> 1106 [] s = 511 -> 1204 [] ServerError(m) -> 1104 [] OTHER -> 0

OfPair(m, r) ==
    LET st == m.status   me == r.method
        early == st = 103
        precond == Names(r) \cap HdrPrecond
        conneg == Names(r) \cap HdrConneg
        upg == Elems(m, "upgrade")   rupg == Elems(r, "upgrade")
        rprefs == {<<p.n, p.v>> : p \in Elems(r, "prefer")} IN
    UNION {
    C(HasBytes(m) /\ Lacks(m, "content-type") /\ (st # 206 \/ Lacks(r, "if-range")), 1041),
    C(me = "CONNECT" /\ Successful(m) /\ Has(m, "transfer-encoding"), 1019),
    C(me = "CONNECT" /\ Successful(m) /\ Has(m, "content-length"), 1024),
    C(me = "CONNECT" /\ Successful(m) /\ "close" \in Connection(m), 1199),
    C(me = "HEAD" /\ HasBytes(m), 1239),
    C(r.ver = "HTTP/1.0" /\ Has(m, "transfer-encoding"), 1306),
    C(/\ r.ver = "HTTP/1.1"
      /\ ~OkOne(r, "host") \/ Cardinality({k \in 1..Len(r.hdrs): r.hdrs[k].n = "host"}) > 1
      /\ Successful(m) \/ Redirection(m), 1033),
    C(TransformedResp(m) /\ NotToProxy(r), 1237),
    C(ToProxy(r) /\ Successful(m) /\ Lacks(m, "via"), 1046),
    C(st = 101 /\ \E p \in upg: p \notin rupg, 1049),
    C(st = 101 /\ ~OkOne(r, "http2-settings") /\ \E p \in upg: p \in rupg /\ p.i = "h2c", 1232),
    C(st = 101 /\ r.ver = "HTTP/1.0", 1051),
    C(st # 101 /\ Informational(m) /\ r.ver = "HTTP/1.0", 1071),
    C(SameUri(r, m, "content-location") /\ me \in {"GET", "HEAD"} /\ st \in {200, 203, 204, 206, 304}, 1055),
    C(SameUri(r, m, "content-location") /\ me = "DELETE", 1060),
    C(/\ SameUri(r, m, "location") /\ r.scheme # "-"
      /\ st \in {300, 307, 308} \/ (st \in {301, 302, 303} /\ me # "POST"), 1085),
    C(me = "PUT" /\ Has(r, "content-range") /\ Successful(m), 1058),
    C(me \in MethSafe /\ st = 201, 1072),
    C(me \in MethSafe /\ st = 202, 1074),
    C(me \in MethSafe /\ st = 409, 1095),
    C(st = 201 /\ me = "POST" /\ Lacks(m, "location"), 1073),
    IF me # "HEAD" /\ m.body.st = "empty" /\ EmptyBodyNotice(m) # 0 THEN C(TRUE, EmptyBodyNotice(m)) ELSE {},
    C(me = "OPTIONS" /\ TargetForm(r) = "asterisk" /\ st \in {300, 301, 302, 307, 308}, 1086),
    C(st = 406 /\ conneg = {}, 1090),
    C(st = 406 /\ conneg = {"accept-language"}, 1117),
    C(st = 411 /\ OkOne(r, "content-length"), 1097),
    C(r.body.st = "empty" /\ st = 413, 1098),
    C(r.body.st = "empty" /\ st = 415 /\ Lacks(r, "content-type"), 1099),
    C(st = 417 /\ Lacks(r, "expect"), 1100),
    IF st = 426 \/ Successful(m) THEN
        \* only the first upgraded-to protocol that the client also offered counts
        LET l == SelectSeq(List(m, "upgrade"), LAMBDA p: p \in rupg) IN
        C(l # <<>>, IF st = 426 THEN 1102 ELSE 1103)
    ELSE {},
    C(st = 426 /\ ~Filled(m, "upgrade"), 1101),
    C(st = 505 /\ m.ver # "-" /\ m.ver = r.ver, 1105),
    C(st = 405 /\ me \in Elems(m, "allow"), 1114),
    C(Successful(m) /\ Has(m, "allow") /\ me \notin Elems(m, "allow"), 1115),
    C(/\ me \in {"GET", "HEAD"} /\ Successful(m) /\ OkOne(m, "etag")
      /\ Star(r, "if-none-match") \/ \E t \in Elems(r, "if-none-match"): t.t = One(m, "etag").t, 1121),
    C(/\ me \in {"GET", "HEAD"} /\ Successful(m) /\ ~OkOne(m, "etag")
      /\ OkDate(r, "if-modified-since") /\ OkDate(m, "last-modified")
      /\ DateOf(r, "if-modified-since") >= DateOf(m, "last-modified"), 1123),
    C(st = 304 /\ me \notin {"GET", "HEAD"}, 1124),
    C(st \in {304, 412} /\ ~(st = 304 /\ me \notin {"GET", "HEAD"}) /\ precond = {}, 1125),
    C(st = 412 /\ precond = {"if-modified-since"} /\ me \notin {"GET", "HEAD"}, 1128),
    C(/\ st = 412 /\ precond # {} /\ precond # {"if-modified-since"} /\ me \in {"CONNECT", "OPTIONS", "TRACE"}
      /\ precond \subseteq {"if-match", "if-none-match", "if-modified-since", "if-unmodified-since", "if-range"}, 1129),
    C(st = 206 /\ Lacks(r, "range"), 1136),
    C(st = 206 /\ Has(r, "range") /\ me # "GET", 1137),
    C(/\ st = 206 /\ CtypeIs(m, "multipart/byteranges") /\ OkOne(r, "range")
      /\ One(r, "range").unit = "bytes" /\ One(r, "range").n = 1, 1144),
    C(/\ st = 206 /\ OkOne(r, "if-range") /\ One(r, "if-range").tag /\ OkOne(m, "etag")
      /\ One(m, "etag").w \/ One(r, "if-range").w \/ One(m, "etag").t # One(r, "if-range").t, 1145),
    E(1146, IF st = 206 /\ Has(r, "if-range") THEN (Names(m) \cap HdrRepMeta) \ {"etag", "content-location"} ELSE {}),
    C(st = 416 /\ Lacks(r, "range"), 1149),
    C(st = 416 /\ OkOne(r, "range") /\ One(r, "range").unit = "bytes" /\ Lacks(m, "content-range"), 1150),
    C(FromCache(m) /\ me \in MethNotCacheable, 1172),
    C(FromCache(m) /\ OkOne(m, "age") /\ CcNum(r, "max-age") /\ One(m, "age") > Cc(r, "max-age").num, 1170),
    C(FromCache(m) /\ CcOn(r, "no-cache"), 1173),
    C(FromCache(m) /\ ~CcOn(r, "no-cache") /\ Lacks(r, "cache-control") /\ NoCachePragma(r), 1174),
    C(/\ Stale(m) /\ WarnCodes(m) \cap {111, 112} = {}
      /\ ~CcHas(r, "max-stale") /\ ~CcHas(r, "stale-if-error")
      /\ ~CcHas(m, "stale-if-error") /\ ~CcHas(m, "stale-while-revalidate"), 1188),
    C(st = 428 /\ precond # {}, 1200),
    C(me = "PATCH" /\ Successful(m) /\ CtypeOk(r) /\ Ctype(r).i \in MtNotPatch, 1214),
    C(me = "PATCH" /\ st = 415 /\ Lacks(m, "accept-patch"), 1215),
    C(Has(m, "strict-transport-security") /\ ReqPlain(r), 1221),
    C(st = 421 /\ me \in MethCacheable /\ ~CcOn(m, "no-store"), 1283),
    E(1286, {<<p.n, p.v>> : p \in {x \in Elems(m, "preference-applied"): <<x.n, x.v>> \notin rprefs}}),
    IF early THEN {} ELSE UNION {
        C(me = "OPTIONS" /\ "PATCH" \in Elems(m, "allow") /\ Lacks(m, "accept-patch"), 1216),
        C(Has(m, "preference-applied") /\ me = "GET" /\ ~Star(m, "vary") /\ "prefer" \notin Elems(m, "vary"), 1291)}}

------------------------------------------------------------------------------
(* The whole exchange: property C25 includes the sequence of responses. *)

Tag(w, s) == {<<x[1], w, x[2]>> : x \in s}

FinalBefore(rs, k) == \E j \in 1..(k - 1): ~Informational(rs[j])

OfSequence(ex, k) ==
    C(FinalBefore(ex.resps, k), 1304)
    \cup C(/\ ex.resps[k].status = 101
           /\ ~NoReq(ex.req) /\ OkOne(ex.req, "expect")
           /\ \A j \in 1..k: ex.resps[j].status # 100, 1305)

Expected(ex) ==
    (IF NoReq(ex.req) THEN {} ELSE Tag("req", OfRequest(ex.req)))
    \cup UNION {Tag(ToString(k),
                    OfResponseItself(ex.resps[k], ex.req)
                    \cup (IF NoReq(ex.req) THEN {} ELSE OfPair(ex.resps[k], ex.req))
                    \cup OfSequence(ex, k)) : k \in 1..Len(ex.resps)}

=============================================================================
