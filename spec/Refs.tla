-------------------------------- MODULE Refs --------------------------------
(***************************************************************************)
(* What a notice in the HTML report must point at (mouseover highlights):  *)
(* the displayed parts of the exchange that it is about.  (Property C38.)  *)
(* A part is "w.method", "w.target", "w.version", "w.status", "w.body" or  *)
(* "w.hK" (the K-th header field of message w, trailers last), where w is  *)
(* "req" or the number of a response.                                      *)
(*  got: [id, low |-> variable parts of the title in lower case, hl |-> the *)
(*        parts it points at], in the order of the report                  *)
(***************************************************************************)
EXTENDS Naming, KnownRefs, KnownCites

Mentions == TLCEval([id \in {RefTable[k][1] : k \in 1..Len(RefTable)} |-> RefTable[CHOOSE k \in 1..Len(RefTable): RefTable[k][1] = id][2]])
MentionsOf(id) == IF id \in DOMAIN Mentions THEN Mentions[id] ELSE <<>>

\* Headers of which only the last field counts (RFC 7230, 3.2.2: they cannot be combined)
OneOnly == TLCEval(HdrSingle \cup {"strict-transport-security"})
Ignored(e) == e.t /\ e.n \in HdrBadTrailer
Fields(m, n) == {k \in 1..Len(m.hdrs): m.hdrs[k].n = n}
Counted(m, n) == {k \in Fields(m, n): ~Ignored(m.hdrs[k])}
Greatest(s) == CHOOSE x \in s: \A y \in s: x >= y
View(m, n) == LET s == Counted(m, n) IN IF n \in OneOnly /\ s # {} THEN {Greatest(s)} ELSE s
Part(w, name) == w \o "." \o name
HeaderParts(w, s) == {Part(w, "h" \o ToString(k)) : k \in s}

\* "msg.headers.x_y" and so on, for every header the notices mention so
Mentioned == {"content-type", "upgrade", "range", "if-modified-since", "if-range", "cache-control", "www-authenticate", "prefer", "host", "transfer-encoding",
              "content-range", "content-length", "accept-language", "if-none-match", "pragma", "age", "strict-transport-security", "http2-settings", "authorization", "expect"}
RECURSIVE Under(_)
Under(str) == IF str = "" THEN "" ELSE LET c == SubSeq(str, 1, 1) IN (IF c = "-" THEN "_" ELSE c) \o Under(SubSeq(str, 2, Len(str)))
PathName == TLCEval([p \in {Under(n) : n \in Mentioned} |-> CHOOSE n \in Mentioned: Under(n) = p])
OwnHeader == TLCEval([p \in {"msg.headers." \o q : q \in DOMAIN PathName} |-> PathName[CHOOSE q \in DOMAIN PathName: "msg.headers." \o q = p]])
ReqHeader == TLCEval([p \in {"msg.request.headers." \o q : q \in DOMAIN PathName} |-> PathName[CHOOSE q \in DOMAIN PathName: "msg.request.headers." \o q = p]])

\* The parts that one mention in a notice on message w (m, whose request is r) points at, as far as the mention alone determines
Static(ex, w, m, r, el) ==
    LET p == el[2]
        isresp == m.kind = "resp"
        hasreq == ~NoReq(r) IN
    CASE el[1] = "h" -> HeaderParts(w, View(m, p))
      [] el[1] = "m" -> IF hasreq /\ r.method = p THEN {"req.method"} ELSE {}
      [] el[1] = "st" -> IF isresp /\ ToString(m.status) = p THEN {Part(w, "status")} ELSE {}
      [] p = "msg.status" /\ isresp -> {Part(w, "status")}
      [] p \in {"msg.method", "msg.target", "msg.version"} -> {Part(w, SubSeq(p, 5, Len(p)))}
      [] p = "msg.displayable_body" -> {Part(w, "body")}
      [] p \in {"msg.request.method", "msg.request.target", "msg.request.version"} -> {Part("req", SubSeq(p, 13, Len(p)))}
      [] p \in DOMAIN OwnHeader -> HeaderParts(w, View(m, OwnHeader[p]))
      [] p \in DOMAIN ReqHeader -> HeaderParts("req", View(r, ReqHeader[p]))
      [] p = "previous.status" -> {Part(ToString(First(FinalsBefore(ex.resps, CHOOSE k \in 1..Len(ex.resps): ToString(k) = w))), "status")}
      [] OTHER -> {}

XUnknown(m) == {k \in 1..Len(m.hdrs): m.hdrs[k].x /\ m.hdrs[k].n \notin HdrKnown}

\* A set of parts s that a notice points at is right, given the parts that are shown
RightParts(ex, w, m, r, g, shown) ==
    LET els == MentionsOf(g.id)
        must == UNION {Static(ex, w, m, r, els[k]) : k \in 1..Len(els)} \cap shown
        dyn == {k \in 1..Len(els): els[k][1] = "p" /\ els[k][2] \in {"header", "entry", "place", "entries", "headers", "where"}}
        s == g.hl
        rest == s \ must
        NameAt(k) == IF els[k][3] = 0 THEN "" ELSE g.low[els[k][3]]
        \* whole headers
        ViewOf(k) == LET n == NameAt(k) IN
            IF g.id = 1200 THEN HeaderParts("req", View(r, n)) ELSE HeaderParts(w, View(m, n))
        \* single fields
        OneOf(k) == LET n == NameAt(k) IN
            CASE g.id = 1000 -> {j \in Fields(m, n): ~m.hdrs[j].ok \/ ToString(m.hdrs[j].v) \in {"<<>>", "\"\""}}
              [] g.id = 1026 -> {j \in Fields(m, n): Ignored(m.hdrs[j])}
              [] g.id = 1030 -> {j \in Fields(m, n): m.hdrs[j].t}
              [] OTHER -> Counted(m, n)
        single == \E k \in dyn: els[k][2] \in {"entry", "place"} \/ g.id = 1030
        Right(k) ==
            CASE els[k][2] = "where" -> Cardinality(rest) = 1 /\ rest \subseteq {Part(w, "target"), Part(w, "body")}
              [] els[k][2] = "headers" -> rest = UNION {HeaderParts(w, View(m, m.hdrs[j].n)) : j \in XUnknown(m)} \ must
              [] els[k][2] = "entries" -> HeaderParts(w, Counted(m, NameAt(1))) \subseteq s /\ rest \subseteq HeaderParts(w, Counted(m, NameAt(1)))
              [] els[k][2] = "header" /\ g.id # 1030 ->
                    IF els[k][3] = 0
                    THEN rest = {} \/ \E j \in 1..Len(m.hdrs): rest = HeaderParts(w, View(m, m.hdrs[j].n)) \ must
                    ELSE ViewOf(k) \subseteq s /\ (g.id = 1013 \/ rest \subseteq ViewOf(k))
              [] els[k][3] = 0 \/ NameAt(k) \in Elsewhere -> Cardinality(rest) <= 1
              [] OTHER -> LET c == HeaderParts(w, OneOf(k)) IN Cardinality(rest) <= 1 /\ rest \subseteq c /\ s \cap c # {}
    IN
    IF ~ (must \subseteq s) THEN "misses " \o ToString(must \ s)
    ELSE IF dyn = {} THEN (IF rest = {} THEN "" ELSE "also points at " \o ToString(rest))
    ELSE IF \A k \in dyn: Right(k) THEN "" ELSE "points at " \o ToString(s)

-----------------------------------------------------------------------------
(* Links to definitions *)
Cites == TLCEval({CiteTable[k] : k \in 1..Len(CiteTable)})
CiteOf == TLCEval([x \in {<<c[1], c[2]>> : c \in Cites} |-> CHOOSE c \in Cites: c[1] = x[1] /\ c[2] = x[2]])
CitedAs == TLCEval({<<c[2], c[3], c[4]>> : c \in Cites})
\* The method, status code or header name x = <<kind, text, links>> is linked to its definition, if it has one
BadNamed(x) == LET key == <<x[1], x[2]>> IN
    IF key \in DOMAIN CiteOf THEN x[3] # <<(<<x[2], CiteOf[key][3], CiteOf[key][4]>>)>> ELSE x[3] # <<>>
\* Any other link leads to the definition of something of that name; l = <<text, URL, title, text in lower case>>
BadLink(l) == <<l[1], l[2], l[3]>> \notin CitedAs /\ <<l[4], l[2], l[3]>> \notin CitedAs

\* The protocol items named in the value of a well-formed header field e, in order: sequence of names, and their kind
NamesIn(e) ==
    CASE e.n = "vary" -> <<"h", IF e.star THEN <<>> ELSE e.v>>
      [] e.n = "trailer" -> <<"h", e.v>>
      [] e.n = "allow" -> <<"m", e.v>>
      [] e.n \in {"transfer-encoding", "te"} -> <<"tc", [k \in 1..Len(e.v) |-> e.v[k].i]>>
      [] e.n \in {"content-encoding", "accept-encoding"} -> <<"cc", [k \in 1..Len(e.v) |-> e.v[k].i]>>
      [] e.n \in {"accept", "accept-patch", "accept-post"} -> <<"media", [k \in 1..Len(e.v) |-> e.v[k].i]>>
      [] e.n = "content-type" -> <<"media", <<e.v.i>>>>
      [] e.n = "cache-control" -> <<"cache", [k \in 1..Len(e.v) |-> e.v[k].d]>>
      [] e.n = "strict-transport-security" -> <<"hsts", [k \in 1..Len(e.v) |-> e.v[k].d]>>
      [] e.n = "upgrade" -> <<"upgrade", [k \in 1..Len(e.v) |-> e.v[k].i]>>
      [] e.n \in {"prefer", "preference-applied"} -> <<"prefer", [k \in 1..Len(e.v) |-> e.v[k].n]>>
      [] e.n \in {"authorization", "proxy-authorization"} -> <<"auth", <<e.v.scheme>>>>
      [] e.n \in {"www-authenticate", "proxy-authenticate"} -> <<"auth", [k \in 1..Len(e.v) |-> e.v[k].scheme]>>
      [] e.n = "warning" -> <<"warn", [k \in 1..Len(e.v) |-> ToString(e.v[k].c)]>>
      [] e.n = "range" -> <<"unit", <<e.v.unit>>>>
      [] OTHER -> <<"none", <<>>>>
ValueKnown == {"vary", "trailer", "allow", "transfer-encoding", "te", "content-encoding", "accept-encoding", "accept", "accept-patch", "accept-post", "content-type",
               "cache-control", "strict-transport-security", "upgrade", "prefer", "preference-applied", "authorization", "proxy-authorization",
               "www-authenticate", "proxy-authenticate", "warning", "range", "connection", "age", "content-length", "max-forwards", "etag", "host", "date",
               "if-match", "if-none-match", "if-modified-since", "expires", "last-modified", "location", "content-location", "accept-language", "accept-charset"}
\* upgrade tokens and methods are case-sensitive
Known(kind, x) == CASE kind = "upgrade" -> x \in {"h2c", "websocket", "WebSocket", "TLS", "HTTP"}
                    [] OTHER -> <<kind, x>> \in DOMAIN CiteOf
\* x = <<message, number, links>>: the links in the value of a header field, each <<text, text in lower case>>
BadValue(ex, x) ==
    LET m == IF x[1] = "req" THEN ex.req ELSE ex.resps[CHOOSE k \in 1..Len(ex.resps): ToString(k) = x[1]]
        e == m.hdrs[x[2]]
        in == NamesIn(e)
        Exact == in[1] \in {"m", "upgrade"}
        want == SelectSeq(in[2], LAMBDA n: Known(in[1], n)) IN
    /\ e.n \in ValueKnown
    /\ IF e.ok /\ ~Ignored(e) THEN [k \in 1..Len(x[3]) |-> x[3][k][IF Exact THEN 1 ELSE 2]] # want ELSE x[3] # <<>>

BadRefs(ex, w, m, r, got, shown) ==
    UNION {LET v == RightParts(ex, w, m, r, got[k], shown) IN IF v = "" THEN {} ELSE {ToString(got[k].id) \o "@" \o w \o " " \o v} : k \in 1..Len(got)}
==============================================================================
