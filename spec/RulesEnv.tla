------------------------------ MODULE RulesEnv ------------------------------
(***************************************************************************)
(* The environment of the rules: everything that may be put into an        *)
(* exchange, within a small scope.  A behaviour picks the start lines and  *)
(* bodies, then adds header fields one by one; every state is one          *)
(* exchange.  TLC enumerates all of them, checks the invariants of the     *)
(* rules on each, and prints them for replay on the real code.             *)
(*                                                                         *)
(* A scope is a record of the choices:                                     *)
(*   me, ver, sch, tg, rb : request methods, versions, schemes, targets,   *)
(*                          bodies (me = <<"none">>: no request)           *)
(*   st, sver, sb         : statuses, response versions (same = that of    *)
(*                          the request), bodies; st = <<>>: no response   *)
(*   q, p                 : header options of request and response         *)
(*   nq, np               : how many of them at most                       *)
(*   base                 : headers every request / response has           *)
(***************************************************************************)
EXTENDS Rules, Json
CONSTANTS ScopeName, Part, Parts, Emitting

H(n, v) == [n |-> n, t |-> FALSE, nok |-> TRUE, x |-> FALSE, raw |-> "", ok |-> TRUE, star |-> FALSE, v |-> v]
G(n) == H(n, "")                                        \* only presence matters
XFoo == [G("x-foo") EXCEPT !.x = TRUE]
Bad(n) == [H(n, "") EXCEPT !.ok = FALSE]
StarH(n) == [H(n, "") EXCEPT !.star = TRUE]
InTrailer(h) == [h EXCEPT !.t = TRUE]

NoUri == [s |-> "-", a |-> "-", p |-> [abs |-> FALSE, segs |-> <<>>], q |-> "-", f |-> "-"]
Path(segs) == [abs |-> TRUE, segs |-> segs]
Rel(segs) == [abs |-> FALSE, segs |-> segs]
Tgt(name) ==
    LET T(text, o, ab, au, st, u, qp) == [text |-> text, o |-> o, ab |-> ab, au |-> au, st |-> st, u |-> u, qp |-> qp]
        P == [NoUri EXCEPT !.p = Path(<<"a">>)] IN
    CASE name = "origin" -> T("/a", TRUE, FALSE, FALSE, FALSE, P, <<>>)
      [] name = "root" -> T("/", TRUE, FALSE, FALSE, FALSE, [NoUri EXCEPT !.p = Path(<<"">>)], <<>>)
      [] name = "deep" -> T("/x/a", TRUE, FALSE, FALSE, FALSE, [NoUri EXCEPT !.p = Path(<<"x", "a">>)], <<>>)
      [] name = "query" -> T("/a?q=1", TRUE, FALSE, FALSE, FALSE, [P EXCEPT !.q = "q=1"], <<[k |-> "q", v |-> "1"]>>)
      [] name = "token" -> T("/a?access_token=1", TRUE, FALSE, FALSE, FALSE, [P EXCEPT !.q = "access_token=1"],
                             <<[k |-> "access_token", v |-> "1"]>>)
      [] name = "absolute" -> T("http://example.com/a", FALSE, TRUE, FALSE, FALSE, [P EXCEPT !.s = "http", !.a = "example.com"], <<>>)
      [] name = "abstoken" -> T("http://example.com/a?access_token=1", FALSE, TRUE, FALSE, FALSE,
                                [P EXCEPT !.s = "http", !.a = "example.com", !.q = "access_token=1"], <<[k |-> "access_token", v |-> "1"]>>)
      [] name = "abshttps" -> T("https://example.com/a", FALSE, TRUE, FALSE, FALSE, [P EXCEPT !.s = "https", !.a = "example.com"], <<>>)
      [] name = "asterisk" -> T("*", FALSE, FALSE, TRUE, TRUE, [NoUri EXCEPT !.a = "*"], <<>>)
      [] name = "authority" -> T("example.com", FALSE, FALSE, TRUE, FALSE, [NoUri EXCEPT !.a = "example.com"], <<>>)
      [] name = "bad" -> T("a b", FALSE, FALSE, FALSE, FALSE, NoUri, <<>>)
Body(name) ==
    LET B(st, kind, pairs, parts) == [st |-> st, kind |-> kind, pairs |-> pairs, parts |-> parts] IN
    CASE name \in {"unknown", "unavail", "empty"} -> B(name, "text", <<>>, <<>>)
      [] name = "text" -> B("some", "text", <<>>, <<>>)
      [] name = "form" -> B("some", "form", <<[k |-> "access_token", v |-> "1"]>>, <<>>)
      [] name = "form0" -> B("some", "form", <<[k |-> "a", v |-> "1"]>>, <<>>)
      [] name = "parts11" -> B("some", "parts", <<>>, <<[cr |-> TRUE, ct |-> TRUE]>>)
      [] name = "parts10" -> B("some", "parts", <<>>, <<[cr |-> TRUE, ct |-> FALSE], [cr |-> TRUE, ct |-> FALSE]>>)
      [] name = "parts01" -> B("some", "parts", <<>>, <<[cr |-> TRUE, ct |-> TRUE], [cr |-> FALSE, ct |-> TRUE]>>)

\* Values
Ct(i) == H("content-type", [i |-> i, p |-> IF i = "multipart/byteranges" THEN <<"boundary">> ELSE <<>>])
Items1(n, i) == H(n, <<[i |-> i]>>)
Cd(d) == [d |-> d, k |-> "none", num |-> 0, raw |-> "", empty |-> FALSE]
CdN(d, n) == [d |-> d, k |-> "num", num |-> n, raw |-> ToString(n), empty |-> FALSE]
CdF(d) == [d |-> d, k |-> "names", num |-> 0, raw |-> "foo", empty |-> FALSE]
CcH(d) == H("cache-control", <<Cd(d)>>)
CcHN(d, n) == H("cache-control", <<CdN(d, n)>>)
CcHF(d) == H("cache-control", <<CdF(d)>>)
Acc(i, q, hasq, wild, type) == [i |-> i, q |-> q, hasq |-> hasq, wild |-> wild, type |-> type]
Up(i) == [i |-> i, v |-> ""]
Tag1(n, w, t) == H(n, <<[w |-> w, t |-> t]>>)
Etag(w, t) == H("etag", [w |-> w, t |-> t])
IfRange(w, t) == H("if-range", [w |-> w, t |-> t, tag |-> TRUE])
IfRangeDate == H("if-range", [w |-> FALSE, t |-> "", tag |-> FALSE])
Warn(c) == H("warning", <<[c |-> c, dok |-> FALSE, date |-> 0]>>)
WarnD(c, d) == H("warning", <<[c |-> c, dok |-> TRUE, date |-> d]>>)
Pref(n, v) == H("prefer", <<[n |-> n, v |-> v]>>)
PrefA(n, v) == H("preference-applied", <<[n |-> n, v |-> v]>>)
Cred(n, scheme, k, b64, colon, ctl, p) == H(n, [scheme |-> scheme, k |-> k, b64 |-> b64, colon |-> colon, ctl |-> ctl, p |-> p])
Ap(n, v, gok, qd) == [n |-> n, v |-> v, low |-> v, gok |-> gok, qd |-> qd]
Chal(n, scheme, k, p) == H(n, <<[scheme |-> scheme, k |-> k, p |-> p]>>)
Sts(l) == H("strict-transport-security", l)
StsMax(n) == [d |-> "max-age", num |-> n]
StsSub == [d |-> "includesubdomains", num |-> -1]
Loc(n, s, a, p, q, f) == H(n, [s |-> s, a |-> a, p |-> p, q |-> q, f |-> f])
Ua(l) == H("user-agent", l)

Host == H("host", "example.com")
AgentH == Ua(<<[k |-> "p", i |-> "foo"]>>)
DateH == H("date", -100)
FramingHeaders == <<H("content-length", 5), H("transfer-encoding", <<[i |-> "chunked"]>>), H("transfer-encoding", <<[i |-> "gzip"]>>),
                    Bad("content-length"), Bad("transfer-encoding"), H("connection", <<"close">>)>>

Scope0 == [me |-> <<"GET">>, ver |-> <<"HTTP/1.1">>, sch |-> <<"http">>, tg |-> <<"origin">>, rb |-> <<"empty">>,
           st |-> <<>>, sver |-> <<"same">>, sb |-> <<"text">>, q |-> <<>>, p |-> <<>>, nq |-> 0, np |-> 0,
           bq |-> <<Host, AgentH>>, bp |-> <<DateH>>]
Vers == <<"HTTP/1.1", "HTTP/1.0", "HTTP/2", "-">>
Methods == <<"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "CONNECT", "TRACE", "PROPFIND", "FOO", "get">>
Statuses == <<100, 101, 102, 103, 199, 200, 201, 202, 203, 204, 205, 206, 226, 300, 301, 302, 303, 304, 305, 306, 307, 308,
              400, 401, 402, 405, 406, 407, 408, 409, 411, 412, 413, 415, 416, 417, 421, 426, 428, 429, 451, 499,
              500, 503, 505, 511, 599, 600, 99>>
Bodies == <<"empty", "text", "unknown", "unavail">>

ScopeOf(n) ==
    CASE n = "c20-framing" -> [Scope0 EXCEPT !.me = Methods, !.ver = Vers, !.rb = Bodies, !.nq = 2,
            !.q = FramingHeaders \o <<Ct("text/html"), Bad("content-type"), G("expect"), Bad("expect"), Items1("content-encoding", "gzip"),
                    G("content-range"), H("last-modified", -5000), H("max-forwards", 5), H("if-match", <<[w |-> FALSE, t |-> "a"]>>)>>]
      [] n = "c20-host" -> [Scope0 EXCEPT !.me = <<"GET", "CONNECT", "OPTIONS">>, !.ver = Vers, !.tg = <<"origin", "absolute", "authority", "asterisk", "bad">>,
            !.nq = 3, !.bq = <<>>, !.q = <<Host, Bad("host"), Host, AgentH, G("foo"), Bad("user-agent"), InTrailer(Host)>>]
      [] n = "c20-values" -> [Scope0 EXCEPT !.me = <<"GET", "POST", "CONNECT">>, !.ver = <<"HTTP/1.1", "HTTP/2">>, !.nq = 2, !.bq = <<Host>>,
            !.q = <<H("te", <<Acc("trailers", 1000, FALSE, "", "trailers")>>), H("te", <<Acc("chunked", 1000, FALSE, "", "chunked")>>),
                    H("te", <<>>), Bad("te"), H("te", <<Acc("gzip", 500, TRUE, "", "gzip")>>), H("connection", <<"te">>), H("connection", <<"close", "foo">>),
                    H("referer", [s |-> "https"]), H("referer", [s |-> "http"]), H("referer", [s |-> "-"]), Bad("referer"),
                    Ua(<<[k |-> "p", i |-> "libcurl"]>>), Ua(<<[k |-> "p", i |-> "libcurl"], [k |-> "c", i |-> ""], [k |-> "p", i |-> "Java"]>>),
                    Ua(<<[k |-> "p", i |-> "libcurl"], [k |-> "p", i |-> "foo"]>>), Ua(<<[k |-> "p", i |-> "foo"], [k |-> "p", i |-> "libcurl"]>>),
                    H("accept-encoding", <<Acc("x-gzip", 500, TRUE, "", "x-gzip")>>), H("accept-encoding", <<Acc("x-gzip", 1000, FALSE, "", "x-gzip")>>),
                    H("accept-encoding", <<Acc("x-compress", 1000, TRUE, "", "x-compress")>>), H("accept-encoding", <<Acc("*", 500, TRUE, "*", "*")>>),
                    H("accept", <<Acc("*/*", 500, TRUE, "*", "*")>>), H("accept", <<Acc("text/*", 500, TRUE, "text/*", "text"), Acc("text/html", 500, TRUE, "", "text")>>),
                    H("accept", <<Acc("text/plain", 500, TRUE, "", "text")>>), H("accept", <<Acc("image/png", 1000, FALSE, "", "image")>>),
                    H("accept", <<Acc("*/*", 1000, FALSE, "*", "*")>>), H("accept", <<Acc("image/*", 1000, FALSE, "image/*", "image")>>),
                    H("accept-language", <<Acc("*", 1000, FALSE, "*", "*")>>), H("accept-language", <<Acc("en", 1000, FALSE, "", "en")>>),
                    H("accept-charset", <<Acc("*", 0, TRUE, "*", "*"), Acc("utf-8", 0, TRUE, "", "utf-8")>>), Bad("accept"),
                    G("server"), G("retry-after"), XFoo, G("from")>>]
      [] n = "c20-prefer" -> [Scope0 EXCEPT !.me = <<"GET", "POST", "HEAD", "PROPFIND">>, !.nq = 3,
            !.q = <<Pref("respond-async", ""), Pref("respond-async", "1"), Pref("return", "minimal"), Pref("return", "representation"), Pref("return", ""),
                    Pref("handling", "strict"), Pref("handling", "lenient"), Pref("foo", ""), Pref("foo", "bar"), Pref("wait", "10"), Bad("prefer"),
                    Pref("return", "minimal"), H("prefer", <<[n |-> "handling", v |-> "x"], [n |-> "handling", v |-> "strict"]>>)>>]
      [] n = "c21" -> [Scope0 EXCEPT !.st = Statuses, !.sb = Bodies, !.np = 1, !.sver = Vers, !.me = <<"none">>,
            !.p = FramingHeaders \o <<Loc("location", "-", "-", Path(<<"b">>), "-", "-"), Loc("location", "-", "-", Path(<<"b">>), "-", "f"),
                    Loc("location", "-", "-", Path(<<"b">>), "-", ""), Bad("location"), Ct("text/html"), G("retry-after"), G("content-range"),
                    H("allow", <<"GET">>), G("host"), Items1("content-encoding", "gzip"), Etag(FALSE, "a"), H("last-modified", -5000)>>]
      [] n = "c21-pairs" -> [Scope0 EXCEPT !.st = <<103, 200, 201, 204, 206, 301, 304, 401, 405, 451>>, !.sb = <<"empty", "text">>, !.np = 2, !.me = <<"none">>, !.bp = <<>>,
            !.p = <<DateH, H("date", 5000), Bad("date"), H("last-modified", -5000), H("last-modified", -50), H("allow", <<"GET">>), H("allow", <<"PATCH">>), H("allow", <<"POST", "patch">>), H("allow", <<>>),
                    Items1("accept-patch", "application/json"), Items1("accept-patch", "application/json-patch+json"), Items1("accept-post", "text/html"), Bad("allow"), Bad("accept-post"),
                    H("vary", <<"host">>), H("vary", <<"foo", "prefer">>), StarH("vary"), Chal("www-authenticate", "foo", "none", <<>>), Bad("www-authenticate"),
                    Chal("proxy-authenticate", "foo", "none", <<>>), H("link", <<[relok |-> TRUE, rel |-> <<"next", "blocked-by">>]>>), H("link", <<[relok |-> TRUE, rel |-> <<"next">>]>>),
                    H("link", <<[relok |-> FALSE, rel |-> <<>>]>>), H("link", <<>>), G("user-agent"), H("if-match", <<>>), H("content-length", 0)>>]
      [] n = "c22-pairs" -> [Scope0 EXCEPT !.me = Methods, !.st = Statuses, !.sb = Bodies, !.ver = <<"HTTP/1.1", "HTTP/1.0">>, !.np = 0]
      [] n = "c22-headers" -> [Scope0 EXCEPT !.me = <<"GET", "POST", "HEAD", "PUT", "OPTIONS", "PATCH", "CONNECT", "DELETE">>, !.nq = 1, !.np = 1, !.sb = <<"text">>,
            !.st = <<101, 103, 200, 201, 301, 405, 406, 411, 413, 415, 417, 421, 426>>,
            !.q = <<Ct("text/html"), Ct("application/json-patch+json"), H("content-length", 0), Bad("content-length"), G("expect"), Bad("expect"), G("content-range"),
                    H("accept", <<>>), H("accept-language", <<Acc("en", 1000, FALSE, "", "en")>>), Pref("return", "minimal"), H("upgrade", <<Up("websocket"), Up("foo")>>)>>,
            !.p = <<H("transfer-encoding", <<[i |-> "chunked"]>>), H("content-length", 5), H("connection", <<"close">>), Ct("text/html"), Loc("location", "-", "-", Path(<<"b">>), "-", "-"),
                    H("allow", <<"GET", "PATCH">>), H("allow", <<"OPTIONS">>), Bad("allow"), H("allow", <<>>), Items1("accept-patch", "foo/bar"), CcH("no-store"),
                    PrefA("return", "minimal"), PrefA("return", "representation"), H("upgrade", <<Up("foo")>>), H("upgrade", <<Up("bar")>>), Bad("upgrade"), G("retry-after"),
                    StarH("vary"), H("vary", <<"prefer">>), Etag(FALSE, "a"), Sts(<<StsMax(5)>>)>>]
      [] n = "c23-resp" -> [Scope0 EXCEPT !.st = <<103, 200, 201, 203, 304, 404, 428>>, !.me = <<"GET">>, !.np = 3, !.bp = <<>>,
            !.p = <<DateH, H("age", 50), H("age", 5000), H("age", 90000), H("expires", -5000), H("expires", 100), CcHN("max-age", 60), CcHN("max-age", 3600), CcHN("s-maxage", 60),
                    CcH("no-cache"), CcHF("no-cache"), CcH("no-store"), CcH("must-revalidate"), CcHN("stale-if-error", 5), CcH("immutable"), CcH("public"), CcH("private"), CcHN("max-age", 0),
                    Warn(110), Warn(111), Warn(112), Warn(113), Warn(199), Warn(214), Bad("age"), Bad("cache-control")>>]
      [] n = "c23-pair" -> [Scope0 EXCEPT !.me = <<"GET", "POST", "PUT">>, !.st = <<200, 404>>, !.nq = 2, !.np = 2, !.sch = <<"http", "https">>, !.bp = <<>>,
            !.q = <<CcHN("max-age", 60), CcH("no-cache"), CcHF("no-cache"), CcH("no-store"), CcH("max-stale"), CcHN("min-fresh", 5), CcHN("stale-if-error", 5), CcH("only-if-cached"),
                    H("pragma", <<[i |-> "no-cache"]>>), H("pragma", <<[i |-> "foo"]>>), CcH("public"), Warn(110)>>,
            !.p = <<H("age", 50), H("age", 5000), CcHN("max-age", 60), Warn(110), Warn(112), CcH("immutable"), CcHN("stale-while-revalidate", 5), H("pragma", <<[i |-> "no-cache"]>>), CcH("only-if-cached"),
                    DateH, WarnD(214, -100), WarnD(214, -50)>>]
      [] n = "c24-cond" -> [Scope0 EXCEPT !.me = <<"GET", "HEAD", "POST", "OPTIONS", "TRACE">>, !.st = <<200, 304, 412, 428>>, !.nq = 2, !.np = 1,
            !.q = <<Tag1("if-match", FALSE, "a"), Tag1("if-match", TRUE, "a"), StarH("if-match"), Tag1("if-none-match", FALSE, "a"), Tag1("if-none-match", TRUE, "a"),
                    Tag1("if-none-match", FALSE, "b"), StarH("if-none-match"), Bad("if-none-match"), H("if-modified-since", -5000), H("if-modified-since", -1000), Bad("if-modified-since"),
                    H("if-unmodified-since", -1000), G("if"), G("if-schedule-tag-match")>>,
            !.p = <<Etag(FALSE, "a"), Etag(TRUE, "a"), Bad("etag"), H("last-modified", -5000), H("last-modified", -1000), Bad("last-modified"), Ct("text/html"), G("content-language")>>]
      [] n = "c24-range" -> [Scope0 EXCEPT !.me = <<"GET", "HEAD", "POST">>, !.st = <<200, 206, 416>>, !.nq = 2, !.np = 2, !.sb = <<"parts11", "parts10", "parts01", "text">>,
            !.q = <<H("range", [unit |-> "bytes", n |-> 1]), H("range", [unit |-> "bytes", n |-> 2]), H("range", [unit |-> "pages", n |-> 1]), Bad("range"),
                    IfRange(FALSE, "a"), IfRange(TRUE, "a"), IfRangeDate, Bad("if-range")>>,
            !.p = <<G("content-range"), Ct("multipart/byteranges"), Ct("text/html"), Bad("content-type"), Etag(FALSE, "a"), Etag(TRUE, "a"), Etag(FALSE, "b"), Bad("etag"),
                    H("last-modified", -5000), G("content-language"), Items1("content-encoding", "gzip"), Loc("content-location", "-", "-", Path(<<"z">>), "-", "-")>>]
      [] n = "c25-conn" -> [Scope0 EXCEPT !.me = <<"GET", "HEAD", "CONNECT">>, !.st = <<101, 103, 200, 204>>, !.ver = Vers, !.sver = Vers, !.np = 2,
            !.p = FramingHeaders \o <<H("connection", <<"upgrade">>), H("connection", <<"date", "foo">>), Bad("connection"), H("upgrade", <<Up("foo")>>), Bad("upgrade"),
                    H("trailer", <<"foo">>), InTrailer(G("foo")), InTrailer(G("bar-baz")), InTrailer(Etag(FALSE, "a")), G("keep-alive"), G("alt-svc")>>]
      [] n = "c25-upgrade" -> [Scope0 EXCEPT !.me = <<"GET", "POST">>, !.st = <<101, 100, 200, 426>>, !.ver = <<"HTTP/1.1", "HTTP/1.0", "HTTP/2">>, !.sch = <<"http", "https", "-">>, !.nq = 2, !.np = 2,
            !.q = <<H("upgrade", <<Up("h2c")>>), H("upgrade", <<Up("h2")>>), H("upgrade", <<Up("websocket"), Up("h2c")>>), Bad("upgrade"), H("connection", <<"upgrade">>), H("connection", <<"upgrade", "http2-settings">>),
                    H("http2-settings", [safe |-> TRUE]), H("http2-settings", [safe |-> FALSE]), Bad("http2-settings"), G("expect"), H("te", <<Acc("trailers", 1000, FALSE, "", "trailers")>>)>>,
            !.p = <<H("upgrade", <<Up("h2c")>>), H("upgrade", <<Up("h2")>>), H("upgrade", <<Up("websocket")>>), Bad("upgrade"), H("connection", <<"upgrade">>), H("connection", <<"close">>), G("alt-svc")>>]
      [] n = "c26-cred" -> [Scope0 EXCEPT !.sch = <<"http", "https", "-">>, !.me = <<"GET", "POST">>, !.tg = <<"origin", "token", "query", "abstoken", "bad">>, !.nq = 2, !.rb = <<"empty", "form", "form0">>,
            !.bq = <<Host, AgentH>>,
            !.q = <<Cred("authorization", "basic", "t68", TRUE, TRUE, <<>>, <<>>), Cred("authorization", "basic", "t68", TRUE, FALSE, <<"0a", "7f">>, <<>>), Cred("authorization", "basic", "t68", FALSE, TRUE, <<>>, <<>>),
                    Cred("authorization", "basic", "params", TRUE, TRUE, <<>>, <<Ap("realm", "x", TRUE, FALSE)>>), Cred("authorization", "basic", "none", TRUE, TRUE, <<>>, <<>>),
                    Cred("authorization", "bearer", "t68", TRUE, TRUE, <<>>, <<>>), Cred("authorization", "bearer", "params", TRUE, TRUE, <<>>, <<Ap("x", "x", TRUE, TRUE)>>),
                    Cred("authorization", "foo", "none", TRUE, TRUE, <<>>, <<>>), Cred("authorization", "foo", "t68", TRUE, TRUE, <<>>, <<>>), Bad("authorization"),
                    Cred("proxy-authorization", "bearer", "t68", TRUE, TRUE, <<>>, <<>>), Cred("proxy-authorization", "basic", "t68", TRUE, FALSE, <<>>, <<>>),
                    Ct("application/x-www-form-urlencoded"), CcH("no-store"), Items1("content-encoding", "gzip")>>]
      [] n = "c26-chal" -> [Scope0 EXCEPT !.sch = <<"http", "https">>, !.st = <<103, 200, 400, 401, 403, 407>>, !.tg = <<"origin", "token">>, !.nq = 1, !.np = 1,
            !.q = <<Cred("authorization", "basic", "t68", TRUE, TRUE, <<>>, <<>>), Cred("authorization", "bearer", "t68", TRUE, TRUE, <<>>, <<>>), Bad("authorization")>>,
            !.p = <<Chal("www-authenticate", "basic", "none", <<>>), Chal("www-authenticate", "basic", "t68", <<>>), Chal("www-authenticate", "basic", "params", <<Ap("realm", "x", TRUE, TRUE)>>),
                    Chal("www-authenticate", "basic", "params", <<Ap("realm", "x", TRUE, FALSE), Ap("charset", "utf-8", TRUE, TRUE)>>), Chal("www-authenticate", "basic", "params", <<Ap("charset", "x", TRUE, TRUE)>>),
                    Chal("www-authenticate", "basic", "params", <<Ap("realm", "x", TRUE, TRUE), Ap("foo", "x", TRUE, TRUE), Ap("bar", "x", TRUE, TRUE), Ap("foo", "y", TRUE, TRUE)>>),
                    Chal("www-authenticate", "bearer", "none", <<>>), Chal("www-authenticate", "bearer", "t68", <<>>), Chal("www-authenticate", "bearer", "params", <<Ap("realm", "x", TRUE, TRUE)>>),
                    Chal("www-authenticate", "bearer", "params", <<Ap("error", "invalid_token", TRUE, TRUE)>>), Chal("www-authenticate", "bearer", "params", <<Ap("error", "invalid_request", TRUE, TRUE)>>),
                    Chal("www-authenticate", "bearer", "params", <<Ap("error", "insufficient_scope", TRUE, FALSE), Ap("error", "foo", TRUE, TRUE)>>),
                    Chal("www-authenticate", "bearer", "params", <<Ap("error", "", FALSE, TRUE), Ap("scope", "a  b", FALSE, TRUE)>>),
                    Chal("www-authenticate", "bearer", "params", <<Ap("error_description", "oops", TRUE, TRUE), Ap("error_uri", "a b", FALSE, TRUE)>>),
                    Chal("www-authenticate", "bearer", "params", <<Ap("scope", "a", TRUE, TRUE), Ap("scope", "", FALSE, TRUE), Ap("x", "a", TRUE, TRUE), Ap("x", "b", TRUE, TRUE)>>),
                    Chal("proxy-authenticate", "bearer", "none", <<>>), Chal("proxy-authenticate", "basic", "none", <<>>), Chal("www-authenticate", "foo", "none", <<>>), Bad("www-authenticate")>>]
      [] n = "c26-where" -> [Scope0 EXCEPT !.me = <<"GET", "POST">>, !.sch = <<"https", "-">>, !.tg = <<"origin", "query", "token", "abstoken", "bad">>, !.rb = <<"empty", "form", "form0", "text", "unknown", "unavail">>,
            !.st = <<401, 400>>, !.nq = 2, !.np = 1, !.bq = <<AgentH>>,
            !.q = <<Host, Ct("application/x-www-form-urlencoded"), Ct("text/html"), Items1("content-encoding", "gzip"), Cred("authorization", "basic", "t68", TRUE, TRUE, <<>>, <<>>),
                    Cred("authorization", "bearer", "t68", TRUE, TRUE, <<>>, <<>>), Bad("authorization"), Bad("content-type")>>,
            !.p = <<Chal("www-authenticate", "bearer", "params", <<Ap("error", "invalid_token", TRUE, TRUE)>>),
                    Chal("www-authenticate", "bearer", "params", <<Ap("error_description", "oops", TRUE, TRUE), Ap("error_uri", "/e", TRUE, TRUE)>>),
                    Chal("www-authenticate", "bearer", "params", <<Ap("realm", "x", TRUE, TRUE)>>)>>]
      [] n = "c27-uri" -> [Scope0 EXCEPT !.me = <<"GET", "POST", "DELETE", "CONNECT">>, !.tg = <<"origin", "query", "absolute", "abshttps", "authority", "asterisk", "bad", "root", "deep">>, !.sch = <<"http", "https", "-">>,
            !.st = <<200, 201, 301>>, !.nq = 1, !.np = 1, !.bq = <<AgentH>>, !.q = <<Host, Bad("host"), InTrailer(Host)>>,
            !.p = <<Loc("location", "-", "-", Path(<<"a">>), "-", "-"), Loc("location", "http", "example.com", Path(<<"a">>), "-", "-"), Loc("location", "https", "example.com", Path(<<"a">>), "-", "-"),
                    Loc("location", "-", "example.com", Path(<<"a">>), "-", "-"), Loc("location", "-", "-", Rel(<<"a">>), "-", "-"), Loc("location", "-", "-", Rel(<<".", "a">>), "-", "-"),
                    Loc("location", "-", "-", Rel(<<>>), "-", "-"), Loc("location", "-", "-", Rel(<<>>), "q=1", "-"), Loc("location", "-", "-", Path(<<"a">>), "-", "f"), Loc("location", "-", "-", Path(<<"a">>), "q=1", "-"),
                    Bad("location"), Loc("content-location", "-", "-", Path(<<"a">>), "-", "-"), Loc("content-location", "http", "example.com", Path(<<"a">>), "-", "-"),
                    Loc("content-location", "-", "-", Rel(<<"..", "x", "a">>), "-", "-"), Loc("content-location", "-", "-", Rel(<<"..">>), "-", "-"), Loc("content-location", "-", "-", Rel(<<"a">>), "-", "-"), Bad("content-location")>>]
      [] n = "c27-proxy" -> [Scope0 EXCEPT !.me = <<"GET", "CONNECT">>, !.ver = Vers, !.tg = <<"origin", "absolute", "bad">>, !.st = <<103, 200, 203, 304>>, !.nq = 1, !.np = 2,
            !.q = <<Warn(214), CcH("no-transform"), G("via"), Warn(110)>>,
            !.p = <<Warn(214), H("warning", <<[c |-> 214, dok |-> FALSE, date |-> 0], [c |-> 299, dok |-> FALSE, date |-> 0]>>), Bad("warning"), CcH("no-transform"), G("via"), CcH("public")>>]
      [] n = "c28" -> [Scope0 EXCEPT !.me = <<"GET", "POST", "CONNECT", "HEAD", "none">>, !.st = <<103>>, !.ver = <<"HTTP/1.1", "HTTP/2">>, !.sch = <<"http", "https">>, !.sb = <<"empty", "text">>, !.np = 2, !.bp = <<>>,
            !.p = <<DateH, H("age", 5000), H("expires", -5000), CcHN("max-age", 60), CcH("immutable"), CcH("no-store"), CcH("no-transform"), Warn(110), Warn(214), Warn(99), H("transfer-encoding", <<[i |-> "chunked"]>>),
                    H("content-length", 5), H("connection", <<"close">>), H("connection", <<"date">>), Ct("text/html"), Ct("text/directory"), Etag(FALSE, "a"), G("retry-after"), G("content-range"),
                    Loc("location", "-", "-", Path(<<"a">>), "-", "-"), Loc("content-location", "-", "-", Path(<<"a">>), "-", "-"), H("allow", <<"GET">>), H("allow", <<"PATCH">>), Items1("accept-patch", "text/html"), Items1("accept-post", "text/html"),
                    PrefA("foo", ""), H("vary", <<"host">>), H("upgrade", <<Up("h2")>>), H("upgrade", <<Up("h2c")>>), Sts(<<StsMax(0), StsSub>>), Sts(<<StsSub>>), XFoo, G("proxy-connection"), G("host"), H("link", <<>>),
                    H("pragma", <<[i |-> "foo"]>>), Chal("www-authenticate", "basic", "none", <<>>), G("alt-svc"), H("trailer", <<"foo">>), G("keep-alive")>>]
      [] n = "c20-seq" -> Scope0

S == TLCEval(ScopeOf(ScopeName))

VARIABLES vPick,        \* indices into me, ver, sch, tg, rb, st, sver, sb
          vQ, vP        \* header options chosen, increasing indices

Dims == <<S.me, S.ver, S.sch, S.tg, S.rb, IF S.st = <<>> THEN <<0>> ELSE S.st, S.sver, S.sb>>
Size(d) == Len(d)
RECURSIVE Hash(_, _)
Hash(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + 31 * (Hash(s, k + 1) % 10007)
Init ==
  /\ vPick \in {<<a, b, c, d, e, f, g, h>> : a \in 1..Size(Dims[1]), b \in 1..Size(Dims[2]), c \in 1..Size(Dims[3]), d \in 1..Size(Dims[4]),
                                             e \in 1..Size(Dims[5]), f \in 1..Size(Dims[6]), g \in 1..Size(Dims[7]), h \in 1..Size(Dims[8])}
  /\ vQ = <<>> /\ vP = <<>>
  \* irrelevant choices collapse
  /\ (S.me[vPick[1]] = "none" => vPick[2] = 1 /\ vPick[3] = 1 /\ vPick[4] = 1 /\ vPick[5] = 1)
Last(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
AddReq == /\ vP = <<>> /\ S.me[vPick[1]] # "none" /\ Len(vQ) < S.nq
          /\ \E k \in (Last(vQ) + 1)..Len(S.q): vQ' = Append(vQ, k)
          /\ UNCHANGED <<vPick, vP>>
AddResp == /\ Len(vP) < S.np
           /\ \E k \in (Last(vP) + 1)..Len(S.p): vP' = Append(vP, k)
           /\ UNCHANGED <<vPick, vQ>>
Next == AddReq \/ AddResp

Chosen(opts, idx) == LET all == [k \in 1..Len(idx) |-> opts[idx[k]]] IN
                     SelectSeq(all, LAMBDA e: ~e.t) \o SelectSeq(all, LAMBDA e: e.t)
Put(base, more) == LET b == SelectSeq(base, LAMBDA e: \A k \in 1..Len(more): more[k].n # e.n) IN
                   SelectSeq(b \o more, LAMBDA e: ~e.t) \o SelectSeq(b \o more, LAMBDA e: e.t)
Exchange ==
    LET me == S.me[vPick[1]]
        ver == S.ver[vPick[2]]
        req == IF me = "none" THEN [none |-> TRUE]
               ELSE [kind |-> "req", method |-> me, mok |-> TRUE, up |-> IF me = "get" THEN "GET" ELSE me, ver |-> ver, scheme |-> S.sch[vPick[3]],
                     tgt |-> Tgt(S.tg[vPick[4]]), hdrs |-> Put(S.bq, Chosen(S.q, vQ)), body |-> Body(S.rb[vPick[5]])]
        sver == S.sver[vPick[7]]
        resp == [kind |-> "resp", status |-> S.st[vPick[6]], rok |-> TRUE, ver |-> IF sver = "same" THEN ver ELSE sver,
                 hdrs |-> Put(S.bp, Chosen(S.p, vP)), body |-> Body(S.sb[vPick[8]])] IN
    [req |-> req, resps |-> IF S.st = <<>> THEN <<>> ELSE <<resp>>]

\* Print a share of the exchanges for replay.
Emit == ~Emitting \/ Hash(vPick \o <<77>> \o vQ \o <<78>> \o vP, 1) % Parts # Part \/ PrintT("@@" \o ToJson(Exchange))

------------------------------------------------------------------------------
(* What must hold of the rules themselves *)

Early == {x \in 1..Len(Exchange.resps): Exchange.resps[x].status = 103}
\* Notices that judge headers as describing the response they come in.
NotForEarly == {1018, 1023, 1046, 1050, 1052, 1112, 1113, 1147, 1198, 1241, 1301, 1302, 1303, 1217, 1310, 1190, 1189, 1191, 1192, 1237, 1244, 1245,
                1216, 1291} \cup 1166..1188 \cup {1202}
EarlyHints == \A x \in Expected(Exchange): x[1] \in NotForEarly => x[2] = "req" \/ Exchange.resps[IF x[2] = "1" THEN 1 ELSE 2].status # 103

RespOnly(s) == {x \in s: x[2] # "req"}
ForgetReq(ex) == [ex EXCEPT !.req = [none |-> TRUE]]
\* Not knowing the request never adds a notice (except those a HEAD request suppresses).
NoRequestNoNotice ==
    LET with == Expected(Exchange) IN
    NoReq(Exchange.req) \/ \A x \in Expected(ForgetReq(Exchange)): x \in with \/ x[1] \in {1141, 1142}
\* Neither does not knowing the scheme,
NoSchemeNoNotice ==
    NoReq(Exchange.req) \/ Expected([Exchange EXCEPT !.req.scheme = "-"]) \subseteq Expected(Exchange)
\* the version of the request or of the response,
NoVersionNoNotice ==
    LET with == Expected(Exchange) IN
    /\ NoReq(Exchange.req) \/ Expected([Exchange EXCEPT !.req.ver = "-"]) \subseteq with
    /\ Exchange.resps = <<>> \/ Expected([Exchange EXCEPT !.resps[1].ver = "-"]) \subseteq with
\* or the contents of a body.
Framed(r) == ~HttpOne(r) \/ r.body.st = "empty" \/ Has(r, "content-length") \/ Has(r, "transfer-encoding")
NoBodyNoNotice ==
    LET with == Expected(Exchange)
        Unknown == Body("unknown")
        Unavail == Body("unavail") IN
    /\ NoReq(Exchange.req) \/ ~Framed(Exchange.req) \/ Expected([Exchange EXCEPT !.req.body = Unknown]) \subseteq with
    /\ NoReq(Exchange.req) \/ Exchange.req.body.st # "some" \/ Expected([Exchange EXCEPT !.req.body = Unavail]) \subseteq with
    /\ Exchange.resps = <<>> \/ Expected([Exchange EXCEPT !.resps[1].body = Unknown]) \subseteq with
    /\ Exchange.resps = <<>> \/ Exchange.resps[1].body.st # "some" \/ Expected([Exchange EXCEPT !.resps[1].body = Unavail]) \subseteq with
=============================================================================
