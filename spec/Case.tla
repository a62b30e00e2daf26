-------------------------------- MODULE Case --------------------------------
(***************************************************************************)
(* Where letter case does not matter.  A template is a header value in     *)
(* which tildes surround what is case-insensitive according to its         *)
(* specification; nothing is said about the rest.  Names of headers are    *)
(* always case-insensitive.  An impostor is a value with a case-sensitive  *)
(* part (between carets) and another text of the same shape for it: in the *)
(* wrong case, the part means no more than that other text.                *)
(***************************************************************************)
EXTENDS Abnf

Letter(c) == c \in 65..90 \cup 97..122
Lo(c) == IF c \in 65..90 THEN c + 32 ELSE c
Up(c) == IF c \in 97..122 THEN c - 32 ELSE c
LowerT(s) == [k \in 1..Len(s) |-> Lo(s[k])]
Marks(t, m) == {k \in 1..Len(t) : t[k] = m}
Within(t, m, k) == Cardinality({j \in Marks(t, m) : j < k}) % 2 = 1
Flag(t, m) == SelectSeq([k \in 1..Len(t) |-> [c |-> t[k], in |-> Within(t, m, k)]], LAMBDA x: x.c # m)
Text(fl) == [k \in 1..Len(fl) |-> fl[k].c]
Flip(fl, mode) == [k \in 1..Len(fl) |-> IF ~fl[k].in THEN fl[k].c
                     ELSE CASE mode = "up" -> Up(fl[k].c) [] mode = "low" -> Lo(fl[k].c)
                            [] mode = "odd" -> (IF k % 2 = 1 THEN Up(fl[k].c) ELSE Lo(fl[k].c))
                            [] mode = "even" -> (IF k % 2 = 0 THEN Up(fl[k].c) ELSE Lo(fl[k].c)) [] OTHER -> fl[k].c]
\* v is the text with only such changes as do not matter
Variation(fl, v) == Len(fl) = Len(v) /\ \A k \in 1..Len(fl): fl[k].c = v[k] \/ (fl[k].in /\ Lo(fl[k].c) = Lo(v[k]))

Q(h, v) == [at |-> "req", h |-> B(h), v |-> B(v)]
P(h, v) == [at |-> "resp", h |-> B(h), v |-> B(v)]
W(h, v) == [at |-> "any", h |-> B(h), v |-> B(v)]
Templates == TLCEval(<<
  Q("Accept", "~text/html~;~level~=1;~q~=0.5, */*;~q~=0.1"), Q("Accept", "~text/*~, ~application/json~"), Q("Accept", "~text/plain~;~charset~=~utf-8~"), Q("Accept", "*/*;~q~=2"),
  Q("Accept", "~text/html~, ~text/html~"), Q("Accept", "~text/*~;~q~=0.5, ~text/html~"), Q("Accept", "~application/problem+json~;~q~=0"),
  Q("Accept-Charset", "~utf-8~;~q~=0.5, ~iso-8859-1~, *"), Q("Accept-Charset", "*;~Q~=0"), Q("Accept-Charset", "~utf-8~"),
  Q("Accept-Encoding", "~gzip~;~q~=1.0, ~identity~;~q~=0"), Q("Accept-Encoding", "*;~q~=0, ~br~"), Q("Accept-Encoding", "~x-gzip~, ~foo~"), Q("Accept-Encoding", "~identity~;~q~=0.5, ~gzip~"),
  Q("Accept-Language", "~en-us~, ~ru~;~q~=0.5"), Q("Accept-Language", "~en~, ~en~"), Q("Accept-Language", "~en-us~;~q~=0"), Q("Accept-Language", "*, ~de-ch-1996~"),
  Q("Authorization", "~Basic~ QWxhZGRpbjpvcGVuIHNlc2FtZQ=="), Q("Authorization", "~Basic~ QQ"), Q("Authorization", "~Bearer~ abc.def"), Q("Authorization", "~Foo~ ~x~=y"), Q("Authorization", "~Basic~ ~realm~=x"),
  Q("Authorization", "~Bearer~ ~realm~=\"x\""), Q("Authorization", "~Digest~ ~username~=\"Mufasa\", ~realm~=\"a\", ~nonce~=\"b\", ~uri~=\"/\", ~response~=\"c\""),
  Q("Proxy-Authorization", "~Basic~ QQ"), Q("Proxy-Authorization", "~Bearer~ abc"),
  W("Cache-Control", "~no-cache~, ~max-age~=5"), W("Cache-Control", "~max-age~=5, ~max-age~=6"), W("Cache-Control", "~no-store~, ~public~"), W("Cache-Control", "~private~=\"~set-cookie~\", ~no-store~"),
  W("Cache-Control", "~max-age~=\"5\""), W("Cache-Control", "~max-stale~"), W("Cache-Control", "~max-age~"), W("Cache-Control", "~no-store~=5"), W("Cache-Control", "~must-revalidate~, ~stale-while-revalidate~=5"),
  Q("Cache-Control", "~only-if-cached~, ~min-fresh~=3"), P("Cache-Control", "~s-maxage~=5, ~private~"), P("Cache-Control", "~no-cache~=~expires~"), W("Cache-Control", "~no-transform~, ~no-transform~"), W("Cache-Control", "~foo~=BaR, ~immutable~"),
  W("Connection", "~close~"), W("Connection", "~keep-alive~, ~close~"), W("Connection", "~upgrade~"), W("Connection", "~te~, ~foo~"), W("Connection", "~content-type~"), W("Connection", "~cache-control~, ~host~"), W("Connection", "~close~, ~close~"),
  W("Content-Type", "~application/json~"), W("Content-Type", "~application/json~; ~charset~=~utf-8~"), W("Content-Type", "~text/xml~"), W("Content-Type", "~application/x-www-form-urlencoded~"),
  W("Content-Type", "~multipart/form-data~; ~boundary~=b"), W("Content-Type", "~multipart/byteranges~; ~boundary~=B"), W("Content-Type", "~multipart/mixed~"), W("Content-Type", "~text/plain~; ~charset~=~us-ascii~"),
  W("Content-Type", "~text/html~;~charset~=\"~iso-8859-1~\""), W("Content-Type", "~application/problem+json~"), W("Content-Type", "~application/foo+xml~"), W("Content-Type", "~text/plain~; ~charset~=~foo~"), W("Content-Type", "~text/javascript~"),
  W("Content-Type", "~application/merge-patch+json~"), W("Content-Type", "~image/jpg~"), W("Content-Type", "~audio/x-wav~"), W("Content-Type", "~text/json~"), W("Content-Type", "~text/html~; ~a~=1; ~a~=2"),
  W("Content-Encoding", "~gzip~"), W("Content-Encoding", "~deflate~, ~gzip~"), W("Content-Encoding", "~identity~"), W("Content-Encoding", "~foo~"), W("Content-Encoding", "~x-gzip~"), W("Content-Encoding", "~br~"),
  W("Content-Disposition", "~attachment~; ~filename~=\"x\""), W("Content-Disposition", "~inline~; ~filename*~=~UTF-8~'~en~'x"), W("Content-Disposition", "~form-data~; ~name~=x"), W("Content-Disposition", "~attachment~; ~filename~=\"a\\b\"; ~FILENAME~=y"),
  W("Content-Disposition", "~foo~; ~filename~=\"%41\""), W("Content-Disposition", "~attachment~; ~filename*~=~iso-8859-1~''x; ~filename~=x"),
  W("Content-Language", "~en-us~, ~de~"), W("Content-Language", "~x-foo~"), P("Content-Range", "~bytes~ 0-5/10"), P("Content-Range", "~bytes~ */10"), P("Content-Range", "~foo~ x"),
  Q("Expect", "~100-continue~"), W("Forwarded", "~for~=1.2.3.4;~by~=\"[::1]\";~proto~=http"), W("Forwarded", "~for~=_x;~for~=_y"), W("Forwarded", "~host~=a, ~For~=unknown"), W("Forwarded", "~foo~=x"),
  P("Link", "</x>; ~rel~=\"next prev\"; ~title~=\"x\""), P("Link", "</x>; ~rel~=blocked-by"), P("Link", "</x>; ~rel~=next; ~rel~=prev"), P("Link", "</x>; ~title*~=~utf-8~''x; ~type~=\"~text/html~\"; ~hreflang~=~en~"),
  P("Link", "</x>; ~rev~=next; ~anchor~=\"/y\""), P("Link", "</x>; ~media~=print; ~media~=x; ~rel~=next"), P("Link", "</x>"),
  W("Pragma", "~no-cache~"), W("Pragma", "foo=bar"),
  Q("Prefer", "~respond-async~, ~wait~=10"), Q("Prefer", "~return~=minimal"), Q("Prefer", "~return~=minimal, ~return~=representation"), Q("Prefer", "~handling~=lenient; ~foo~=x"), Q("Prefer", "~wait~"), Q("Prefer", "~respond-async~=x"), Q("Prefer", "~foo~, ~foo~=x"),
  P("Preference-Applied", "~return~=minimal"), P("Preference-Applied", "~respond-async~"), P("Preference-Applied", "~foo~=bar, ~wait~=5"), P("Preference-Applied", "~handling~=x"),
  Q("Range", "~bytes~=0-5"), Q("Range", "~bytes~=5-0"), Q("Range", "~foo~=1"), P("Accept-Ranges", "~bytes~"), P("Accept-Ranges", "~none~"), P("Accept-Ranges", "~bytes~, ~foo~"),
  Q("TE", "~trailers~, ~gzip~;~q~=0.5"), Q("TE", "~chunked~"), Q("TE", "~foo~;~x~=y;~q~=0.5"), W("Trailer", "~foo~, ~content-length~"), W("Trailer", "~trailer~"), W("Trailer", "~transfer-encoding~, ~date~"),
  W("Transfer-Encoding", "~chunked~"), W("Transfer-Encoding", "~gzip~, ~chunked~"), W("Transfer-Encoding", "~chunked~, ~gzip~"), W("Transfer-Encoding", "~identity~"), W("Transfer-Encoding", "~foo~; ~x~=y"), W("Transfer-Encoding", "~x-gzip~"),
  P("Vary", "~accept~, ~accept-encoding~"), P("Vary", "~host~"), P("Vary", "~foo~, ~cookie~, ~prefer~"), P("Vary", "~authorization~, ~user-agent~"), P("Vary", "*"),
  P("WWW-Authenticate", "~basic~ ~realm~=\"x\""), P("WWW-Authenticate", "~basic~ ~realm~=\"x\", ~charset~=\"~utf-8~\""), P("WWW-Authenticate", "~basic~"), P("WWW-Authenticate", "~bearer~ ~realm~=\"x\", ~error~=\"invalid_token\""),
  P("WWW-Authenticate", "~bearer~"), P("WWW-Authenticate", "~bearer~ ~scope~=\"x\", ~scope~=\"y\""), P("WWW-Authenticate", "~foo~ ~realm~=x, ~basic~ ~realm~=\"y\""), P("WWW-Authenticate", "~foo~ abc=="), P("WWW-Authenticate", "~basic~ ~realm~=x, ~realm~=y"),
  P("WWW-Authenticate", "~bearer~ ~error~=\"foo\", ~error_description~=\"\\x\", ~error_uri~=\"/x\""), P("WWW-Authenticate", "~digest~ ~realm~=\"x\", ~nonce~=\"y\""), P("Proxy-Authenticate", "~basic~ ~realm~=\"x\""),
  P("Strict-Transport-Security", "~max-age~=5; ~includeSubDomains~"), P("Strict-Transport-Security", "~max-age~=0; ~max-age~=1"), P("Strict-Transport-Security", "~includeSubDomains~"), P("Strict-Transport-Security", "~max-age~; ~foo~=x"),
  P("Strict-Transport-Security", "~max-age~=x; ~includeSubDomains~=1"),
  P("Accept-Patch", "~application/json~; ~charset~=~utf-8~, ~text/x~"), P("Accept-Post", "~text/html~"), P("Accept-Patch", "~application/merge-patch+json~"),
  P("Allow", "GET, HEAD"), P("Age", "5"), P("ETag", "W/\"x\""), P("Location", "/x"), P("Retry-After", "5"), P("Date", "Fri, 01 Jan 2016 10:00:00 GMT"), P("Expires", "0"), P("Last-Modified", "Fri, 01 Jan 2016 10:00:01 GMT"), P("Server", "x"),
  P("Server", "x y"), Q("User-Agent", "curl/7"), Q("Host", "example.com"), Q("If-None-Match", "\"x\""), Q("If-Match", "*"), Q("If-Modified-Since", "Fri, 01 Jan 2016 10:00:00 GMT"), Q("If-Range", "\"x\""), Q("Max-Forwards", "5"), Q("Upgrade", "h2c"),
  Q("HTTP2-Settings", "AAMAAABk"), Q("Referer", "http://example.com/"), W("Via", "1.1 a"), W("Warning", "110 - \"x\""), W("Upgrade", "websocket"), W("X-Foo", "bar"), W("Content-Length", "5"), W("Content-Location", "/x"), W("Keep-Alive", "5"),
  W("Content-MD5", "x"), P("Alt-Svc", "h2=\":443\""), Q("Cookie", "a=b"), P("Set-Cookie", "a=b; Path=/; secure"), Q("Origin", "http://a"), Q("From", "a@b"), W("Proxy-Connection", "~keep-alive~"), W("Access-Control-Allow-Origin", "*"), Q("If", "x"), W("Content-Range", "~bytes~ 1-2/3")>>)

\* known, case-sensitive, and a text of the same shape which means nothing
I(where, h, v, x) == [at |-> where, h |-> B(h), v |-> B(v), x |-> B(x)]
Impostors == TLCEval(<<
  I("method", "", "^GET^", "GEX"), I("method", "", "^HEAD^", "HEAX"), I("method", "", "^POST^", "POSX"), I("method", "", "^PUT^", "PUX"), I("method", "", "^DELETE^", "DELEXE"), I("method", "", "^OPTIONS^", "OPTXONS"),
  I("method", "", "^CONNECT^", "CONXECT"), I("method", "", "^TRACE^", "TRAXE"), I("method", "", "^PATCH^", "PATXH"), I("method", "", "^PROPFIND^", "PROPXIND"), I("method", "", "^PRI^", "PXI"), I("method", "", "^SEARCH^", "SEXRCH"),
  I("req", "Upgrade", "^h2c^", "h2x"), I("resp", "Upgrade", "^h2c^", "h2x"), I("resp", "Upgrade", "^TLS^/1.0", "TXS"), I("req", "Upgrade", "^h2^", "x2"), I("resp", "Upgrade", "^h2^", "x2"),
  I("resp", "Allow", "^GET^", "GEX"), I("resp", "Allow", "^GET^, ^HEAD^, ^PATCH^", "XXX"), I("resp", "Allow", "^OPTIONS^, ^POST^", "XXX"), I("resp", "ETag", "^W^/\"x\"", "V"), I("req", "If-None-Match", "^W^/\"x\"", "V"),
  I("resp", "Date", "^Fri^, 01 Jan 2016 10:00:00 GMT", "Frx"), I("resp", "Date", "Fri, 01 ^Jan^ 2016 10:00:00 GMT", "Jax"), I("resp", "Date", "Fri, 01 Jan 2016 10:00:00 ^GMT^", "GXT"), I("resp", "Expires", "^Friday^, 01-Jan-99 10:00:00 GMT", "Fridax"),
  I("req", "If-Modified-Since", "^Fri^ Jan  1 10:00:00 2016", "Frx"), I("resp", "Alt-Svc", "^clear^", "cleax"), I("resp", "Alt-Svc", "^h2c^=\":80\"", "h2x")>>)
\* the notice about a method in the wrong case is the only one it may get besides
Explains == {1295}
=============================================================================
