------------------------------- MODULE Total -------------------------------
(***************************************************************************)
(* Property C35.  What HTTPolice is given passes through stages; there is  *)
(* no other way for it to end than in reports or, for the formats that     *)
(* have a structure of their own, in an input error.                       *)
(***************************************************************************)
EXTENDS Abnf
Entries == {"api", "req-stream", "resp-stream", "streams", "combined", "tcpflow", "tcpick", "har"}
\* these have rules that a file can break
Structured == {"streams", "combined", "tcpflow", "tcpick", "har"}
Stages == {"given", "rejected", "read", "checked", "text", "html"}
Ends0 == {"rejected", "html"}
\* `want': is what is given known to be nonsense ("reject"), known to be fine ("accept"), or neither ("any")?
Step(entry, want, s) ==
  CASE s = "given" -> (IF want = "reject" THEN {"rejected"} ELSE IF entry \in Structured /\ want = "any" THEN {"read", "rejected"} ELSE {"read"})
    [] s = "read" -> {"checked"} [] s = "checked" -> {"text"} [] s = "text" -> {"html"} [] OTHER -> {}
Behaviour(entry, want, tr) ==
  /\ Len(tr) > 0 /\ tr[1] = "given" /\ tr[Len(tr)] \in Ends0
  /\ \A k \in 1..(Len(tr) - 1): tr[k + 1] \in Step(entry, want, tr[k])

------------------------------------------------------------------------------
(* Texts that are hard on some reader or other: pre, then rep n times, then post. *)
T(s) == [pre |-> s, rep |-> <<>>, n |-> 0, post |-> <<>>]
L(pre, rep, n, post) == [pre |-> B(pre), rep |-> B(rep), n |-> n, post |-> B(post)]
Short == <<"", " ", ",", ",,", ";", "=", "\"", "\"\"", "\"\\", "\"a", "\\", "(", "()", "((a)b)", ")", "'", "''", "a", "a=", "=a", "a=b", "a=\"b", "a=\"b\\\"", "a;b", "a;=", "a; b=c;", "a;b=\"c,d;e\"", "a/b", "a/", "/b",
  "*", "*/*", "*/*;q=", "a;q=2", "a;q=0.1234", "utf-8''%ff", "a*=utf-8''%ff", "a;b*=utf-8'en'%", "a;b*=foo''%41", "a;b*=''", "0", "-1", "1", "1.5", "007", "99999999999999999999", "1e9", "W/", "W/\"\"", "bytes=", "bytes=-",
  "bytes=5-1", "bytes */*", "bytes 5-1/0", "bytes 0-99999999999999999999/*", "bytes=0-99999999999999999999", "max-age=99999999999999999999", "max-age", "max-age=\"1", "max-age=1, max-age=2", "no-cache=\"", "private=\",\"", "stale-if-error=99999999999999999999",
  "Basic ", "Basic =", "Basic ====", "Basic /w==", "Basic QQ", "Bearer", "Bearer ,", "Bearer realm=\"a\", error=\"\", scope=\"\", error_uri=\"%\"", "Digest a", "a b=c, d", "http://", "http://[", "http://[::1", "http://a:99999999/", "//", "//[", "?", "#", "http://a]b/", ":", "http:",
  "%", "%zz", "%ff", "..//..", "/../..", "2", "Sat, 01 Jan 0000 00:00:00 GMT", "Mon, 01 Jan 0001 00:00:00 GMT", "Fri, 31 Dec 9999 23:59:59 GMT", "Sun, 31 Feb 2016 00:00:00 GMT", "Sat, 31 Dec 2016 23:59:60 GMT", "Sun Nov  0 08:49:37 1994",
  "Sunday, 06-Nov-94 24:00:00 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "Thu, 01 Jan 1970 00:00:00 GMT", "<", "<a>", "</a>; rel", "<>; rel=\"\"", "<http://[>;rel=next", "<a>;title*=utf-8''%ff", "<a>; rel=next; rel=prev; anchor=\"[\"", "<a>;=", "for=\"[", "for=_", "for=\"_a:99999\";by=\"[::1]:1\"",
  "199 - \"x\" \"Fri, 31 Dec 9999 23:59:59 GMT\"", "110", "110 a \"\"", "214 - \"a\" \"Sat, 01 Jan 0000 00:00:00 GMT\"", "1.1", "1.1 ", "1.1 a (", "HTTP/1.1 a (b), 2", "h2=\":", "h2=\":443\"; ma=99999999999999999999; persist=x", "%zz=\"a\"", "clear", "return=minimal; =", "wait=-1", "wait=99999999999999999999",
  "handling=strict;a;b", "100-continue", "100-continue, a", "chunked", "gzip, chunked", "chunked, chunked", "identity", "gzip", "deflate", "br", "compress", "gzip, br, deflate", "gzip;q=0", "trailers", "TE, close", "upgrade, http2-settings", "h2c", "h2c, TLS/1.0", "/1", "AAMAAABk", "AA==",
  "application/json", "application/json; charset=x", "text/html; charset=\"\"", "text/html; charset=idna", "text/html; charset=punycode", "text/html; charset=unicode_escape", "text/html; charset=base64", "text/html; charset=rot13", "text/html; charset=undefined", "text/html; charset=zlib",
  "text/html; charset=utf-7", "text/html; charset=mbcs", "text/html; charset=hex", "text/html; charset=\"a\\b c\"", "text/html; charset=utf-16", "text/html; charset=string-escape", "application/json; charset=undefined", "application/json; charset=utf-16", "multipart/form-data",
  "multipart/form-data; boundary=", "multipart/mixed; boundary=\"\"", "multipart/byteranges; boundary=B; boundary=C", "multipart/byteranges; boundary=\"B\"", "multipart/mixed; boundary*=utf-8''%00", "multipart/mixed; boundary*0=a; boundary*1=b", "multipart/mixed; charset=foo; boundary=B",
  "application/xml", "application/xml; charset=utf-16", "text/xml; charset=x", "application/foo+xml", "application/x-www-form-urlencoded", "text/plain; charset=utf-8", "image/png", "max-age=0; includeSubDomains; max-age=", "max-age=\"99999999999999999999\"", ";;", "1000", "1000 1000", "99999999999999999999 a", "[::1]:80", "a:b:c", "@", "a@b", "5 x", "inline; filename=\"%41\"", "attachment; filename*=utf-16''%ff", "form-data; name", "attachment; filename=\"a/../b\"",
  "a, a, a", "Host, Host", "GET, get, FOO", "nosniff", "http://a/?access_token=", "null", "x y z", "a (b (c (d))) e/1", "(\\", "((((((((((a))))))))))">>
Odd == <<<<255>>, <<0>>, <<127>>, <<9>>, <<195, 169>>, <<34, 255, 34>>, <<97, 61, 255>>, <<92, 255>>, <<13>>, <<10>>, <<97, 13, 10, 98>>, <<97, 11, 98>>, <<133>>, <<160>>, <<97, 59, 98, 61, 34, 128, 34>>>>
Long == <<L("", "1", 4400, ""), L("max-age=", "1", 4400, ""), L("bytes=", "1", 4400, "-"), L("bytes 0-", "1", 4400, "/*"), L("wait=", "1", 4400, ""), L("a ", "(", 900, ""), L("a ", "(", 90, ""), L("", "a", 1500, ""), L("", ",", 600, ""), L("", ";", 600, ""), L("", "\"", 1001, ""),
  L("\"", "\\", 701, ""), L("", "a, ", 250, "a"), L("", "a;b=c, ", 150, "a"), L("", "%", 600, ""), L("", " ", 900, "x"), L("", "=", 600, ""), L("Basic ", "A", 1501, ""), L("", "[::1", 300, ""), L("\"", "a", 1500, "\""), L("a=\"", "\\\"", 800, "\""), L("http://", "a.", 900, ""), L("/", "../", 600, ""), L("en", "-aaaa", 250, ""), L("", "<a>;rel=next, ", 200, "<a>"), L("a", "/b", 800, "")>>
Texts == TLCEval([k \in 1..Len(Short) |-> T(B(Short[k]))] \o [k \in 1..Len(Odd) |-> T(Odd[k])])
Expand(t) == t.pre \o [k \in 1..(t.n * Len(t.rep)) |-> t.rep[1 + ((k - 1) % Len(t.rep))]] \o t.post

Headers == {"accept", "accept-charset", "accept-encoding", "accept-language", "accept-patch", "accept-post", "accept-ranges", "access-control-allow-credentials", "access-control-allow-headers", "access-control-allow-methods", "access-control-allow-origin", "access-control-expose-headers",
  "access-control-max-age", "access-control-request-headers", "access-control-request-method", "age", "allow", "alt-svc", "alt-used", "authorization", "cache-control", "connection", "content-disposition", "content-encoding", "content-language", "content-length", "content-location",
  "content-range", "content-type", "cross-origin-resource-policy", "date", "etag", "expect", "expires", "forwarded", "http2-settings", "httpolice-silence", "host", "if-match", "if-modified-since", "if-none-match", "if-range", "if-unmodified-since", "last-modified", "link", "location", "max-forwards",
  "origin", "pragma", "prefer", "preference-applied", "proxy-authenticate", "proxy-authorization", "range", "referer", "retry-after", "server", "strict-transport-security", "te", "trailer", "transfer-encoding", "upgrade", "user-agent", "vary", "via", "www-authenticate", "warning", "x-content-type-options",
  "cookie", "set-cookie", "x-foo", "keep-alive", "content-md5", "if", "from", "mime-version"}
Parts0 == {"method", "target", "scheme", "version", "reason", "name", "trailer", "body", "remark"}
Groups == <<{"date", "age", "expires", "cache-control", "last-modified", "warning", "retry-after", "if-modified-since"}, {"content-type", "content-encoding", "body", "content-range", "range", "content-language"},
            {"transfer-encoding", "content-length", "trailer", "te", "connection", "upgrade", "http2-settings", "version"}, {"target", "host", "location", "content-location", "referer", "scheme", "link", "method"},
            {"authorization", "www-authenticate", "target", "body", "proxy-authenticate", "cache-control"}, {"etag", "if-match", "if-none-match", "if-range", "range", "last-modified", "content-range"}, {"prefer", "preference-applied", "vary", "expect", "strict-transport-security", "alt-svc", "accept-patch", "allow"}>>
==============================================================================
