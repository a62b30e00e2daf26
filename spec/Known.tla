---------------------------- MODULE Known ----------------------------
(* Protocol knowledge, frozen from httpolice/known/*.csv of the pinned commit by tools/mkknown.py.
   Names of case-insensitive things are in lower case. *)
EXTENDS TLC

HdrKnown == TLCEval({
    "a-im", "alpn", "amp-cache-transform", "accept", "accept-additions", "accept-charset", "accept-datetime",
    "accept-encoding", "accept-features", "accept-language", "accept-patch", "accept-post", "accept-ranges",
    "access-control", "access-control-allow-credentials", "access-control-allow-headers",
    "access-control-allow-methods", "access-control-allow-origin", "access-control-expose-headers",
    "access-control-max-age", "access-control-request-headers", "access-control-request-method", "age",
    "allow", "alt-svc", "alt-used", "alternates", "apply-to-redirect-ref", "authentication-control",
    "authentication-info", "authorization", "c-ext", "c-man", "c-opt", "c-pep", "c-pep-info", "cdn-loop",
    "cache-control", "cal-managed-id", "caldav-timezones", "close", "compliance", "connection",
    "content-base", "content-disposition", "content-encoding", "content-id", "content-language",
    "content-length", "content-location", "content-md5", "content-range", "content-script-type",
    "content-style-type", "content-transfer-encoding", "content-type", "content-version", "cookie",
    "cookie2", "cost", "cross-origin-resource-policy", "dasl", "dav", "date", "default-style", "delta-base",
    "depth", "derived-from", "destination", "differential-id", "digest", "ediint-features", "etag",
    "early-data", "expect", "expires", "ext", "forwarded", "from", "getprofile", "http2-settings",
    "httpolice-silence", "hobareg", "host", "im", "if", "if-match", "if-modified-since", "if-none-match",
    "if-range", "if-schedule-tag-match", "if-unmodified-since", "include-referred-token-binding-id",
    "keep-alive", "label", "last-modified", "link", "location", "lock-token", "mime-version", "man",
    "max-forwards", "memento-datetime", "message-id", "meter", "method-check", "method-check-expires",
    "negotiate", "non-compliance", "opt", "optional", "optional-www-authenticate", "ordering-type", "origin",
    "overwrite", "p3p", "pep", "pics-label", "pep-info", "position", "pragma", "prefer",
    "preference-applied", "profileobject", "protocol", "protocol-info", "protocol-query", "protocol-request",
    "proxy-authenticate", "proxy-authentication-info", "proxy-authorization", "proxy-features",
    "proxy-instruction", "public", "public-key-pins", "public-key-pins-report-only", "range", "redirect-ref",
    "referer", "referer-root", "replay-nonce", "resolution-hint", "resolver-location", "retry-after", "slug",
    "safe", "schedule-reply", "schedule-tag", "sec-token-binding", "sec-websocket-accept",
    "sec-websocket-extensions", "sec-websocket-key", "sec-websocket-protocol", "sec-websocket-version",
    "security-scheme", "server", "set-cookie", "set-cookie2", "setprofile", "soapaction", "status-uri",
    "strict-transport-security", "subok", "subst", "sunset", "surrogate-capability", "surrogate-control",
    "tcn", "te", "ttl", "timeout", "timing-allow-origin", "title", "topic", "traceparent", "tracestate",
    "trailer", "transfer-encoding", "ua-color", "ua-media", "ua-pixels", "ua-resolution", "ua-windowpixels",
    "uri", "upgrade", "urgency", "user-agent", "variant-vary", "vary", "version", "via", "www-authenticate",
    "want-digest", "warning", "x-att-deviceid", "x-aspnet-version", "x-csrf-token", "x-csrftoken",
    "x-content-duration", "x-content-security-policy", "x-content-type-options", "x-device-accept",
    "x-device-accept-charset", "x-device-accept-encoding", "x-device-accept-language", "x-device-user-agent",
    "x-firefox-spdy", "x-forwarded-for", "x-forwarded-host", "x-forwarded-proto", "x-frame-options",
    "x-github-request-id", "x-http-method-override", "x-powered-by", "x-real-ip", "x-requested-with",
    "x-ua-compatible", "x-uidh", "x-varnish", "x-wap-profile", "x-webkit-csp", "x-xsrf-token",
    "x-xss-protection"})

HdrBadConn == TLCEval({
    "access-control-allow-credentials", "access-control-allow-headers", "access-control-allow-methods",
    "access-control-allow-origin", "access-control-expose-headers", "access-control-max-age",
    "access-control-request-headers", "access-control-request-method", "age", "authorization",
    "cache-control", "content-encoding", "content-language", "content-range", "cross-origin-resource-policy",
    "etag", "expires", "forwarded", "last-modified", "origin", "vary", "via", "www-authenticate", "warning",
    "x-content-type-options"})

HdrBadTrailer == TLCEval({
    "access-control-allow-credentials", "access-control-allow-headers", "access-control-allow-methods",
    "access-control-allow-origin", "access-control-expose-headers", "access-control-max-age",
    "access-control-request-headers", "access-control-request-method", "age", "alt-used", "authorization",
    "cache-control", "content-encoding", "content-length", "content-range", "content-type", "date", "expect",
    "expires", "host", "if", "if-match", "if-modified-since", "if-none-match", "if-range",
    "if-schedule-tag-match", "if-unmodified-since", "location", "max-forwards", "origin", "pragma",
    "proxy-authorization", "range", "retry-after", "te", "trailer", "transfer-encoding", "vary", "warning",
    "x-content-type-options"})

HdrNotForReq == TLCEval({
    "accept-patch", "accept-post", "accept-ranges", "access-control-allow-credentials",
    "access-control-allow-headers", "access-control-allow-methods", "access-control-allow-origin",
    "access-control-expose-headers", "access-control-max-age", "age", "allow", "alt-svc",
    "content-disposition", "content-range", "cross-origin-resource-policy", "etag", "expires",
    "last-modified", "location", "preference-applied", "proxy-authenticate", "retry-after", "server",
    "strict-transport-security", "vary", "www-authenticate", "x-content-type-options"})

HdrNotForResp == TLCEval({
    "accept", "accept-charset", "accept-language", "access-control-request-headers",
    "access-control-request-method", "alt-used", "authorization", "expect", "forwarded", "from",
    "http2-settings", "host", "if-match", "if-modified-since", "if-none-match", "if-range",
    "if-unmodified-since", "max-forwards", "origin", "prefer", "proxy-authorization", "range", "referer",
    "te", "user-agent"})

HdrPrecond == TLCEval({
    "if", "if-match", "if-modified-since", "if-none-match", "if-schedule-tag-match", "if-unmodified-since",
    "overwrite"})

HdrConneg == TLCEval({
    "accept", "accept-charset", "accept-encoding", "accept-language"})

HdrRepMeta == TLCEval({
    "content-disposition", "content-encoding", "content-language", "content-location", "content-type",
    "etag", "last-modified"})

HdrSingle == TLCEval({
    "access-control-allow-credentials", "access-control-allow-origin", "access-control-max-age",
    "access-control-request-method", "age", "alt-used", "authorization", "content-disposition",
    "content-length", "content-location", "content-range", "content-type", "cross-origin-resource-policy",
    "date", "etag", "expect", "expires", "from", "http2-settings", "host", "if-modified-since", "if-range",
    "if-unmodified-since", "last-modified", "location", "max-forwards", "origin", "proxy-authorization",
    "range", "referer", "retry-after", "server", "user-agent", "x-content-type-options"})

HdrMulti == TLCEval({
    "accept", "accept-charset", "accept-encoding", "accept-language", "accept-patch", "accept-post",
    "accept-ranges", "access-control-allow-headers", "access-control-allow-methods",
    "access-control-expose-headers", "access-control-request-headers", "allow", "connection",
    "content-encoding", "content-language", "httpolice-silence", "if-match", "if-none-match", "link",
    "pragma", "proxy-authenticate", "te", "trailer", "transfer-encoding", "upgrade", "vary", "via",
    "www-authenticate", "warning"})

HdrSpecial == TLCEval({
    "alt-svc", "cache-control", "forwarded", "prefer", "preference-applied", "strict-transport-security"})

HdrQuotedComma == TLCEval({
    "accept", "accept-patch", "accept-post", "forwarded", "link", "prefer", "preference-applied", "te",
    "transfer-encoding", "via", "warning"})

HdrQuotedSemi == TLCEval({
    "accept", "accept-patch", "accept-post", "content-type", "forwarded", "link", "prefer",
    "strict-transport-security", "te", "transfer-encoding"})

HdrDeprecated == TLCEval({
    "access-control", "content-base", "cookie2", "method-check", "method-check-expires", "referer-root",
    "set-cookie2"})

HdrSyntax == TLCEval({
    "accept", "accept-charset", "accept-encoding", "accept-language", "accept-patch", "accept-post",
    "accept-ranges", "access-control-allow-credentials", "access-control-allow-headers",
    "access-control-allow-methods", "access-control-allow-origin", "access-control-expose-headers",
    "access-control-max-age", "access-control-request-headers", "access-control-request-method", "age",
    "allow", "alt-svc", "alt-used", "authorization", "cache-control", "connection", "content-disposition",
    "content-encoding", "content-language", "content-length", "content-location", "content-range",
    "content-type", "cross-origin-resource-policy", "date", "etag", "expect", "expires", "forwarded",
    "http2-settings", "httpolice-silence", "host", "if-match", "if-modified-since", "if-none-match",
    "if-range", "if-unmodified-since", "last-modified", "link", "location", "max-forwards", "origin",
    "pragma", "prefer", "preference-applied", "proxy-authenticate", "proxy-authorization", "range",
    "referer", "retry-after", "server", "strict-transport-security", "te", "trailer", "transfer-encoding",
    "upgrade", "user-agent", "vary", "via", "www-authenticate", "warning", "x-content-type-options"})

MethKnown == TLCEval({
    "ACL", "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "CONNECT", "COPY", "DELETE", "GET", "HEAD",
    "LABEL", "LINK", "LOCK", "MERGE", "MKACTIVITY", "MKCALENDAR", "MKCOL", "MKREDIRECTREF", "MKWORKSPACE",
    "MOVE", "OPTIONS", "ORDERPATCH", "PATCH", "POST", "PRI", "PROPFIND", "PROPPATCH", "PUT", "REBIND",
    "REPORT", "SEARCH", "TRACE", "UNBIND", "UNCHECKOUT", "UNLINK", "UNLOCK", "UPDATE", "UPDATEREDIRECTREF",
    "VERSION-CONTROL"})

MethBody == TLCEval({
    "PATCH", "POST", "PROPFIND", "PUT"})

MethNoBody == TLCEval({
    "CONNECT", "DELETE", "GET", "HEAD", "TRACE"})

MethCacheable == TLCEval({
    "GET", "HEAD", "POST"})

MethNotCacheable == TLCEval({
    "CONNECT", "DELETE", "OPTIONS", "PATCH", "PUT", "TRACE"})

MethSafe == TLCEval({
    "GET", "HEAD", "OPTIONS", "PRI", "PROPFIND", "REPORT", "SEARCH", "TRACE"})

StNotAtAll == TLCEval({
    428, 429, 431, 511})

StNotByDefault == TLCEval({
    100, 101, 201, 202, 205, 302, 303, 307, 400, 401, 403, 406, 407, 408, 409, 411, 412, 413, 415, 416, 417,
    422, 423, 424, 426, 500, 502, 503, 504, 505, 507})

StByDefault == TLCEval({
    200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 421, 451, 501})

CcNotForReq == TLCEval({
    "immutable", "must-revalidate", "private", "proxy-revalidate", "public", "s-maxage",
    "stale-while-revalidate"})

CcNotForResp == TLCEval({
    "max-stale", "min-fresh", "only-if-cached"})

CcArgNo == TLCEval({
    "immutable", "must-revalidate", "no-store", "no-transform", "only-if-cached", "proxy-revalidate", "public"})

CcArgReq == TLCEval({
    "max-age", "min-fresh", "s-maxage", "stale-if-error", "stale-while-revalidate"})

CcToken == TLCEval({
    "max-age", "max-stale", "min-fresh", "s-maxage"})

CcQuoted == TLCEval({
    "no-cache", "private"})

CcDelta == TLCEval({
    "max-age", "max-stale", "min-fresh", "s-maxage", "stale-if-error", "stale-while-revalidate"})

CcNames == TLCEval({
    "no-cache", "private"})

MtDeprecated == TLCEval({
    "application/font-sfnt", "application/font-woff", "application/smil", "image/x-emf", "image/x-wmf",
    "message/news", "text/directory", "text/ecmascript", "text/javascript"})

MtJson == TLCEval({
    "application/json"})

MtXml == TLCEval({
    "application/xml", "text/xml"})

MtNotPatch == TLCEval({
    "application/json", "application/x-www-form-urlencoded", "application/xml", "text/event-stream",
    "text/html", "text/plain", "text/xml"})

Libraries == TLCEval({
    "Apache-HttpAsyncClient", "Apache-HttpClient", "CFNetwork", "CPython", "Dalvik", "Darwin",
    "Go-http-client", "Java", "Linux", "OpenSSL", "PHP", "PyPy", "PycURL", "Python-urllib", "Ruby",
    "android-async-http", "hyper", "libcurl", "libidn", "libsoup", "libwww-perl", "lua-http", "nghttp2",
    "okhttp", "php-requests", "python-requests", "zlib"})

HstsNo == TLCEval({
    "includesubdomains"})

HstsReq == TLCEval({
    "max-age"})

PrefNo == TLCEval({
    "respond-async"})

PrefReq == TLCEval({
    "handling", "return", "wait"})

FwdNo == TLCEval({
    })

FwdReq == TLCEval({
    "by", "for", "host", "proto"})

AltNo == TLCEval({
    })

AltReq == TLCEval({
    "ma", "persist"})

======================================================================
