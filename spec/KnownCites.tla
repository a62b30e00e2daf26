------------------------------ MODULE KnownCites ------------------------------
(* Where the known protocol items are defined, frozen from the pinned commit by tools/mkrefs.py: <<kind, name (in lower case, except methods), URL, title>>. *)
EXTENDS TLC
CiteTable == TLCEval(<<
    <<"h", "a-im", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "alpn", "https://tools.ietf.org/html/rfc7639#section-2", "RFC 7639 ? 2">>,
    <<"h", "amp-cache-transform", "https://github.com/ampproject/amphtml/blob/master/spec/amp-cache-transform.md", "">>,
    <<"h", "accept", "https://tools.ietf.org/html/rfc7231#section-5.3.2", "RFC 7231 ? 5.3.2">>,
    <<"h", "accept-additions", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "accept-charset", "https://tools.ietf.org/html/rfc7231#section-5.3.3", "RFC 7231 ? 5.3.3">>,
    <<"h", "accept-datetime", "https://tools.ietf.org/html/rfc7089", "RFC 7089">>,
    <<"h", "accept-encoding", "https://tools.ietf.org/html/rfc7231#section-5.3.4", "RFC 7231 ? 5.3.4">>,
    <<"h", "accept-features", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "accept-language", "https://tools.ietf.org/html/rfc7231#section-5.3.5", "RFC 7231 ? 5.3.5">>,
    <<"h", "accept-patch", "https://tools.ietf.org/html/rfc5789#section-3.1", "RFC 5789 ? 3.1">>,
    <<"h", "accept-post", "https://www.w3.org/TR/ldp/#header-accept-post", "W3C Linked Data Platform 1.0">>,
    <<"h", "accept-ranges", "https://tools.ietf.org/html/rfc7233#section-2.3", "RFC 7233 ? 2.3">>,
    <<"h", "access-control", "http://www.w3.org/2006/appformats/", "W3C Web Application Formats Working Group">>,
    <<"h", "access-control-allow-credentials", "https://fetch.spec.whatwg.org/#http-access-control-allow-credentials", "WHATWG Fetch">>,
    <<"h", "access-control-allow-headers", "https://fetch.spec.whatwg.org/#http-access-control-allow-headers", "WHATWG Fetch">>,
    <<"h", "access-control-allow-methods", "https://fetch.spec.whatwg.org/#http-access-control-allow-methods", "WHATWG Fetch">>,
    <<"h", "access-control-allow-origin", "https://fetch.spec.whatwg.org/#http-access-control-allow-origin", "WHATWG Fetch">>,
    <<"h", "access-control-expose-headers", "https://fetch.spec.whatwg.org/#http-access-control-expose-headers", "WHATWG Fetch">>,
    <<"h", "access-control-max-age", "https://fetch.spec.whatwg.org/#http-access-control-max-age", "WHATWG Fetch">>,
    <<"h", "access-control-request-headers", "https://fetch.spec.whatwg.org/#http-access-control-request-headers", "WHATWG Fetch">>,
    <<"h", "access-control-request-method", "https://fetch.spec.whatwg.org/#http-access-control-request-method", "WHATWG Fetch">>,
    <<"h", "age", "https://tools.ietf.org/html/rfc7234#section-5.1", "RFC 7234 ? 5.1">>,
    <<"h", "allow", "https://tools.ietf.org/html/rfc7231#section-7.4.1", "RFC 7231 ? 7.4.1">>,
    <<"h", "alt-svc", "https://tools.ietf.org/html/rfc7838#section-3", "RFC 7838 ? 3">>,
    <<"h", "alt-used", "https://tools.ietf.org/html/rfc7838#section-5", "RFC 7838 ? 5">>,
    <<"h", "alternates", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "apply-to-redirect-ref", "https://tools.ietf.org/html/rfc4437", "RFC 4437">>,
    <<"h", "authentication-control", "https://tools.ietf.org/html/rfc8053#section-4", "RFC 8053 ? 4">>,
    <<"h", "authentication-info", "https://tools.ietf.org/html/rfc7615#section-3", "RFC 7615 ? 3">>,
    <<"h", "authorization", "https://tools.ietf.org/html/rfc7235#section-4.2", "RFC 7235 ? 4.2">>,
    <<"h", "c-ext", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "c-man", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "c-opt", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "c-pep", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "c-pep-info", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "cdn-loop", "https://tools.ietf.org/html/rfc8586", "RFC 8586">>,
    <<"h", "cache-control", "https://tools.ietf.org/html/rfc7234#section-5.2", "RFC 7234 ? 5.2">>,
    <<"h", "cal-managed-id", "https://tools.ietf.org/html/rfc8607#section-5.1", "RFC 8607 ? 5.1">>,
    <<"h", "caldav-timezones", "https://tools.ietf.org/html/rfc7809#section-7.1", "RFC 7809 ? 7.1">>,
    <<"h", "close", "https://tools.ietf.org/html/rfc7230#section-8.1", "RFC 7230 ? 8.1">>,
    <<"h", "compliance", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "connection", "https://tools.ietf.org/html/rfc7230#section-6.1", "RFC 7230 ? 6.1">>,
    <<"h", "content-base", "https://tools.ietf.org/html/rfc2068", "RFC 2068">>,
    <<"h", "content-disposition", "https://tools.ietf.org/html/rfc6266#section-4", "RFC 6266 ? 4">>,
    <<"h", "content-encoding", "https://tools.ietf.org/html/rfc7231#section-3.1.2.2", "RFC 7231 ? 3.1.2.2">>,
    <<"h", "content-id", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "content-language", "https://tools.ietf.org/html/rfc7231#section-3.1.3.2", "RFC 7231 ? 3.1.3.2">>,
    <<"h", "content-length", "https://tools.ietf.org/html/rfc7230#section-3.3.2", "RFC 7230 ? 3.3.2">>,
    <<"h", "content-location", "https://tools.ietf.org/html/rfc7231#section-3.1.4.2", "RFC 7231 ? 3.1.4.2">>,
    <<"h", "content-md5", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "content-range", "https://tools.ietf.org/html/rfc7233#section-4.2", "RFC 7233 ? 4.2">>,
    <<"h", "content-script-type", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "content-style-type", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "content-transfer-encoding", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "content-type", "https://tools.ietf.org/html/rfc7231#section-3.1.1.5", "RFC 7231 ? 3.1.1.5">>,
    <<"h", "content-version", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "cookie", "https://tools.ietf.org/html/rfc6265", "RFC 6265">>,
    <<"h", "cookie2", "https://tools.ietf.org/html/rfc2965", "RFC 2965">>,
    <<"h", "cost", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "cross-origin-resource-policy", "https://fetch.spec.whatwg.org/#http-cross-origin-resource-policy", "WHATWG Fetch">>,
    <<"h", "dasl", "https://tools.ietf.org/html/rfc5323", "RFC 5323">>,
    <<"h", "dav", "https://tools.ietf.org/html/rfc4918", "RFC 4918">>,
    <<"h", "date", "https://tools.ietf.org/html/rfc7231#section-7.1.1.2", "RFC 7231 ? 7.1.1.2">>,
    <<"h", "default-style", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "delta-base", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "depth", "https://tools.ietf.org/html/rfc4918", "RFC 4918">>,
    <<"h", "derived-from", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "destination", "https://tools.ietf.org/html/rfc4918", "RFC 4918">>,
    <<"h", "differential-id", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "digest", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "ediint-features", "https://tools.ietf.org/html/rfc6017", "RFC 6017">>,
    <<"h", "etag", "https://tools.ietf.org/html/rfc7232#section-2.3", "RFC 7232 ? 2.3">>,
    <<"h", "early-data", "https://tools.ietf.org/html/rfc8470", "RFC 8470">>,
    <<"h", "expect", "https://tools.ietf.org/html/rfc7231#section-5.1.1", "RFC 7231 ? 5.1.1">>,
    <<"h", "expires", "https://tools.ietf.org/html/rfc7234#section-5.3", "RFC 7234 ? 5.3">>,
    <<"h", "ext", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "forwarded", "https://tools.ietf.org/html/rfc7239#section-4", "RFC 7239 ? 4">>,
    <<"h", "from", "https://tools.ietf.org/html/rfc7231#section-5.5.1", "RFC 7231 ? 5.5.1">>,
    <<"h", "getprofile", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "http2-settings", "https://tools.ietf.org/html/rfc7540#section-3.2.1", "RFC 7540 ? 3.2.1">>,
    <<"h", "hobareg", "https://tools.ietf.org/html/rfc7486#section-6.1.1", "RFC 7486 ? 6.1.1">>,
    <<"h", "host", "https://tools.ietf.org/html/rfc7230#section-5.4", "RFC 7230 ? 5.4">>,
    <<"h", "im", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "if", "https://tools.ietf.org/html/rfc4918#section-10.4", "RFC 4918 ? 10.4">>,
    <<"h", "if-match", "https://tools.ietf.org/html/rfc7232#section-3.1", "RFC 7232 ? 3.1">>,
    <<"h", "if-modified-since", "https://tools.ietf.org/html/rfc7232#section-3.3", "RFC 7232 ? 3.3">>,
    <<"h", "if-none-match", "https://tools.ietf.org/html/rfc7232#section-3.2", "RFC 7232 ? 3.2">>,
    <<"h", "if-range", "https://tools.ietf.org/html/rfc7233#section-3.2", "RFC 7233 ? 3.2">>,
    <<"h", "if-schedule-tag-match", "https://tools.ietf.org/html/rfc6638#section-8.3", "RFC 6638 ? 8.3">>,
    <<"h", "if-unmodified-since", "https://tools.ietf.org/html/rfc7232#section-3.4", "RFC 7232 ? 3.4">>,
    <<"h", "include-referred-token-binding-id", "https://tools.ietf.org/html/rfc8473", "RFC 8473">>,
    <<"h", "keep-alive", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "label", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "last-modified", "https://tools.ietf.org/html/rfc7232#section-2.2", "RFC 7232 ? 2.2">>,
    <<"h", "link", "https://tools.ietf.org/html/rfc8288#section-3", "RFC 8288 ? 3">>,
    <<"h", "location", "https://tools.ietf.org/html/rfc7231#section-7.1.2", "RFC 7231 ? 7.1.2">>,
    <<"h", "lock-token", "https://tools.ietf.org/html/rfc4918", "RFC 4918">>,
    <<"h", "mime-version", "https://tools.ietf.org/html/rfc7231#appendix-A.1", "RFC 7231 appendix A.1">>,
    <<"h", "man", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "max-forwards", "https://tools.ietf.org/html/rfc7231#section-5.1.2", "RFC 7231 ? 5.1.2">>,
    <<"h", "memento-datetime", "https://tools.ietf.org/html/rfc7089", "RFC 7089">>,
    <<"h", "message-id", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "meter", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "method-check", "http://www.w3.org/2006/appformats/", "W3C Web Application Formats Working Group">>,
    <<"h", "method-check-expires", "http://www.w3.org/2006/appformats/", "W3C Web Application Formats Working Group">>,
    <<"h", "negotiate", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "non-compliance", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "opt", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "optional", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "optional-www-authenticate", "https://tools.ietf.org/html/rfc8053#section-3", "RFC 8053 ? 3">>,
    <<"h", "ordering-type", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "origin", "https://fetch.spec.whatwg.org/#http-origin", "WHATWG Fetch">>,
    <<"h", "overwrite", "https://tools.ietf.org/html/rfc4918", "RFC 4918">>,
    <<"h", "p3p", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "pep", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "pics-label", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "pep-info", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "position", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "pragma", "https://tools.ietf.org/html/rfc7234#section-5.4", "RFC 7234 ? 5.4">>,
    <<"h", "prefer", "https://tools.ietf.org/html/rfc7240#section-2", "RFC 7240 ? 2">>,
    <<"h", "preference-applied", "https://tools.ietf.org/html/rfc7240#section-3", "RFC 7240 ? 3">>,
    <<"h", "profileobject", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "protocol", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "protocol-info", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "protocol-query", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "protocol-request", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "proxy-authenticate", "https://tools.ietf.org/html/rfc7235#section-4.3", "RFC 7235 ? 4.3">>,
    <<"h", "proxy-authentication-info", "https://tools.ietf.org/html/rfc7615#section-4", "RFC 7615 ? 4">>,
    <<"h", "proxy-authorization", "https://tools.ietf.org/html/rfc7235#section-4.4", "RFC 7235 ? 4.4">>,
    <<"h", "proxy-features", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "proxy-instruction", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "public", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "public-key-pins", "https://tools.ietf.org/html/rfc7469", "RFC 7469">>,
    <<"h", "public-key-pins-report-only", "https://tools.ietf.org/html/rfc7469", "RFC 7469">>,
    <<"h", "range", "https://tools.ietf.org/html/rfc7233#section-3.1", "RFC 7233 ? 3.1">>,
    <<"h", "redirect-ref", "https://tools.ietf.org/html/rfc4437", "RFC 4437">>,
    <<"h", "referer", "https://tools.ietf.org/html/rfc7231#section-5.5.2", "RFC 7231 ? 5.5.2">>,
    <<"h", "referer-root", "http://www.w3.org/2006/appformats/", "W3C Web Application Formats Working Group">>,
    <<"h", "replay-nonce", "https://tools.ietf.org/html/rfc8555#section-6.5.1", "RFC 8555 ? 6.5.1">>,
    <<"h", "resolution-hint", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "resolver-location", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "retry-after", "https://tools.ietf.org/html/rfc7231#section-7.1.3", "RFC 7231 ? 7.1.3">>,
    <<"h", "slug", "https://tools.ietf.org/html/rfc5023", "RFC 5023">>,
    <<"h", "safe", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "schedule-reply", "https://tools.ietf.org/html/rfc6638", "RFC 6638">>,
    <<"h", "schedule-tag", "https://tools.ietf.org/html/rfc6638", "RFC 6638">>,
    <<"h", "sec-token-binding", "https://tools.ietf.org/html/rfc8473", "RFC 8473">>,
    <<"h", "sec-websocket-accept", "https://tools.ietf.org/html/rfc6455", "RFC 6455">>,
    <<"h", "sec-websocket-extensions", "https://tools.ietf.org/html/rfc6455", "RFC 6455">>,
    <<"h", "sec-websocket-key", "https://tools.ietf.org/html/rfc6455", "RFC 6455">>,
    <<"h", "sec-websocket-protocol", "https://tools.ietf.org/html/rfc6455", "RFC 6455">>,
    <<"h", "sec-websocket-version", "https://tools.ietf.org/html/rfc6455", "RFC 6455">>,
    <<"h", "security-scheme", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "server", "https://tools.ietf.org/html/rfc7231#section-7.4.2", "RFC 7231 ? 7.4.2">>,
    <<"h", "set-cookie", "https://tools.ietf.org/html/rfc6265", "RFC 6265">>,
    <<"h", "set-cookie2", "https://tools.ietf.org/html/rfc2965", "RFC 2965">>,
    <<"h", "setprofile", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "soapaction", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "status-uri", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "strict-transport-security", "https://tools.ietf.org/html/rfc6797#section-6.1", "RFC 6797 ? 6.1">>,
    <<"h", "subok", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "subst", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "sunset", "https://tools.ietf.org/html/rfc8594", "RFC 8594">>,
    <<"h", "surrogate-capability", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "surrogate-control", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "tcn", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "te", "https://tools.ietf.org/html/rfc7230#section-4.3", "RFC 7230 ? 4.3">>,
    <<"h", "ttl", "https://tools.ietf.org/html/rfc8030#section-5.2", "RFC 8030 ? 5.2">>,
    <<"h", "timeout", "https://tools.ietf.org/html/rfc4918", "RFC 4918">>,
    <<"h", "timing-allow-origin", "https://www.w3.org/TR/resource-timing-1/#timing-allow-origin", "">>,
    <<"h", "title", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "topic", "https://tools.ietf.org/html/rfc8030#section-5.4", "RFC 8030 ? 5.4">>,
    <<"h", "traceparent", "https://www.w3.org/TR/trace-context/#traceparent-field", "">>,
    <<"h", "tracestate", "https://www.w3.org/TR/trace-context/#tracestate-field", "">>,
    <<"h", "trailer", "https://tools.ietf.org/html/rfc7230#section-4.4", "RFC 7230 ? 4.4">>,
    <<"h", "transfer-encoding", "https://tools.ietf.org/html/rfc7230#section-3.3.1", "RFC 7230 ? 3.3.1">>,
    <<"h", "ua-color", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "ua-media", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "ua-pixels", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "ua-resolution", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "ua-windowpixels", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "uri", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "upgrade", "https://tools.ietf.org/html/rfc7230#section-6.7", "RFC 7230 ? 6.7">>,
    <<"h", "urgency", "https://tools.ietf.org/html/rfc8030#section-5.3", "RFC 8030 ? 5.3">>,
    <<"h", "user-agent", "https://tools.ietf.org/html/rfc7231#section-5.5.3", "RFC 7231 ? 5.5.3">>,
    <<"h", "variant-vary", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "vary", "https://tools.ietf.org/html/rfc7231#section-7.1.4", "RFC 7231 ? 7.1.4">>,
    <<"h", "version", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "via", "https://tools.ietf.org/html/rfc7230#section-5.7.1", "RFC 7230 ? 5.7.1">>,
    <<"h", "www-authenticate", "https://tools.ietf.org/html/rfc7235#section-4.1", "RFC 7235 ? 4.1">>,
    <<"h", "want-digest", "https://tools.ietf.org/html/rfc4229", "RFC 4229">>,
    <<"h", "warning", "https://tools.ietf.org/html/rfc7234#section-5.5", "RFC 7234 ? 5.5">>,
    <<"h", "x-content-type-options", "https://fetch.spec.whatwg.org/#x-content-type-options-header", "WHATWG Fetch">>,
    <<"h", "x-device-accept", "http://www.w3.org/2005/MWI/BPWG/", "W3C Mobile Web Best Practices Working Group">>,
    <<"h", "x-device-accept-charset", "http://www.w3.org/2005/MWI/BPWG/", "W3C Mobile Web Best Practices Working Group">>,
    <<"h", "x-device-accept-encoding", "http://www.w3.org/2005/MWI/BPWG/", "W3C Mobile Web Best Practices Working Group">>,
    <<"h", "x-device-accept-language", "http://www.w3.org/2005/MWI/BPWG/", "W3C Mobile Web Best Practices Working Group">>,
    <<"h", "x-device-user-agent", "http://www.w3.org/2005/MWI/BPWG/", "W3C Mobile Web Best Practices Working Group">>,
    <<"h", "x-frame-options", "https://tools.ietf.org/html/rfc7034", "RFC 7034">>,
    <<"m", "ACL", "https://tools.ietf.org/html/rfc3744#section-8.1", "RFC 3744 ? 8.1">>,
    <<"m", "BASELINE-CONTROL", "https://tools.ietf.org/html/rfc3253#section-12.6", "RFC 3253 ? 12.6">>,
    <<"m", "BIND", "https://tools.ietf.org/html/rfc5842#section-4", "RFC 5842 ? 4">>,
    <<"m", "CHECKIN", "https://tools.ietf.org/html/rfc3253#section-4.4", "RFC 3253 ? 4.4">>,
    <<"m", "CHECKOUT", "https://tools.ietf.org/html/rfc3253#section-4.3", "RFC 3253 ? 4.3">>,
    <<"m", "CONNECT", "https://tools.ietf.org/html/rfc7231#section-4.3.6", "RFC 7231 ? 4.3.6">>,
    <<"m", "COPY", "https://tools.ietf.org/html/rfc4918#section-9.8", "RFC 4918 ? 9.8">>,
    <<"m", "DELETE", "https://tools.ietf.org/html/rfc7231#section-4.3.5", "RFC 7231 ? 4.3.5">>,
    <<"m", "GET", "https://tools.ietf.org/html/rfc7231#section-4.3.1", "RFC 7231 ? 4.3.1">>,
    <<"m", "HEAD", "https://tools.ietf.org/html/rfc7231#section-4.3.2", "RFC 7231 ? 4.3.2">>,
    <<"m", "LABEL", "https://tools.ietf.org/html/rfc3253#section-8.2", "RFC 3253 ? 8.2">>,
    <<"m", "LINK", "https://tools.ietf.org/html/rfc2068#section-19.6.1.2", "RFC 2068 ? 19.6.1.2">>,
    <<"m", "LOCK", "https://tools.ietf.org/html/rfc4918#section-9.10", "RFC 4918 ? 9.10">>,
    <<"m", "MERGE", "https://tools.ietf.org/html/rfc3253#section-11.2", "RFC 3253 ? 11.2">>,
    <<"m", "MKACTIVITY", "https://tools.ietf.org/html/rfc3253#section-13.5", "RFC 3253 ? 13.5">>,
    <<"m", "MKCALENDAR", "https://tools.ietf.org/html/rfc4791#section-5.3.1", "RFC 4791 ? 5.3.1">>,
    <<"m", "MKCOL", "https://tools.ietf.org/html/rfc4918#section-9.3", "RFC 4918 ? 9.3">>,
    <<"m", "MKREDIRECTREF", "https://tools.ietf.org/html/rfc4437#section-6", "RFC 4437 ? 6">>,
    <<"m", "MKWORKSPACE", "https://tools.ietf.org/html/rfc3253#section-6.3", "RFC 3253 ? 6.3">>,
    <<"m", "MOVE", "https://tools.ietf.org/html/rfc4918#section-9.9", "RFC 4918 ? 9.9">>,
    <<"m", "OPTIONS", "https://tools.ietf.org/html/rfc7231#section-4.3.7", "RFC 7231 ? 4.3.7">>,
    <<"m", "ORDERPATCH", "https://tools.ietf.org/html/rfc3648#section-7", "RFC 3648 ? 7">>,
    <<"m", "PATCH", "https://tools.ietf.org/html/rfc5789#section-2", "RFC 5789 ? 2">>,
    <<"m", "POST", "https://tools.ietf.org/html/rfc7231#section-4.3.3", "RFC 7231 ? 4.3.3">>,
    <<"m", "PRI", "https://tools.ietf.org/html/rfc7540#section-3.5", "RFC 7540 ? 3.5">>,
    <<"m", "PROPFIND", "https://tools.ietf.org/html/rfc4918#section-9.1", "RFC 4918 ? 9.1">>,
    <<"m", "PROPPATCH", "https://tools.ietf.org/html/rfc4918#section-9.2", "RFC 4918 ? 9.2">>,
    <<"m", "PUT", "https://tools.ietf.org/html/rfc7231#section-4.3.4", "RFC 7231 ? 4.3.4">>,
    <<"m", "REBIND", "https://tools.ietf.org/html/rfc5842#section-6", "RFC 5842 ? 6">>,
    <<"m", "REPORT", "https://tools.ietf.org/html/rfc3253#section-3.6", "RFC 3253 ? 3.6">>,
    <<"m", "SEARCH", "https://tools.ietf.org/html/rfc5323#section-2", "RFC 5323 ? 2">>,
    <<"m", "TRACE", "https://tools.ietf.org/html/rfc7231#section-4.3.8", "RFC 7231 ? 4.3.8">>,
    <<"m", "UNBIND", "https://tools.ietf.org/html/rfc5842#section-5", "RFC 5842 ? 5">>,
    <<"m", "UNCHECKOUT", "https://tools.ietf.org/html/rfc3253#section-4.5", "RFC 3253 ? 4.5">>,
    <<"m", "UNLINK", "https://tools.ietf.org/html/rfc2068#section-19.6.1.3", "RFC 2068 ? 19.6.1.3">>,
    <<"m", "UNLOCK", "https://tools.ietf.org/html/rfc4918#section-9.11", "RFC 4918 ? 9.11">>,
    <<"m", "UPDATE", "https://tools.ietf.org/html/rfc3253#section-7.1", "RFC 3253 ? 7.1">>,
    <<"m", "UPDATEREDIRECTREF", "https://tools.ietf.org/html/rfc4437#section-7", "RFC 4437 ? 7">>,
    <<"m", "VERSION-CONTROL", "https://tools.ietf.org/html/rfc3253#section-3.5", "RFC 3253 ? 3.5">>,
    <<"st", "100", "https://tools.ietf.org/html/rfc7231#section-6.2.1", "Continue (RFC 7231 ? 6.2.1)">>,
    <<"st", "101", "https://tools.ietf.org/html/rfc7231#section-6.2.2", "Switching Protocols (RFC 7231 ? 6.2.2)">>,
    <<"st", "102", "https://tools.ietf.org/html/rfc2518", "Processing (RFC 2518)">>,
    <<"st", "103", "https://tools.ietf.org/html/rfc8297", "Early Hints (RFC 8297)">>,
    <<"st", "200", "https://tools.ietf.org/html/rfc7231#section-6.3.1", "OK (RFC 7231 ? 6.3.1)">>,
    <<"st", "201", "https://tools.ietf.org/html/rfc7231#section-6.3.2", "Created (RFC 7231 ? 6.3.2)">>,
    <<"st", "202", "https://tools.ietf.org/html/rfc7231#section-6.3.3", "Accepted (RFC 7231 ? 6.3.3)">>,
    <<"st", "203", "https://tools.ietf.org/html/rfc7231#section-6.3.4", "Non-Authoritative Information (RFC 7231 ? 6.3.4)">>,
    <<"st", "204", "https://tools.ietf.org/html/rfc7231#section-6.3.5", "No Content (RFC 7231 ? 6.3.5)">>,
    <<"st", "205", "https://tools.ietf.org/html/rfc7231#section-6.3.6", "Reset Content (RFC 7231 ? 6.3.6)">>,
    <<"st", "206", "https://tools.ietf.org/html/rfc7233#section-4.1", "Partial Content (RFC 7233 ? 4.1)">>,
    <<"st", "207", "https://tools.ietf.org/html/rfc4918", "Multi-Status (RFC 4918)">>,
    <<"st", "208", "https://tools.ietf.org/html/rfc5842", "Already Reported (RFC 5842)">>,
    <<"st", "226", "https://tools.ietf.org/html/rfc3229", "IM Used (RFC 3229)">>,
    <<"st", "300", "https://tools.ietf.org/html/rfc7231#section-6.4.1", "Multiple Choices (RFC 7231 ? 6.4.1)">>,
    <<"st", "301", "https://tools.ietf.org/html/rfc7231#section-6.4.2", "Moved Permanently (RFC 7231 ? 6.4.2)">>,
    <<"st", "302", "https://tools.ietf.org/html/rfc7231#section-6.4.3", "Found (RFC 7231 ? 6.4.3)">>,
    <<"st", "303", "https://tools.ietf.org/html/rfc7231#section-6.4.4", "See Other (RFC 7231 ? 6.4.4)">>,
    <<"st", "304", "https://tools.ietf.org/html/rfc7232#section-4.1", "Not Modified (RFC 7232 ? 4.1)">>,
    <<"st", "305", "https://tools.ietf.org/html/rfc7231#section-6.4.5", "Use Proxy (RFC 7231 ? 6.4.5)">>,
    <<"st", "306", "https://tools.ietf.org/html/rfc7231#section-6.4.6", "(Unused) (RFC 7231 ? 6.4.6)">>,
    <<"st", "307", "https://tools.ietf.org/html/rfc7231#section-6.4.7", "Temporary Redirect (RFC 7231 ? 6.4.7)">>,
    <<"st", "308", "https://tools.ietf.org/html/rfc7538#section-3", "Permanent Redirect (RFC 7538 ? 3)">>,
    <<"st", "400", "https://tools.ietf.org/html/rfc7231#section-6.5.1", "Bad Request (RFC 7231 ? 6.5.1)">>,
    <<"st", "401", "https://tools.ietf.org/html/rfc7235#section-3.1", "Unauthorized (RFC 7235 ? 3.1)">>,
    <<"st", "402", "https://tools.ietf.org/html/rfc7231#section-6.5.2", "Payment Required (RFC 7231 ? 6.5.2)">>,
    <<"st", "403", "https://tools.ietf.org/html/rfc7231#section-6.5.3", "Forbidden (RFC 7231 ? 6.5.3)">>,
    <<"st", "404", "https://tools.ietf.org/html/rfc7231#section-6.5.4", "Not Found (RFC 7231 ? 6.5.4)">>,
    <<"st", "405", "https://tools.ietf.org/html/rfc7231#section-6.5.5", "Method Not Allowed (RFC 7231 ? 6.5.5)">>,
    <<"st", "406", "https://tools.ietf.org/html/rfc7231#section-6.5.6", "Not Acceptable (RFC 7231 ? 6.5.6)">>,
    <<"st", "407", "https://tools.ietf.org/html/rfc7235#section-3.2", "Proxy Authentication Required (RFC 7235 ? 3.2)">>,
    <<"st", "408", "https://tools.ietf.org/html/rfc7231#section-6.5.7", "Request Timeout (RFC 7231 ? 6.5.7)">>,
    <<"st", "409", "https://tools.ietf.org/html/rfc7231#section-6.5.8", "Conflict (RFC 7231 ? 6.5.8)">>,
    <<"st", "410", "https://tools.ietf.org/html/rfc7231#section-6.5.9", "Gone (RFC 7231 ? 6.5.9)">>,
    <<"st", "411", "https://tools.ietf.org/html/rfc7231#section-6.5.10", "Length Required (RFC 7231 ? 6.5.10)">>,
    <<"st", "412", "https://tools.ietf.org/html/rfc7232#section-4.2", "Precondition Failed (RFC 7232 ? 4.2)">>,
    <<"st", "413", "https://tools.ietf.org/html/rfc7231#section-6.5.11", "Payload Too Large (RFC 7231 ? 6.5.11)">>,
    <<"st", "414", "https://tools.ietf.org/html/rfc7231#section-6.5.12", "URI Too Long (RFC 7231 ? 6.5.12)">>,
    <<"st", "415", "https://tools.ietf.org/html/rfc7231#section-6.5.13", "Unsupported Media Type (RFC 7231 ? 6.5.13)">>,
    <<"st", "416", "https://tools.ietf.org/html/rfc7233#section-4.4", "Range Not Satisfiable (RFC 7233 ? 4.4)">>,
    <<"st", "417", "https://tools.ietf.org/html/rfc7231#section-6.5.14", "Expectation Failed (RFC 7231 ? 6.5.14)">>,
    <<"st", "421", "https://tools.ietf.org/html/rfc7540#section-9.1.2", "Misdirected Request (RFC 7540 ? 9.1.2)">>,
    <<"st", "422", "https://tools.ietf.org/html/rfc4918#section-11.2", "Unprocessable Entity (RFC 4918 ? 11.2)">>,
    <<"st", "423", "https://tools.ietf.org/html/rfc4918#section-11.3", "Locked (RFC 4918 ? 11.3)">>,
    <<"st", "424", "https://tools.ietf.org/html/rfc4918#section-11.4", "Failed Dependency (RFC 4918 ? 11.4)">>,
    <<"st", "425", "https://tools.ietf.org/html/rfc8470", "Too Early (RFC 8470)">>,
    <<"st", "426", "https://tools.ietf.org/html/rfc7231#section-6.5.15", "Upgrade Required (RFC 7231 ? 6.5.15)">>,
    <<"st", "428", "https://tools.ietf.org/html/rfc6585#section-3", "Precondition Required (RFC 6585 ? 3)">>,
    <<"st", "429", "https://tools.ietf.org/html/rfc6585#section-4", "Too Many Requests (RFC 6585 ? 4)">>,
    <<"st", "431", "https://tools.ietf.org/html/rfc6585#section-5", "Request Header Fields Too Large (RFC 6585 ? 5)">>,
    <<"st", "451", "https://tools.ietf.org/html/rfc7725#section-3", "Unavailable For Legal Reasons (RFC 7725 ? 3)">>,
    <<"st", "500", "https://tools.ietf.org/html/rfc7231#section-6.6.1", "Internal Server Error (RFC 7231 ? 6.6.1)">>,
    <<"st", "501", "https://tools.ietf.org/html/rfc7231#section-6.6.2", "Not Implemented (RFC 7231 ? 6.6.2)">>,
    <<"st", "502", "https://tools.ietf.org/html/rfc7231#section-6.6.3", "Bad Gateway (RFC 7231 ? 6.6.3)">>,
    <<"st", "503", "https://tools.ietf.org/html/rfc7231#section-6.6.4", "Service Unavailable (RFC 7231 ? 6.6.4)">>,
    <<"st", "504", "https://tools.ietf.org/html/rfc7231#section-6.6.5", "Gateway Timeout (RFC 7231 ? 6.6.5)">>,
    <<"st", "505", "https://tools.ietf.org/html/rfc7231#section-6.6.6", "HTTP Version Not Supported (RFC 7231 ? 6.6.6)">>,
    <<"st", "506", "https://tools.ietf.org/html/rfc2295", "Variant Also Negotiates (RFC 2295)">>,
    <<"st", "507", "https://tools.ietf.org/html/rfc4918#section-11.5", "Insufficient Storage (RFC 4918 ? 11.5)">>,
    <<"st", "508", "https://tools.ietf.org/html/rfc5842", "Loop Detected (RFC 5842)">>,
    <<"st", "510", "https://tools.ietf.org/html/rfc2774", "Not Extended (RFC 2774)">>,
    <<"st", "511", "https://tools.ietf.org/html/rfc6585#section-6", "Network Authentication Required (RFC 6585 ? 6)">>,
    <<"cache", "immutable", "https://tools.ietf.org/html/rfc8246", "RFC 8246">>,
    <<"cache", "max-age", "https://tools.ietf.org/html/rfc7234#section-5.2", "RFC 7234 ? 5.2">>,
    <<"cache", "max-stale", "https://tools.ietf.org/html/rfc7234#section-5.2.1.2", "RFC 7234 ? 5.2.1.2">>,
    <<"cache", "min-fresh", "https://tools.ietf.org/html/rfc7234#section-5.2.1.3", "RFC 7234 ? 5.2.1.3">>,
    <<"cache", "must-revalidate", "https://tools.ietf.org/html/rfc7234#section-5.2.2.1", "RFC 7234 ? 5.2.2.1">>,
    <<"cache", "no-cache", "https://tools.ietf.org/html/rfc7234#section-5.2", "RFC 7234 ? 5.2">>,
    <<"cache", "no-store", "https://tools.ietf.org/html/rfc7234#section-5.2", "RFC 7234 ? 5.2">>,
    <<"cache", "no-transform", "https://tools.ietf.org/html/rfc7234#section-5.2", "RFC 7234 ? 5.2">>,
    <<"cache", "only-if-cached", "https://tools.ietf.org/html/rfc7234#section-5.2.1.7", "RFC 7234 ? 5.2.1.7">>,
    <<"cache", "private", "https://tools.ietf.org/html/rfc7234#section-5.2.2.6", "RFC 7234 ? 5.2.2.6">>,
    <<"cache", "proxy-revalidate", "https://tools.ietf.org/html/rfc7234#section-5.2.2.7", "RFC 7234 ? 5.2.2.7">>,
    <<"cache", "public", "https://tools.ietf.org/html/rfc7234#section-5.2.2.5", "RFC 7234 ? 5.2.2.5">>,
    <<"cache", "s-maxage", "https://tools.ietf.org/html/rfc7234#section-5.2.2.9", "RFC 7234 ? 5.2.2.9">>,
    <<"cache", "stale-if-error", "https://tools.ietf.org/html/rfc5861#section-4", "RFC 5861 ? 4">>,
    <<"cache", "stale-while-revalidate", "https://tools.ietf.org/html/rfc5861#section-3", "RFC 5861 ? 3">>,
    <<"forwarded", "by", "https://tools.ietf.org/html/rfc7239#section-5.1", "RFC 7239 ? 5.1">>,
    <<"forwarded", "for", "https://tools.ietf.org/html/rfc7239#section-5.2", "RFC 7239 ? 5.2">>,
    <<"forwarded", "host", "https://tools.ietf.org/html/rfc7239#section-5.3", "RFC 7239 ? 5.3">>,
    <<"forwarded", "proto", "https://tools.ietf.org/html/rfc7239#section-5.4", "RFC 7239 ? 5.4">>,
    <<"media", "application/1d-interleaved-parityfec", "https://tools.ietf.org/html/rfc6015", "RFC 6015">>,
    <<"media", "application/alto-costmap+json", "https://tools.ietf.org/html/rfc7285", "RFC 7285">>,
    <<"media", "application/alto-costmapfilter+json", "https://tools.ietf.org/html/rfc7285", "RFC 7285">>,
    <<"media", "application/alto-directory+json", "https://tools.ietf.org/html/rfc7285", "RFC 7285">>,
    <<"media", "application/alto-endpointcost+json", "https://tools.ietf.org/html/rfc7285", "RFC 7285">>,
    <<"media", "application/alto-endpointcostparams+json", "https://tools.ietf.org/html/rfc7285", "RFC 7285">>,
    <<"media", "application/alto-endpointprop+json", "https://tools.ietf.org/html/rfc7285", "RFC 7285">>,
    <<"media", "application/alto-endpointpropparams+json", "https://tools.ietf.org/html/rfc7285", "RFC 7285">>,
    <<"media", "application/alto-error+json", "https://tools.ietf.org/html/rfc7285", "RFC 7285">>,
    <<"media", "application/alto-networkmap+json", "https://tools.ietf.org/html/rfc7285", "RFC 7285">>,
    <<"media", "application/alto-networkmapfilter+json", "https://tools.ietf.org/html/rfc7285", "RFC 7285">>,
    <<"media", "application/atom+xml", "https://tools.ietf.org/html/rfc4287", "RFC 4287">>,
    <<"media", "application/atomcat+xml", "https://tools.ietf.org/html/rfc5023", "RFC 5023">>,
    <<"media", "application/atomdeleted+xml", "https://tools.ietf.org/html/rfc6721", "RFC 6721">>,
    <<"media", "application/atomsvc+xml", "https://tools.ietf.org/html/rfc5023", "RFC 5023">>,
    <<"media", "application/auth-policy+xml", "https://tools.ietf.org/html/rfc4745", "RFC 4745">>,
    <<"media", "application/batch-smtp", "https://tools.ietf.org/html/rfc2442", "RFC 2442">>,
    <<"media", "application/beep+xml", "https://tools.ietf.org/html/rfc3080", "RFC 3080">>,
    <<"media", "application/calendar+json", "https://tools.ietf.org/html/rfc7265", "RFC 7265">>,
    <<"media", "application/calendar+xml", "https://tools.ietf.org/html/rfc6321", "RFC 6321">>,
    <<"media", "application/call-completion", "https://tools.ietf.org/html/rfc6910", "RFC 6910">>,
    <<"media", "application/cals-1840", "https://tools.ietf.org/html/rfc1895", "RFC 1895">>,
    <<"media", "application/cbor", "https://tools.ietf.org/html/rfc7049", "RFC 7049">>,
    <<"media", "application/ccmp+xml", "https://tools.ietf.org/html/rfc6503", "RFC 6503">>,
    <<"media", "application/ccxml+xml", "https://tools.ietf.org/html/rfc4267", "RFC 4267">>,
    <<"media", "application/cdmi-capability", "https://tools.ietf.org/html/rfc6208", "RFC 6208">>,
    <<"media", "application/cdmi-container", "https://tools.ietf.org/html/rfc6208", "RFC 6208">>,
    <<"media", "application/cdmi-domain", "https://tools.ietf.org/html/rfc6208", "RFC 6208">>,
    <<"media", "application/cdmi-object", "https://tools.ietf.org/html/rfc6208", "RFC 6208">>,
    <<"media", "application/cdmi-queue", "https://tools.ietf.org/html/rfc6208", "RFC 6208">>,
    <<"media", "application/cdni", "https://tools.ietf.org/html/rfc7736", "RFC 7736">>,
    <<"media", "application/cellml+xml", "https://tools.ietf.org/html/rfc4708", "RFC 4708">>,
    <<"media", "application/cfw", "https://tools.ietf.org/html/rfc6230", "RFC 6230">>,
    <<"media", "application/cms", "https://tools.ietf.org/html/rfc7193", "RFC 7193">>,
    <<"media", "application/cnrp+xml", "https://tools.ietf.org/html/rfc3367", "RFC 3367">>,
    <<"media", "application/coap-group+json", "https://tools.ietf.org/html/rfc7390", "RFC 7390">>,
    <<"media", "application/coap-payload", "https://tools.ietf.org/html/rfc8075", "RFC 8075">>,
    <<"media", "application/conference-info+xml", "https://tools.ietf.org/html/rfc4575", "RFC 4575">>,
    <<"media", "application/cose", "https://tools.ietf.org/html/rfc8152", "RFC 8152">>,
    <<"media", "application/cose-key", "https://tools.ietf.org/html/rfc8152", "RFC 8152">>,
    <<"media", "application/cose-key-set", "https://tools.ietf.org/html/rfc8152", "RFC 8152">>,
    <<"media", "application/cpl+xml", "https://tools.ietf.org/html/rfc3880", "RFC 3880">>,
    <<"media", "application/csrattrs", "https://tools.ietf.org/html/rfc7030", "RFC 7030">>,
    <<"media", "application/cwt", "https://tools.ietf.org/html/rfc8392", "RFC 8392">>,
    <<"media", "application/davmount+xml", "https://tools.ietf.org/html/rfc4709", "RFC 4709">>,
    <<"media", "application/dialog-info+xml", "https://tools.ietf.org/html/rfc4235", "RFC 4235">>,
    <<"media", "application/dicom", "https://tools.ietf.org/html/rfc3240", "RFC 3240">>,
    <<"media", "application/dns", "https://tools.ietf.org/html/rfc4027", "RFC 4027">>,
    <<"media", "application/dns+json", "https://tools.ietf.org/html/rfc8427", "RFC 8427">>,
    <<"media", "application/dns-message", "https://tools.ietf.org/html/rfc8484", "RFC 8484">>,
    <<"media", "application/dskpp+xml", "https://tools.ietf.org/html/rfc6063", "RFC 6063">>,
    <<"media", "application/dssc+der", "https://tools.ietf.org/html/rfc5698", "RFC 5698">>,
    <<"media", "application/dssc+xml", "https://tools.ietf.org/html/rfc5698", "RFC 5698">>,
    <<"media", "application/dvcs", "https://tools.ietf.org/html/rfc3029", "RFC 3029">>,
    <<"media", "application/ecmascript", "https://tools.ietf.org/html/rfc4329", "RFC 4329">>,
    <<"media", "application/edi-consent", "https://tools.ietf.org/html/rfc1767", "RFC 1767">>,
    <<"media", "application/edi-x12", "https://tools.ietf.org/html/rfc1767", "RFC 1767">>,
    <<"media", "application/edifact", "https://tools.ietf.org/html/rfc1767", "RFC 1767">>,
    <<"media", "application/emergencycalldata.comment+xml", "https://tools.ietf.org/html/rfc7852", "RFC 7852">>,
    <<"media", "application/emergencycalldata.control+xml", "https://tools.ietf.org/html/rfc8147", "RFC 8147">>,
    <<"media", "application/emergencycalldata.deviceinfo+xml", "https://tools.ietf.org/html/rfc7852", "RFC 7852">>,
    <<"media", "application/emergencycalldata.ecall.msd", "https://tools.ietf.org/html/rfc8147", "RFC 8147">>,
    <<"media", "application/emergencycalldata.providerinfo+xml", "https://tools.ietf.org/html/rfc7852", "RFC 7852">>,
    <<"media", "application/emergencycalldata.serviceinfo+xml", "https://tools.ietf.org/html/rfc7852", "RFC 7852">>,
    <<"media", "application/emergencycalldata.subscriberinfo+xml", "https://tools.ietf.org/html/rfc7852", "RFC 7852">>,
    <<"media", "application/emergencycalldata.veds+xml", "https://tools.ietf.org/html/rfc8148", "RFC 8148">>,
    <<"media", "application/emma+xml", "http://www.w3.org/TR/2007/CR-emma-20071211/#media-type-registration", "">>,
    <<"media", "application/encaprtp", "https://tools.ietf.org/html/rfc6849", "RFC 6849">>,
    <<"media", "application/epp+xml", "https://tools.ietf.org/html/rfc5730", "RFC 5730">>,
    <<"media", "application/example", "https://tools.ietf.org/html/rfc4735", "RFC 4735">>,
    <<"media", "application/exi", "http://www.w3.org/TR/2009/CR-exi-20091208/#mediaTypeRegistration", "">>,
    <<"media", "application/fdt+xml", "https://tools.ietf.org/html/rfc6726", "RFC 6726">>,
    <<"media", "application/fits", "https://tools.ietf.org/html/rfc4047", "RFC 4047">>,
    <<"media", "application/font-sfnt", "https://tools.ietf.org/html/rfc8081", "RFC 8081">>,
    <<"media", "application/font-tdpfr", "https://tools.ietf.org/html/rfc3073", "RFC 3073">>,
    <<"media", "application/font-woff", "https://tools.ietf.org/html/rfc8081", "RFC 8081">>,
    <<"media", "application/framework-attributes+xml", "https://tools.ietf.org/html/rfc6230", "RFC 6230">>,
    <<"media", "application/geo+json", "https://tools.ietf.org/html/rfc7946", "RFC 7946">>,
    <<"media", "application/geo+json-seq", "https://tools.ietf.org/html/rfc8142", "RFC 8142">>,
    <<"media", "application/gzip", "https://tools.ietf.org/html/rfc6713", "RFC 6713">>,
    <<"media", "application/h224", "https://tools.ietf.org/html/rfc4573", "RFC 4573">>,
    <<"media", "application/held+xml", "https://tools.ietf.org/html/rfc5985", "RFC 5985">>,
    <<"media", "application/http", "https://tools.ietf.org/html/rfc7230", "RFC 7230">>,
    <<"media", "application/ibe-key-request+xml", "https://tools.ietf.org/html/rfc5408", "RFC 5408">>,
    <<"media", "application/ibe-pkg-reply+xml", "https://tools.ietf.org/html/rfc5408", "RFC 5408">>,
    <<"media", "application/ibe-pp-data", "https://tools.ietf.org/html/rfc5408", "RFC 5408">>,
    <<"media", "application/im-iscomposing+xml", "https://tools.ietf.org/html/rfc3994", "RFC 3994">>,
    <<"media", "application/index", "https://tools.ietf.org/html/rfc2652", "RFC 2652">>,
    <<"media", "application/index.cmd", "https://tools.ietf.org/html/rfc2652", "RFC 2652">>,
    <<"media", "application/index.obj", "https://tools.ietf.org/html/rfc2652", "RFC 2652">>,
    <<"media", "application/index.response", "https://tools.ietf.org/html/rfc2652", "RFC 2652">>,
    <<"media", "application/index.vnd", "https://tools.ietf.org/html/rfc2652", "RFC 2652">>,
    <<"media", "application/iotp", "https://tools.ietf.org/html/rfc2935", "RFC 2935">>,
    <<"media", "application/ipfix", "https://tools.ietf.org/html/rfc5655", "RFC 5655">>,
    <<"media", "application/ipp", "https://tools.ietf.org/html/rfc8010", "RFC 8010">>,
    <<"media", "application/isup", "https://tools.ietf.org/html/rfc3204", "RFC 3204">>,
    <<"media", "application/javascript", "https://tools.ietf.org/html/rfc4329", "RFC 4329">>,
    <<"media", "application/jose", "https://tools.ietf.org/html/rfc7515", "RFC 7515">>,
    <<"media", "application/jose+json", "https://tools.ietf.org/html/rfc7515", "RFC 7515">>,
    <<"media", "application/jrd+json", "https://tools.ietf.org/html/rfc7033", "RFC 7033">>,
    <<"media", "application/json", "https://tools.ietf.org/html/rfc8259", "RFC 8259">>,
    <<"media", "application/json-patch+json", "https://tools.ietf.org/html/rfc6902", "RFC 6902">>,
    <<"media", "application/json-seq", "https://tools.ietf.org/html/rfc7464", "RFC 7464">>,
    <<"media", "application/jwk+json", "https://tools.ietf.org/html/rfc7517", "RFC 7517">>,
    <<"media", "application/jwk-set+json", "https://tools.ietf.org/html/rfc7517", "RFC 7517">>,
    <<"media", "application/jwt", "https://tools.ietf.org/html/rfc7519", "RFC 7519">>,
    <<"media", "application/kpml-request+xml", "https://tools.ietf.org/html/rfc4730", "RFC 4730">>,
    <<"media", "application/kpml-response+xml", "https://tools.ietf.org/html/rfc4730", "RFC 4730">>,
    <<"media", "application/lgr+xml", "https://tools.ietf.org/html/rfc7940", "RFC 7940">>,
    <<"media", "application/link-format", "https://tools.ietf.org/html/rfc6690", "RFC 6690">>,
    <<"media", "application/load-control+xml", "https://tools.ietf.org/html/rfc7200", "RFC 7200">>,
    <<"media", "application/lost+xml", "https://tools.ietf.org/html/rfc5222", "RFC 5222">>,
    <<"media", "application/lostsync+xml", "https://tools.ietf.org/html/rfc6739", "RFC 6739">>,
    <<"media", "application/mads+xml", "https://tools.ietf.org/html/rfc6207", "RFC 6207">>,
    <<"media", "application/marc", "https://tools.ietf.org/html/rfc2220", "RFC 2220">>,
    <<"media", "application/marcxml+xml", "https://tools.ietf.org/html/rfc6207", "RFC 6207">>,
    <<"media", "application/mathml+xml", "http://www.w3.org/TR/MathML3/appendixb.html", "">>,
    <<"media", "application/mathml-content+xml", "http://www.w3.org/TR/MathML3/appendixb.html", "">>,
    <<"media", "application/mathml-presentation+xml", "http://www.w3.org/TR/MathML3/appendixb.html", "">>,
    <<"media", "application/mbox", "https://tools.ietf.org/html/rfc4155", "RFC 4155">>,
    <<"media", "application/media-policy-dataset+xml", "https://tools.ietf.org/html/rfc6796", "RFC 6796">>,
    <<"media", "application/media_control+xml", "https://tools.ietf.org/html/rfc5168", "RFC 5168">>,
    <<"media", "application/mediaservercontrol+xml", "https://tools.ietf.org/html/rfc5022", "RFC 5022">>,
    <<"media", "application/merge-patch+json", "https://tools.ietf.org/html/rfc7396", "RFC 7396">>,
    <<"media", "application/metalink4+xml", "https://tools.ietf.org/html/rfc5854", "RFC 5854">>,
    <<"media", "application/mets+xml", "https://tools.ietf.org/html/rfc6207", "RFC 6207">>,
    <<"media", "application/mikey", "https://tools.ietf.org/html/rfc3830", "RFC 3830">>,
    <<"media", "application/mods+xml", "https://tools.ietf.org/html/rfc6207", "RFC 6207">>,
    <<"media", "application/moss-keys", "https://tools.ietf.org/html/rfc1848", "RFC 1848">>,
    <<"media", "application/moss-signature", "https://tools.ietf.org/html/rfc1848", "RFC 1848">>,
    <<"media", "application/mosskey-data", "https://tools.ietf.org/html/rfc1848", "RFC 1848">>,
    <<"media", "application/mosskey-request", "https://tools.ietf.org/html/rfc1848", "RFC 1848">>,
    <<"media", "application/mp21", "https://tools.ietf.org/html/rfc6381", "RFC 6381">>,
    <<"media", "application/mp4", "https://tools.ietf.org/html/rfc4337", "RFC 4337">>,
    <<"media", "application/mpeg4-generic", "https://tools.ietf.org/html/rfc3640", "RFC 3640">>,
    <<"media", "application/mpeg4-iod", "https://tools.ietf.org/html/rfc4337", "RFC 4337">>,
    <<"media", "application/mpeg4-iod-xmt", "https://tools.ietf.org/html/rfc4337", "RFC 4337">>,
    <<"media", "application/mrb-consumer+xml", "https://tools.ietf.org/html/rfc6917", "RFC 6917">>,
    <<"media", "application/mrb-publish+xml", "https://tools.ietf.org/html/rfc6917", "RFC 6917">>,
    <<"media", "application/msc-ivr+xml", "https://tools.ietf.org/html/rfc6231", "RFC 6231">>,
    <<"media", "application/msc-mixer+xml", "https://tools.ietf.org/html/rfc6505", "RFC 6505">>,
    <<"media", "application/mud+json", "https://tools.ietf.org/html/rfc8520", "RFC 8520">>,
    <<"media", "application/mxf", "https://tools.ietf.org/html/rfc4539", "RFC 4539">>,
    <<"media", "application/nasdata", "https://tools.ietf.org/html/rfc4707", "RFC 4707">>,
    <<"media", "application/news-checkgroups", "https://tools.ietf.org/html/rfc5537", "RFC 5537">>,
    <<"media", "application/news-groupinfo", "https://tools.ietf.org/html/rfc5537", "RFC 5537">>,
    <<"media", "application/news-transmission", "https://tools.ietf.org/html/rfc5537", "RFC 5537">>,
    <<"media", "application/nlsml+xml", "https://tools.ietf.org/html/rfc6787", "RFC 6787">>,
    <<"media", "application/ocsp-request", "https://tools.ietf.org/html/rfc6960", "RFC 6960">>,
    <<"media", "application/ocsp-response", "https://tools.ietf.org/html/rfc6960", "RFC 6960">>,
    <<"media", "application/octet-stream", "https://tools.ietf.org/html/rfc2045", "RFC 2045">>,
    <<"media", "application/oda", "https://tools.ietf.org/html/rfc1494", "RFC 1494">>,
    <<"media", "application/oebps-package+xml", "https://tools.ietf.org/html/rfc4839", "RFC 4839">>,
    <<"media", "application/ogg", "https://tools.ietf.org/html/rfc5334", "RFC 5334">>,
    <<"media", "application/p2p-overlay+xml", "https://tools.ietf.org/html/rfc6940", "RFC 6940">>,
    <<"media", "application/parityfec", "https://tools.ietf.org/html/rfc5109", "RFC 5109">>,
    <<"media", "application/passport", "https://tools.ietf.org/html/rfc8225", "RFC 8225">>,
    <<"media", "application/patch-ops-error+xml", "https://tools.ietf.org/html/rfc5261", "RFC 5261">>,
    <<"media", "application/pdf", "https://tools.ietf.org/html/rfc8118", "RFC 8118">>,
    <<"media", "application/pem-certificate-chain", "https://tools.ietf.org/html/rfc8555", "RFC 8555">>,
    <<"media", "application/pgp-encrypted", "https://tools.ietf.org/html/rfc3156", "RFC 3156">>,
    <<"media", "application/pgp-keys", "https://tools.ietf.org/html/rfc3156", "RFC 3156">>,
    <<"media", "application/pgp-signature", "https://tools.ietf.org/html/rfc3156", "RFC 3156">>,
    <<"media", "application/pidf+xml", "https://tools.ietf.org/html/rfc3863", "RFC 3863">>,
    <<"media", "application/pidf-diff+xml", "https://tools.ietf.org/html/rfc5262", "RFC 5262">>,
    <<"media", "application/pkcs10", "https://tools.ietf.org/html/rfc5967", "RFC 5967">>,
    <<"media", "application/pkcs7-mime", "https://tools.ietf.org/html/rfc8551", "RFC 8551">>,
    <<"media", "application/pkcs7-signature", "https://tools.ietf.org/html/rfc8551", "RFC 8551">>,
    <<"media", "application/pkcs8", "https://tools.ietf.org/html/rfc5958", "RFC 5958">>,
    <<"media", "application/pkcs8-encrypted", "https://tools.ietf.org/html/rfc8351", "RFC 8351">>,
    <<"media", "application/pkix-attr-cert", "https://tools.ietf.org/html/rfc5877", "RFC 5877">>,
    <<"media", "application/pkix-cert", "https://tools.ietf.org/html/rfc2585", "RFC 2585">>,
    <<"media", "application/pkix-crl", "https://tools.ietf.org/html/rfc2585", "RFC 2585">>,
    <<"media", "application/pkix-pkipath", "https://tools.ietf.org/html/rfc6066", "RFC 6066">>,
    <<"media", "application/pkixcmp", "https://tools.ietf.org/html/rfc2510", "RFC 2510">>,
    <<"media", "application/pls+xml", "https://tools.ietf.org/html/rfc4267", "RFC 4267">>,
    <<"media", "application/poc-settings+xml", "https://tools.ietf.org/html/rfc4354", "RFC 4354">>,
    <<"media", "application/postscript", "https://tools.ietf.org/html/rfc2045", "RFC 2045">>,
    <<"media", "application/ppsp-tracker+json", "https://tools.ietf.org/html/rfc7846", "RFC 7846">>,
    <<"media", "application/problem+json", "https://tools.ietf.org/html/rfc7807", "RFC 7807">>,
    <<"media", "application/problem+xml", "https://tools.ietf.org/html/rfc7807", "RFC 7807">>,
    <<"media", "application/pskc+xml", "https://tools.ietf.org/html/rfc6030", "RFC 6030">>,
    <<"media", "application/qsig", "https://tools.ietf.org/html/rfc3204", "RFC 3204">>,
    <<"media", "application/raptorfec", "https://tools.ietf.org/html/rfc6682", "RFC 6682">>,
    <<"media", "application/rdap+json", "https://tools.ietf.org/html/rfc7483", "RFC 7483">>,
    <<"media", "application/rdf+xml", "https://tools.ietf.org/html/rfc3870", "RFC 3870">>,
    <<"media", "application/reginfo+xml", "https://tools.ietf.org/html/rfc3680", "RFC 3680">>,
    <<"media", "application/relax-ng-compact-syntax", "http://www.jtc1sc34.org/repository/0661.pdf", "">>,
    <<"media", "application/remote-printing", "https://tools.ietf.org/html/rfc1486", "RFC 1486">>,
    <<"media", "application/reputon+json", "https://tools.ietf.org/html/rfc7071", "RFC 7071">>,
    <<"media", "application/resource-lists+xml", "https://tools.ietf.org/html/rfc4826", "RFC 4826">>,
    <<"media", "application/resource-lists-diff+xml", "https://tools.ietf.org/html/rfc5362", "RFC 5362">>,
    <<"media", "application/rfc+xml", "https://tools.ietf.org/html/rfc7991", "RFC 7991">>,
    <<"media", "application/rlmi+xml", "https://tools.ietf.org/html/rfc4662", "RFC 4662">>,
    <<"media", "application/rls-services+xml", "https://tools.ietf.org/html/rfc4826", "RFC 4826">>,
    <<"media", "application/rpki-ghostbusters", "https://tools.ietf.org/html/rfc6493", "RFC 6493">>,
    <<"media", "application/rpki-manifest", "https://tools.ietf.org/html/rfc6481", "RFC 6481">>,
    <<"media", "application/rpki-publication", "https://tools.ietf.org/html/rfc8181", "RFC 8181">>,
    <<"media", "application/rpki-roa", "https://tools.ietf.org/html/rfc6481", "RFC 6481">>,
    <<"media", "application/rpki-updown", "https://tools.ietf.org/html/rfc6492", "RFC 6492">>,
    <<"media", "application/rtploopback", "https://tools.ietf.org/html/rfc6849", "RFC 6849">>,
    <<"media", "application/rtx", "https://tools.ietf.org/html/rfc4588", "RFC 4588">>,
    <<"media", "application/sbml+xml", "https://tools.ietf.org/html/rfc3823", "RFC 3823">>,
    <<"media", "application/scim+json", "https://tools.ietf.org/html/rfc7644", "RFC 7644">>,
    <<"media", "application/scvp-cv-request", "https://tools.ietf.org/html/rfc5055", "RFC 5055">>,
    <<"media", "application/scvp-cv-response", "https://tools.ietf.org/html/rfc5055", "RFC 5055">>,
    <<"media", "application/scvp-vp-request", "https://tools.ietf.org/html/rfc5055", "RFC 5055">>,
    <<"media", "application/scvp-vp-response", "https://tools.ietf.org/html/rfc5055", "RFC 5055">>,
    <<"media", "application/sdp", "https://tools.ietf.org/html/rfc4566", "RFC 4566">>,
    <<"media", "application/secevent+jwt", "https://tools.ietf.org/html/rfc8417", "RFC 8417">>,
    <<"media", "application/senml+cbor", "https://tools.ietf.org/html/rfc8428", "RFC 8428">>,
    <<"media", "application/senml+json", "https://tools.ietf.org/html/rfc8428", "RFC 8428">>,
    <<"media", "application/senml+xml", "https://tools.ietf.org/html/rfc8428", "RFC 8428">>,
    <<"media", "application/senml-exi", "https://tools.ietf.org/html/rfc8428", "RFC 8428">>,
    <<"media", "application/sensml+cbor", "https://tools.ietf.org/html/rfc8428", "RFC 8428">>,
    <<"media", "application/sensml+json", "https://tools.ietf.org/html/rfc8428", "RFC 8428">>,
    <<"media", "application/sensml+xml", "https://tools.ietf.org/html/rfc8428", "RFC 8428">>,
    <<"media", "application/sensml-exi", "https://tools.ietf.org/html/rfc8428", "RFC 8428">>,
    <<"media", "application/sgml", "https://tools.ietf.org/html/rfc1874", "RFC 1874">>,
    <<"media", "application/shf+xml", "https://tools.ietf.org/html/rfc4194", "RFC 4194">>,
    <<"media", "application/sieve", "https://tools.ietf.org/html/rfc5228", "RFC 5228">>,
    <<"media", "application/simple-filter+xml", "https://tools.ietf.org/html/rfc4661", "RFC 4661">>,
    <<"media", "application/simple-message-summary", "https://tools.ietf.org/html/rfc3842", "RFC 3842">>,
    <<"media", "application/smil", "https://tools.ietf.org/html/rfc4536", "RFC 4536">>,
    <<"media", "application/smil+xml", "https://tools.ietf.org/html/rfc4536", "RFC 4536">>,
    <<"media", "application/smpte336m", "https://tools.ietf.org/html/rfc6597", "RFC 6597">>,
    <<"media", "application/soap+xml", "https://tools.ietf.org/html/rfc3902", "RFC 3902">>,
    <<"media", "application/sparql-query", "http://www.w3.org/TR/2007/CR-rdf-sparql-query-20070614/#mediaType", "">>,
    <<"media", "application/sparql-results+xml", "http://www.w3.org/TR/2007/CR-rdf-sparql-XMLres-20070925/#mime", "">>,
    <<"media", "application/spirits-event+xml", "https://tools.ietf.org/html/rfc3910", "RFC 3910">>,
    <<"media", "application/sql", "https://tools.ietf.org/html/rfc6922", "RFC 6922">>,
    <<"media", "application/srgs", "https://tools.ietf.org/html/rfc4267", "RFC 4267">>,
    <<"media", "application/srgs+xml", "https://tools.ietf.org/html/rfc4267", "RFC 4267">>,
    <<"media", "application/sru+xml", "https://tools.ietf.org/html/rfc6207", "RFC 6207">>,
    <<"media", "application/ssml+xml", "https://tools.ietf.org/html/rfc4267", "RFC 4267">>,
    <<"media", "application/tamp-apex-update", "https://tools.ietf.org/html/rfc5934", "RFC 5934">>,
    <<"media", "application/tamp-apex-update-confirm", "https://tools.ietf.org/html/rfc5934", "RFC 5934">>,
    <<"media", "application/tamp-community-update", "https://tools.ietf.org/html/rfc5934", "RFC 5934">>,
    <<"media", "application/tamp-community-update-confirm", "https://tools.ietf.org/html/rfc5934", "RFC 5934">>,
    <<"media", "application/tamp-error", "https://tools.ietf.org/html/rfc5934", "RFC 5934">>,
    <<"media", "application/tamp-sequence-adjust", "https://tools.ietf.org/html/rfc5934", "RFC 5934">>,
    <<"media", "application/tamp-sequence-adjust-confirm", "https://tools.ietf.org/html/rfc5934", "RFC 5934">>,
    <<"media", "application/tamp-status-query", "https://tools.ietf.org/html/rfc5934", "RFC 5934">>,
    <<"media", "application/tamp-status-response", "https://tools.ietf.org/html/rfc5934", "RFC 5934">>,
    <<"media", "application/tamp-update", "https://tools.ietf.org/html/rfc5934", "RFC 5934">>,
    <<"media", "application/tamp-update-confirm", "https://tools.ietf.org/html/rfc5934", "RFC 5934">>,
    <<"media", "application/tei+xml", "https://tools.ietf.org/html/rfc6129", "RFC 6129">>,
    <<"media", "application/thraud+xml", "https://tools.ietf.org/html/rfc5941", "RFC 5941">>,
    <<"media", "application/timestamp-query", "https://tools.ietf.org/html/rfc3161", "RFC 3161">>,
    <<"media", "application/timestamp-reply", "https://tools.ietf.org/html/rfc3161", "RFC 3161">>,
    <<"media", "application/timestamped-data", "https://tools.ietf.org/html/rfc5955", "RFC 5955">>,
    <<"media", "application/tlsrpt+gzip", "https://tools.ietf.org/html/rfc8460", "RFC 8460">>,
    <<"media", "application/tlsrpt+json", "https://tools.ietf.org/html/rfc8460", "RFC 8460">>,
    <<"media", "application/tnauthlist", "https://tools.ietf.org/html/rfc8226", "RFC 8226">>,
    <<"media", "application/tzif", "https://tools.ietf.org/html/rfc8536", "RFC 8536">>,
    <<"media", "application/tzif-leap", "https://tools.ietf.org/html/rfc8536", "RFC 8536">>,
    <<"media", "application/ulpfec", "https://tools.ietf.org/html/rfc5109", "RFC 5109">>,
    <<"media", "application/vcard+json", "https://tools.ietf.org/html/rfc7095", "RFC 7095">>,
    <<"media", "application/vcard+xml", "https://tools.ietf.org/html/rfc6351", "RFC 6351">>,
    <<"media", "application/vemmi", "https://tools.ietf.org/html/rfc2122", "RFC 2122">>,
    <<"media", "application/voicexml+xml", "https://tools.ietf.org/html/rfc4267", "RFC 4267">>,
    <<"media", "application/voucher-cms+json", "https://tools.ietf.org/html/rfc8366", "RFC 8366">>,
    <<"media", "application/vq-rtcpxr", "https://tools.ietf.org/html/rfc6035", "RFC 6035">>,
    <<"media", "application/watcherinfo+xml", "https://tools.ietf.org/html/rfc3858", "RFC 3858">>,
    <<"media", "application/webpush-options+json", "https://tools.ietf.org/html/rfc8292", "RFC 8292">>,
    <<"media", "application/whoispp-query", "https://tools.ietf.org/html/rfc2957", "RFC 2957">>,
    <<"media", "application/whoispp-response", "https://tools.ietf.org/html/rfc2958", "RFC 2958">>,
    <<"media", "application/widget", "http://www.w3.org/TR/widgets/#media-type-registration-for-application/widget", "W3C-Widgets-2012">>,
    <<"media", "application/x-www-form-urlencoded", "http://www.w3.org/TR/html/iana.html#application/x-www-form-urlencoded", "">>,
    <<"media", "application/x400-bp", "https://tools.ietf.org/html/rfc1494", "RFC 1494">>,
    <<"media", "application/xacml+xml", "https://tools.ietf.org/html/rfc7061", "RFC 7061">>,
    <<"media", "application/xcap-att+xml", "https://tools.ietf.org/html/rfc4825", "RFC 4825">>,
    <<"media", "application/xcap-caps+xml", "https://tools.ietf.org/html/rfc4825", "RFC 4825">>,
    <<"media", "application/xcap-diff+xml", "https://tools.ietf.org/html/rfc5874", "RFC 5874">>,
    <<"media", "application/xcap-el+xml", "https://tools.ietf.org/html/rfc4825", "RFC 4825">>,
    <<"media", "application/xcap-error+xml", "https://tools.ietf.org/html/rfc4825", "RFC 4825">>,
    <<"media", "application/xcap-ns+xml", "https://tools.ietf.org/html/rfc4825", "RFC 4825">>,
    <<"media", "application/xcon-conference-info+xml", "https://tools.ietf.org/html/rfc6502", "RFC 6502">>,
    <<"media", "application/xcon-conference-info-diff+xml", "https://tools.ietf.org/html/rfc6502", "RFC 6502">>,
    <<"media", "application/xhtml+xml", "http://www.w3.org/TR/html/iana.html#application/xhtml+xml", "">>,
    <<"media", "application/xml", "https://tools.ietf.org/html/rfc7303", "RFC 7303">>,
    <<"media", "application/xml-dtd", "https://tools.ietf.org/html/rfc7303", "RFC 7303">>,
    <<"media", "application/xml-external-parsed-entity", "https://tools.ietf.org/html/rfc7303", "RFC 7303">>,
    <<"media", "application/xml-patch+xml", "https://tools.ietf.org/html/rfc7351", "RFC 7351">>,
    <<"media", "application/xmpp+xml", "https://tools.ietf.org/html/rfc3923", "RFC 3923">>,
    <<"media", "application/xslt+xml", "http://www.w3.org/TR/2007/REC-xslt20-20070123/#media-type-registration", "">>,
    <<"media", "application/xv+xml", "https://tools.ietf.org/html/rfc4374", "RFC 4374">>,
    <<"media", "application/yang", "https://tools.ietf.org/html/rfc6020", "RFC 6020">>,
    <<"media", "application/yang-data+json", "https://tools.ietf.org/html/rfc8040", "RFC 8040">>,
    <<"media", "application/yang-data+xml", "https://tools.ietf.org/html/rfc8040", "RFC 8040">>,
    <<"media", "application/yang-patch+json", "https://tools.ietf.org/html/rfc8072", "RFC 8072">>,
    <<"media", "application/yang-patch+xml", "https://tools.ietf.org/html/rfc8072", "RFC 8072">>,
    <<"media", "application/yin+xml", "https://tools.ietf.org/html/rfc6020", "RFC 6020">>,
    <<"media", "application/zlib", "https://tools.ietf.org/html/rfc6713", "RFC 6713">>,
    <<"media", "application/zstd", "https://tools.ietf.org/html/rfc8478", "RFC 8478">>,
    <<"media", "audio/1d-interleaved-parityfec", "https://tools.ietf.org/html/rfc6015", "RFC 6015">>,
    <<"media", "audio/32kadpcm", "https://tools.ietf.org/html/rfc3802", "RFC 3802">>,
    <<"media", "audio/3gpp", "https://tools.ietf.org/html/rfc3839", "RFC 3839">>,
    <<"media", "audio/3gpp2", "https://tools.ietf.org/html/rfc4393", "RFC 4393">>,
    <<"media", "audio/ac3", "https://tools.ietf.org/html/rfc4184", "RFC 4184">>,
    <<"media", "audio/amr", "https://tools.ietf.org/html/rfc4867", "RFC 4867">>,
    <<"media", "audio/amr-wb", "https://tools.ietf.org/html/rfc4867", "RFC 4867">>,
    <<"media", "audio/amr-wb+", "https://tools.ietf.org/html/rfc4352", "RFC 4352">>,
    <<"media", "audio/aptx", "https://tools.ietf.org/html/rfc7310", "RFC 7310">>,
    <<"media", "audio/asc", "https://tools.ietf.org/html/rfc6295", "RFC 6295">>,
    <<"media", "audio/atrac-advanced-lossless", "https://tools.ietf.org/html/rfc5584", "RFC 5584">>,
    <<"media", "audio/atrac-x", "https://tools.ietf.org/html/rfc5584", "RFC 5584">>,
    <<"media", "audio/atrac3", "https://tools.ietf.org/html/rfc5584", "RFC 5584">>,
    <<"media", "audio/basic", "https://tools.ietf.org/html/rfc2045", "RFC 2045">>,
    <<"media", "audio/bv16", "https://tools.ietf.org/html/rfc4298", "RFC 4298">>,
    <<"media", "audio/bv32", "https://tools.ietf.org/html/rfc4298", "RFC 4298">>,
    <<"media", "audio/clearmode", "https://tools.ietf.org/html/rfc4040", "RFC 4040">>,
    <<"media", "audio/cn", "https://tools.ietf.org/html/rfc3389", "RFC 3389">>,
    <<"media", "audio/dat12", "https://tools.ietf.org/html/rfc3190", "RFC 3190">>,
    <<"media", "audio/dls", "https://tools.ietf.org/html/rfc4613", "RFC 4613">>,
    <<"media", "audio/dsr-es201108", "https://tools.ietf.org/html/rfc3557", "RFC 3557">>,
    <<"media", "audio/dsr-es202050", "https://tools.ietf.org/html/rfc4060", "RFC 4060">>,
    <<"media", "audio/dsr-es202211", "https://tools.ietf.org/html/rfc4060", "RFC 4060">>,
    <<"media", "audio/dsr-es202212", "https://tools.ietf.org/html/rfc4060", "RFC 4060">>,
    <<"media", "audio/dv", "https://tools.ietf.org/html/rfc6469", "RFC 6469">>,
    <<"media", "audio/dvi4", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/eac3", "https://tools.ietf.org/html/rfc4598", "RFC 4598">>,
    <<"media", "audio/encaprtp", "https://tools.ietf.org/html/rfc6849", "RFC 6849">>,
    <<"media", "audio/evrc", "https://tools.ietf.org/html/rfc4788", "RFC 4788">>,
    <<"media", "audio/evrc-qcp", "https://tools.ietf.org/html/rfc3625", "RFC 3625">>,
    <<"media", "audio/evrc0", "https://tools.ietf.org/html/rfc4788", "RFC 4788">>,
    <<"media", "audio/evrc1", "https://tools.ietf.org/html/rfc4788", "RFC 4788">>,
    <<"media", "audio/evrcb", "https://tools.ietf.org/html/rfc5188", "RFC 5188">>,
    <<"media", "audio/evrcb0", "https://tools.ietf.org/html/rfc5188", "RFC 5188">>,
    <<"media", "audio/evrcb1", "https://tools.ietf.org/html/rfc4788", "RFC 4788">>,
    <<"media", "audio/evrcnw", "https://tools.ietf.org/html/rfc6884", "RFC 6884">>,
    <<"media", "audio/evrcnw0", "https://tools.ietf.org/html/rfc6884", "RFC 6884">>,
    <<"media", "audio/evrcnw1", "https://tools.ietf.org/html/rfc6884", "RFC 6884">>,
    <<"media", "audio/evrcwb", "https://tools.ietf.org/html/rfc5188", "RFC 5188">>,
    <<"media", "audio/evrcwb0", "https://tools.ietf.org/html/rfc5188", "RFC 5188">>,
    <<"media", "audio/evrcwb1", "https://tools.ietf.org/html/rfc5188", "RFC 5188">>,
    <<"media", "audio/example", "https://tools.ietf.org/html/rfc4735", "RFC 4735">>,
    <<"media", "audio/fwdred", "https://tools.ietf.org/html/rfc6354", "RFC 6354">>,
    <<"media", "audio/g711-0", "https://tools.ietf.org/html/rfc7655", "RFC 7655">>,
    <<"media", "audio/g719", "https://tools.ietf.org/html/rfc5404", "RFC 5404">>,
    <<"media", "audio/g722", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/g7221", "https://tools.ietf.org/html/rfc5577", "RFC 5577">>,
    <<"media", "audio/g723", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/g726-16", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/g726-24", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/g726-32", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/g726-40", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/g728", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/g729", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/g7291", "https://tools.ietf.org/html/rfc4749", "RFC 4749">>,
    <<"media", "audio/g729d", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/g729e", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/gsm", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/gsm-efr", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/gsm-hr-08", "https://tools.ietf.org/html/rfc5993", "RFC 5993">>,
    <<"media", "audio/ilbc", "https://tools.ietf.org/html/rfc3952", "RFC 3952">>,
    <<"media", "audio/ip-mr_v2.5", "https://tools.ietf.org/html/rfc6262", "RFC 6262">>,
    <<"media", "audio/l16", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/l20", "https://tools.ietf.org/html/rfc3190", "RFC 3190">>,
    <<"media", "audio/l24", "https://tools.ietf.org/html/rfc3190", "RFC 3190">>,
    <<"media", "audio/l8", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/lpc", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/melp", "https://tools.ietf.org/html/rfc8130", "RFC 8130">>,
    <<"media", "audio/melp1200", "https://tools.ietf.org/html/rfc8130", "RFC 8130">>,
    <<"media", "audio/melp2400", "https://tools.ietf.org/html/rfc8130", "RFC 8130">>,
    <<"media", "audio/melp600", "https://tools.ietf.org/html/rfc8130", "RFC 8130">>,
    <<"media", "audio/mobile-xmf", "https://tools.ietf.org/html/rfc4723", "RFC 4723">>,
    <<"media", "audio/mp4", "https://tools.ietf.org/html/rfc4337", "RFC 4337">>,
    <<"media", "audio/mp4a-latm", "https://tools.ietf.org/html/rfc6416", "RFC 6416">>,
    <<"media", "audio/mpa", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "audio/mpa-robust", "https://tools.ietf.org/html/rfc5219", "RFC 5219">>,
    <<"media", "audio/mpeg", "https://tools.ietf.org/html/rfc3003", "RFC 3003">>,
    <<"media", "audio/mpeg4-generic", "https://tools.ietf.org/html/rfc3640", "RFC 3640">>,
    <<"media", "audio/ogg", "https://tools.ietf.org/html/rfc5334", "RFC 5334">>,
    <<"media", "audio/opus", "https://tools.ietf.org/html/rfc7587", "RFC 7587">>,
    <<"media", "audio/parityfec", "https://tools.ietf.org/html/rfc5109", "RFC 5109">>,
    <<"media", "audio/pcma", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/pcma-wb", "https://tools.ietf.org/html/rfc5391", "RFC 5391">>,
    <<"media", "audio/pcmu", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/pcmu-wb", "https://tools.ietf.org/html/rfc5391", "RFC 5391">>,
    <<"media", "audio/qcelp", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "audio/raptorfec", "https://tools.ietf.org/html/rfc6682", "RFC 6682">>,
    <<"media", "audio/red", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "audio/rtp-midi", "https://tools.ietf.org/html/rfc6295", "RFC 6295">>,
    <<"media", "audio/rtploopback", "https://tools.ietf.org/html/rfc6849", "RFC 6849">>,
    <<"media", "audio/rtx", "https://tools.ietf.org/html/rfc4588", "RFC 4588">>,
    <<"media", "audio/smv", "https://tools.ietf.org/html/rfc3558", "RFC 3558">>,
    <<"media", "audio/smv-qcp", "https://tools.ietf.org/html/rfc3625", "RFC 3625">>,
    <<"media", "audio/smv0", "https://tools.ietf.org/html/rfc3558", "RFC 3558">>,
    <<"media", "audio/speex", "https://tools.ietf.org/html/rfc5574", "RFC 5574">>,
    <<"media", "audio/t140c", "https://tools.ietf.org/html/rfc4351", "RFC 4351">>,
    <<"media", "audio/t38", "https://tools.ietf.org/html/rfc4612", "RFC 4612">>,
    <<"media", "audio/telephone-event", "https://tools.ietf.org/html/rfc4733", "RFC 4733">>,
    <<"media", "audio/tone", "https://tools.ietf.org/html/rfc4733", "RFC 4733">>,
    <<"media", "audio/uemclip", "https://tools.ietf.org/html/rfc5686", "RFC 5686">>,
    <<"media", "audio/ulpfec", "https://tools.ietf.org/html/rfc5109", "RFC 5109">>,
    <<"media", "audio/vdvi", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "audio/vmr-wb", "https://tools.ietf.org/html/rfc4348", "RFC 4348">>,
    <<"media", "audio/vorbis", "https://tools.ietf.org/html/rfc5215", "RFC 5215">>,
    <<"media", "audio/vorbis-config", "https://tools.ietf.org/html/rfc5215", "RFC 5215">>,
    <<"media", "font/collection", "https://tools.ietf.org/html/rfc8081", "RFC 8081">>,
    <<"media", "font/otf", "https://tools.ietf.org/html/rfc8081", "RFC 8081">>,
    <<"media", "font/sfnt", "https://tools.ietf.org/html/rfc8081", "RFC 8081">>,
    <<"media", "font/ttf", "https://tools.ietf.org/html/rfc8081", "RFC 8081">>,
    <<"media", "font/woff", "https://tools.ietf.org/html/rfc8081", "RFC 8081">>,
    <<"media", "font/woff2", "https://tools.ietf.org/html/rfc8081", "RFC 8081">>,
    <<"media", "image/bmp", "https://tools.ietf.org/html/rfc7903", "RFC 7903">>,
    <<"media", "image/emf", "https://tools.ietf.org/html/rfc7903", "RFC 7903">>,
    <<"media", "image/example", "https://tools.ietf.org/html/rfc4735", "RFC 4735">>,
    <<"media", "image/fits", "https://tools.ietf.org/html/rfc4047", "RFC 4047">>,
    <<"media", "image/g3fax", "https://tools.ietf.org/html/rfc1494", "RFC 1494">>,
    <<"media", "image/gif", "https://tools.ietf.org/html/rfc2045", "RFC 2045">>,
    <<"media", "image/ief", "https://tools.ietf.org/html/rfc1314", "RFC 1314">>,
    <<"media", "image/jp2", "https://tools.ietf.org/html/rfc3745", "RFC 3745">>,
    <<"media", "image/jpeg", "https://tools.ietf.org/html/rfc2045", "RFC 2045">>,
    <<"media", "image/jpm", "https://tools.ietf.org/html/rfc3745", "RFC 3745">>,
    <<"media", "image/jpx", "https://tools.ietf.org/html/rfc3745", "RFC 3745">>,
    <<"media", "image/ktx", "http://www.khronos.org/opengles/sdk/tools/KTX/file_format_spec/#mimeregistration", "">>,
    <<"media", "image/svg+xml", "http://www.w3.org/TR/SVG/mimereg.html", "">>,
    <<"media", "image/t38", "https://tools.ietf.org/html/rfc3362", "RFC 3362">>,
    <<"media", "image/tiff", "https://tools.ietf.org/html/rfc3302", "RFC 3302">>,
    <<"media", "image/tiff-fx", "https://tools.ietf.org/html/rfc3950", "RFC 3950">>,
    <<"media", "image/wmf", "https://tools.ietf.org/html/rfc7903", "RFC 7903">>,
    <<"media", "image/x-emf", "https://tools.ietf.org/html/rfc7903", "RFC 7903">>,
    <<"media", "image/x-wmf", "https://tools.ietf.org/html/rfc7903", "RFC 7903">>,
    <<"media", "message/cpim", "https://tools.ietf.org/html/rfc3862", "RFC 3862">>,
    <<"media", "message/delivery-status", "https://tools.ietf.org/html/rfc1894", "RFC 1894">>,
    <<"media", "message/disposition-notification", "https://tools.ietf.org/html/rfc8098", "RFC 8098">>,
    <<"media", "message/example", "https://tools.ietf.org/html/rfc4735", "RFC 4735">>,
    <<"media", "message/external-body", "https://tools.ietf.org/html/rfc2045", "RFC 2045">>,
    <<"media", "message/feedback-report", "https://tools.ietf.org/html/rfc5965", "RFC 5965">>,
    <<"media", "message/global", "https://tools.ietf.org/html/rfc6532", "RFC 6532">>,
    <<"media", "message/global-delivery-status", "https://tools.ietf.org/html/rfc6533", "RFC 6533">>,
    <<"media", "message/global-disposition-notification", "https://tools.ietf.org/html/rfc6533", "RFC 6533">>,
    <<"media", "message/global-headers", "https://tools.ietf.org/html/rfc6533", "RFC 6533">>,
    <<"media", "message/http", "https://tools.ietf.org/html/rfc7230", "RFC 7230">>,
    <<"media", "message/imdn+xml", "https://tools.ietf.org/html/rfc5438", "RFC 5438">>,
    <<"media", "message/news", "https://tools.ietf.org/html/rfc5537", "RFC 5537">>,
    <<"media", "message/partial", "https://tools.ietf.org/html/rfc2045", "RFC 2045">>,
    <<"media", "message/rfc822", "https://tools.ietf.org/html/rfc2045", "RFC 2045">>,
    <<"media", "message/s-http", "https://tools.ietf.org/html/rfc2660", "RFC 2660">>,
    <<"media", "message/sip", "https://tools.ietf.org/html/rfc3261", "RFC 3261">>,
    <<"media", "message/sipfrag", "https://tools.ietf.org/html/rfc3420", "RFC 3420">>,
    <<"media", "message/tracking-status", "https://tools.ietf.org/html/rfc3886", "RFC 3886">>,
    <<"media", "model/3mf", "http://www.3mf.io/specification", "">>,
    <<"media", "model/example", "https://tools.ietf.org/html/rfc4735", "RFC 4735">>,
    <<"media", "model/mesh", "https://tools.ietf.org/html/rfc2077", "RFC 2077">>,
    <<"media", "model/vrml", "https://tools.ietf.org/html/rfc2077", "RFC 2077">>,
    <<"media", "multipart/alternative", "https://tools.ietf.org/html/rfc2046", "RFC 2046">>,
    <<"media", "multipart/byteranges", "https://tools.ietf.org/html/rfc7233#appendix-A", "RFC 7233 appendix A">>,
    <<"media", "multipart/digest", "https://tools.ietf.org/html/rfc2046", "RFC 2046">>,
    <<"media", "multipart/encrypted", "https://tools.ietf.org/html/rfc1847", "RFC 1847">>,
    <<"media", "multipart/example", "https://tools.ietf.org/html/rfc4735", "RFC 4735">>,
    <<"media", "multipart/form-data", "https://tools.ietf.org/html/rfc7578", "RFC 7578">>,
    <<"media", "multipart/mixed", "https://tools.ietf.org/html/rfc2046", "RFC 2046">>,
    <<"media", "multipart/multilingual", "https://tools.ietf.org/html/rfc8255", "RFC 8255">>,
    <<"media", "multipart/parallel", "https://tools.ietf.org/html/rfc2046", "RFC 2046">>,
    <<"media", "multipart/related", "https://tools.ietf.org/html/rfc2387", "RFC 2387">>,
    <<"media", "multipart/report", "https://tools.ietf.org/html/rfc6522", "RFC 6522">>,
    <<"media", "multipart/signed", "https://tools.ietf.org/html/rfc1847", "RFC 1847">>,
    <<"media", "multipart/voice-message", "https://tools.ietf.org/html/rfc3801", "RFC 3801">>,
    <<"media", "multipart/x-mixed-replace", "http://www.w3.org/TR/html/iana.html#multipart/x-mixed-replace", "">>,
    <<"media", "text/1d-interleaved-parityfec", "https://tools.ietf.org/html/rfc6015", "RFC 6015">>,
    <<"media", "text/cache-manifest", "http://www.w3.org/TR/html/iana.html#text/cache-manifest", "">>,
    <<"media", "text/calendar", "https://tools.ietf.org/html/rfc5545", "RFC 5545">>,
    <<"media", "text/css", "https://tools.ietf.org/html/rfc2318", "RFC 2318">>,
    <<"media", "text/csv", "https://tools.ietf.org/html/rfc4180", "RFC 4180">>,
    <<"media", "text/directory", "https://tools.ietf.org/html/rfc2425", "RFC 2425">>,
    <<"media", "text/dns", "https://tools.ietf.org/html/rfc4027", "RFC 4027">>,
    <<"media", "text/ecmascript", "https://tools.ietf.org/html/rfc4329", "RFC 4329">>,
    <<"media", "text/encaprtp", "https://tools.ietf.org/html/rfc6849", "RFC 6849">>,
    <<"media", "text/enriched", "https://tools.ietf.org/html/rfc1896", "RFC 1896">>,
    <<"media", "text/event-stream", "https://www.w3.org/TR/eventsource/#text-event-stream", "Server-Sent Events">>,
    <<"media", "text/example", "https://tools.ietf.org/html/rfc4735", "RFC 4735">>,
    <<"media", "text/fwdred", "https://tools.ietf.org/html/rfc6354", "RFC 6354">>,
    <<"media", "text/grammar-ref-list", "https://tools.ietf.org/html/rfc6787", "RFC 6787">>,
    <<"media", "text/html", "http://www.w3.org/TR/html/iana.html#text/html", "">>,
    <<"media", "text/javascript", "https://tools.ietf.org/html/rfc4329", "RFC 4329">>,
    <<"media", "text/markdown", "https://tools.ietf.org/html/rfc7763", "RFC 7763">>,
    <<"media", "text/parameters", "https://tools.ietf.org/html/rfc7826", "RFC 7826">>,
    <<"media", "text/parityfec", "https://tools.ietf.org/html/rfc5109", "RFC 5109">>,
    <<"media", "text/plain", "https://tools.ietf.org/html/rfc2046", "RFC 2046">>,
    <<"media", "text/raptorfec", "https://tools.ietf.org/html/rfc6682", "RFC 6682">>,
    <<"media", "text/red", "https://tools.ietf.org/html/rfc4102", "RFC 4102">>,
    <<"media", "text/rfc822-headers", "https://tools.ietf.org/html/rfc6522", "RFC 6522">>,
    <<"media", "text/richtext", "https://tools.ietf.org/html/rfc2045", "RFC 2045">>,
    <<"media", "text/rtploopback", "https://tools.ietf.org/html/rfc6849", "RFC 6849">>,
    <<"media", "text/rtx", "https://tools.ietf.org/html/rfc4588", "RFC 4588">>,
    <<"media", "text/sgml", "https://tools.ietf.org/html/rfc1874", "RFC 1874">>,
    <<"media", "text/t140", "https://tools.ietf.org/html/rfc4103", "RFC 4103">>,
    <<"media", "text/troff", "https://tools.ietf.org/html/rfc4263", "RFC 4263">>,
    <<"media", "text/ulpfec", "https://tools.ietf.org/html/rfc5109", "RFC 5109">>,
    <<"media", "text/uri-list", "https://tools.ietf.org/html/rfc2483", "RFC 2483">>,
    <<"media", "text/vcard", "https://tools.ietf.org/html/rfc6350", "RFC 6350">>,
    <<"media", "text/xml", "https://tools.ietf.org/html/rfc7303", "RFC 7303">>,
    <<"media", "text/xml-external-parsed-entity", "https://tools.ietf.org/html/rfc7303", "RFC 7303">>,
    <<"media", "video/1d-interleaved-parityfec", "https://tools.ietf.org/html/rfc6015", "RFC 6015">>,
    <<"media", "video/3gpp", "https://tools.ietf.org/html/rfc3839", "RFC 3839">>,
    <<"media", "video/3gpp-tt", "https://tools.ietf.org/html/rfc4396", "RFC 4396">>,
    <<"media", "video/3gpp2", "https://tools.ietf.org/html/rfc4393", "RFC 4393">>,
    <<"media", "video/bmpeg", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "video/bt656", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "video/celb", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "video/dv", "https://tools.ietf.org/html/rfc6469", "RFC 6469">>,
    <<"media", "video/encaprtp", "https://tools.ietf.org/html/rfc6849", "RFC 6849">>,
    <<"media", "video/example", "https://tools.ietf.org/html/rfc4735", "RFC 4735">>,
    <<"media", "video/h261", "https://tools.ietf.org/html/rfc4587", "RFC 4587">>,
    <<"media", "video/h263", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "video/h263-1998", "https://tools.ietf.org/html/rfc4629", "RFC 4629">>,
    <<"media", "video/h263-2000", "https://tools.ietf.org/html/rfc4629", "RFC 4629">>,
    <<"media", "video/h264", "https://tools.ietf.org/html/rfc6184", "RFC 6184">>,
    <<"media", "video/h264-rcdo", "https://tools.ietf.org/html/rfc6185", "RFC 6185">>,
    <<"media", "video/h264-svc", "https://tools.ietf.org/html/rfc6190", "RFC 6190">>,
    <<"media", "video/h265", "https://tools.ietf.org/html/rfc7798", "RFC 7798">>,
    <<"media", "video/jpeg", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "video/jpeg2000", "https://tools.ietf.org/html/rfc5371", "RFC 5371">>,
    <<"media", "video/mj2", "https://tools.ietf.org/html/rfc3745", "RFC 3745">>,
    <<"media", "video/mp1s", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "video/mp2p", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "video/mp2t", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "video/mp4", "https://tools.ietf.org/html/rfc4337", "RFC 4337">>,
    <<"media", "video/mp4v-es", "https://tools.ietf.org/html/rfc6416", "RFC 6416">>,
    <<"media", "video/mpeg", "https://tools.ietf.org/html/rfc2045", "RFC 2045">>,
    <<"media", "video/mpeg4-generic", "https://tools.ietf.org/html/rfc3640", "RFC 3640">>,
    <<"media", "video/mpv", "https://tools.ietf.org/html/rfc3555", "RFC 3555">>,
    <<"media", "video/nv", "https://tools.ietf.org/html/rfc4856", "RFC 4856">>,
    <<"media", "video/ogg", "https://tools.ietf.org/html/rfc5334", "RFC 5334">>,
    <<"media", "video/parityfec", "https://tools.ietf.org/html/rfc5109", "RFC 5109">>,
    <<"media", "video/pointer", "https://tools.ietf.org/html/rfc2862", "RFC 2862">>,
    <<"media", "video/quicktime", "https://tools.ietf.org/html/rfc6381", "RFC 6381">>,
    <<"media", "video/raptorfec", "https://tools.ietf.org/html/rfc6682", "RFC 6682">>,
    <<"media", "video/raw", "https://tools.ietf.org/html/rfc4175", "RFC 4175">>,
    <<"media", "video/rtploopback", "https://tools.ietf.org/html/rfc6849", "RFC 6849">>,
    <<"media", "video/rtx", "https://tools.ietf.org/html/rfc4588", "RFC 4588">>,
    <<"media", "video/smpte291", "https://tools.ietf.org/html/rfc8331", "RFC 8331">>,
    <<"media", "video/smpte292m", "https://tools.ietf.org/html/rfc3497", "RFC 3497">>,
    <<"media", "video/ulpfec", "https://tools.ietf.org/html/rfc5109", "RFC 5109">>,
    <<"media", "video/vc1", "https://tools.ietf.org/html/rfc4425", "RFC 4425">>,
    <<"media", "video/vc2", "https://tools.ietf.org/html/rfc8450", "RFC 8450">>,
    <<"media", "video/vp8", "https://tools.ietf.org/html/rfc7741", "RFC 7741">>,
    <<"altsvc", "ma", "https://tools.ietf.org/html/rfc7838#section-3.1", "RFC 7838 ? 3.1">>,
    <<"altsvc", "persist", "https://tools.ietf.org/html/rfc7838#section-3.1", "RFC 7838 ? 3.1">>,
    <<"auth", "basic", "https://tools.ietf.org/html/rfc7617", "RFC 7617">>,
    <<"auth", "bearer", "https://tools.ietf.org/html/rfc6750", "RFC 6750">>,
    <<"auth", "digest", "https://tools.ietf.org/html/rfc7616", "RFC 7616">>,
    <<"auth", "hoba", "https://tools.ietf.org/html/rfc7486#section-3", "RFC 7486 ? 3">>,
    <<"auth", "mutual", "https://tools.ietf.org/html/rfc8120", "RFC 8120">>,
    <<"auth", "negotiate", "https://tools.ietf.org/html/rfc4559#section-3", "RFC 4559 ? 3">>,
    <<"auth", "oauth", "https://tools.ietf.org/html/rfc5849#section-3.5.1", "RFC 5849 ? 3.5.1">>,
    <<"auth", "scram-sha-1", "https://tools.ietf.org/html/rfc7804", "RFC 7804">>,
    <<"auth", "scram-sha-256", "https://tools.ietf.org/html/rfc7804", "RFC 7804">>,
    <<"auth", "vapid", "https://tools.ietf.org/html/rfc8292", "RFC 8292">>,
    <<"cc", "aes128gcm", "https://tools.ietf.org/html/rfc8188", "RFC 8188">>,
    <<"cc", "br", "https://tools.ietf.org/html/rfc7932", "RFC 7932">>,
    <<"cc", "compress", "https://tools.ietf.org/html/rfc7230#section-4.2.1", "RFC 7230 ? 4.2.1">>,
    <<"cc", "deflate", "https://tools.ietf.org/html/rfc7230#section-4.2.2", "RFC 7230 ? 4.2.2">>,
    <<"cc", "exi", "http://www.w3.org/TR/exi/", "W3C Recommendation: Efficient XML Interchange (EXI) Format">>,
    <<"cc", "gzip", "https://tools.ietf.org/html/rfc7230#section-4.2.3", "RFC 7230 ? 4.2.3">>,
    <<"cc", "identity", "https://tools.ietf.org/html/rfc7231#section-5.3.4", "RFC 7231 ? 5.3.4">>,
    <<"cc", "pack200-gzip", "http://www.jcp.org/en/jsr/detail?id=200", "JSR 200: Network Transfer Format for Java">>,
    <<"cc", "x-compress", "https://tools.ietf.org/html/rfc7230#section-4.2.1", "RFC 7230 ? 4.2.1">>,
    <<"cc", "x-gzip", "https://tools.ietf.org/html/rfc7230#section-4.2.3", "RFC 7230 ? 4.2.3">>,
    <<"cc", "zstd", "https://tools.ietf.org/html/rfc8478", "RFC 8478">>,
    <<"hsts", "includesubdomains", "https://tools.ietf.org/html/rfc6797#section-6.1.2", "RFC 6797 ? 6.1.2">>,
    <<"hsts", "max-age", "https://tools.ietf.org/html/rfc6797#section-6.1.1", "RFC 6797 ? 6.1.1">>,
    <<"prefer", "depth-noroot", "https://tools.ietf.org/html/rfc8144", "RFC 8144">>,
    <<"prefer", "handling", "https://tools.ietf.org/html/rfc7240#section-4.4", "RFC 7240 ? 4.4">>,
    <<"prefer", "respond-async", "https://tools.ietf.org/html/rfc7240#section-4.1", "RFC 7240 ? 4.1">>,
    <<"prefer", "return", "https://tools.ietf.org/html/rfc7240#section-4.2", "RFC 7240 ? 4.2">>,
    <<"prefer", "wait", "https://tools.ietf.org/html/rfc7240#section-4.3", "RFC 7240 ? 4.3">>,
    <<"unit", "bytes", "https://tools.ietf.org/html/rfc7233#section-2.1", "RFC 7233 ? 2.1">>,
    <<"tc", "chunked", "https://tools.ietf.org/html/rfc7230#section-4.1", "RFC 7230 ? 4.1">>,
    <<"tc", "compress", "https://tools.ietf.org/html/rfc7230#section-4.2.1", "RFC 7230 ? 4.2.1">>,
    <<"tc", "deflate", "https://tools.ietf.org/html/rfc7230#section-4.2.2", "RFC 7230 ? 4.2.2">>,
    <<"tc", "gzip", "https://tools.ietf.org/html/rfc7230#section-4.2.3", "RFC 7230 ? 4.2.3">>,
    <<"tc", "x-compress", "https://tools.ietf.org/html/rfc7230#section-4.2.1", "RFC 7230 ? 4.2.1">>,
    <<"tc", "x-gzip", "https://tools.ietf.org/html/rfc7230#section-4.2.2", "RFC 7230 ? 4.2.2">>,
    <<"upgrade", "http", "https://tools.ietf.org/html/rfc7230#section-2.6", "Hypertext Transfer Protocol (RFC 7230 ? 2.6)">>,
    <<"upgrade", "tls", "https://tools.ietf.org/html/rfc2817", "Transport Layer Security (RFC 2817)">>,
    <<"upgrade", "websocket", "https://tools.ietf.org/html/rfc6455", "The Web Socket Protocol (RFC 6455)">>,
    <<"upgrade", "h2c", "https://tools.ietf.org/html/rfc7540#section-3.2", "Hypertext Transfer Protocol version 2 (HTTP/2) (RFC 7540 ? 3.2)">>,
    <<"upgrade", "websocket", "https://tools.ietf.org/html/rfc6455", "The Web Socket Protocol (RFC 6455)">>,
    <<"warn", "110", "https://tools.ietf.org/html/rfc7234#section-5.5.1", "Response is Stale (RFC 7234 ? 5.5.1)">>,
    <<"warn", "111", "https://tools.ietf.org/html/rfc7234#section-5.5.2", "Revalidation Failed (RFC 7234 ? 5.5.2)">>,
    <<"warn", "112", "https://tools.ietf.org/html/rfc7234#section-5.5.3", "Disconnected Operation (RFC 7234 ? 5.5.3)">>,
    <<"warn", "113", "https://tools.ietf.org/html/rfc7234#section-5.5.4", "Heuristic Expiration (RFC 7234 ? 5.5.4)">>,
    <<"warn", "199", "https://tools.ietf.org/html/rfc7234#section-5.5.5", "Miscellaneous Warning (RFC 7234 ? 5.5.5)">>,
    <<"warn", "214", "https://tools.ietf.org/html/rfc7234#section-5.5.6", "Transformation Applied (RFC 7234 ? 5.5.6)">>,
    <<"warn", "299", "https://tools.ietf.org/html/rfc7234#section-5.5.7", "Miscellaneous Persistent Warning (RFC 7234 ? 5.5.7)">>>>)
===============================================================================
