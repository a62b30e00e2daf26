#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                    **({"observe_at": list(observe)} if observe else {}),
                    "hook_needed": None}})

FR = "httpolice/framing1.py"; ST = "httpolice/stream.py"
prop("C01", "Message bodies are delimited exactly as RFC 7230 section 3.3.3 says",
 "For any pair of captured HTTP/1.x streams, every request and response body HTTPolice reports is exactly the bytes that HTTP/1.1 framing assigns to that message: nothing for HEAD, 1xx, 204, 304, 101 and successful CONNECT responses, the chunked payload, the Content-Length bytes, or everything up to the end of the stream. When framing information is unusable (malformed or excessive Content-Length, too little data, a request whose final transfer coding is not chunked, malformed chunks) the body is marked unavailable and the matching notice (1001, 1004, 1005, 1011, 1012, 1298) is reported, never a wrong body.",
 ["inputs"], "all request/response byte streams, methods, status codes and combinations of framing headers",
 "Tests sample a few dozen recorded streams; the decision is a product of method x status x Transfer-Encoding x Content-Length x bytes available that no finite fixture set covers.",
 [FR, ST, "httpolice/syntax/rfc7230.py"],
 [("request body rule", FR + ":_parse_request_body"), ("response body rule", FR + ":_parse_response_body"), ("content length", FR + ":_process_content_length")],
 [("stream position", "offset of the next unread byte", ST), ("sanity flag", "whether the next message boundary is known", ST)],
 ["bodies and notices of the exchanges produced from stream files"])
prop("C02", "Every stream byte belongs to one message in order or is reported left over",
 "Messages found on a captured stream appear in stream order, each starting at the byte where the previous one ended, with no byte skipped or used twice. Parsing of a stream stops at the first point where the next message boundary cannot be known, and then exactly one notice says why and where (malformed heading 1006/1009, responses without requests 1008, unparsed remainder of the request stream 1007 or of the response stream 1010).",
 ["inputs", "histories"], "all sequences of messages and garbage on one or two streams",
 "Tests check a handful of recorded streams and compare only notice numbers, never offsets; conservation must hold for every sequence.",
 [FR, ST], [("main loop", FR + ":parse_streams"), ("offset bookkeeping", ST + ":Stream")],
 [("offset", "where each message starts (shown in its remark)", FR)], ["message remarks (file, offset)", "standalone notices"])
prop("C03", "Truncating a capture never changes what was complete before the cut",
 "If a capture is cut off at any byte of either stream, every message that lies entirely before the cuts, together with the request-response pairing among those messages, is reported exactly as in the uncut capture. The analysis never fails on the cut capture, and a message that was cut is reported as malformed or incomplete rather than silently treated as complete, unless framing gives no way to tell (a body delimited by the end of the connection).",
 ["crash_points"], "every cut point of the request and of the response stream of every capture",
 "Tests contain two or three truncated captures; there are as many crash points as bytes.",
 [FR, ST], [("short reads raise parse errors", ST + ":Stream.read"), ("unterminated lines", ST + ":Stream.readline")],
 (), ["exchanges produced from truncated stream files"])
prop("C04", "Responses are attributed to the request they answer",
 "Requests on a connection are answered in order: each request gets all interim (1xx) responses up to and including the first final response, 101 counts as final, and the framing of each response uses the method of that request. Requests without any response data are reported alone, and responses left over after all requests are still checked, without a request and with notice 1008.",
 ["histories", "inputs"], "all pipelines of requests, interim and final responses, including missing and surplus ones",
 "Tests include only short pipelines; attribution depends on the whole history of both streams.",
 [FR, "httpolice/exchange.py"], [("response loop", FR + ":_parse_responses"), ("pairing loop", FR + ":parse_streams")],
 (), ["request and responses of each exchange"])
prop("C05", "Chunked and other transfer codings decode to the exact payload or to a notice",
 "A chunked body decodes to the concatenation of its chunks exactly when every chunk has a valid hexadecimal size (extensions and trailing blanks ignored), the announced number of bytes, and line ends in the right places; its trailer fields become trailers of the message. Other codings are removed from last to first, with notices 1002 for a second chunked, 1003 for an unknown coding and 1027 for undecodable data, after which the body is unavailable.",
 ["inputs"], "all chunk size spellings, chunk layouts, extensions, trailers and coding lists",
 "Tests use a few well-formed chunked bodies and one or two malformed ones; the grammar of sizes and coding stacks is unbounded.",
 [FR, "httpolice/codings.py"], [("chunk parser", FR + ":_parse_chunk"), ("transfer decoding", FR + ":_decode_transfer_coding")])
prop("C06", "Header blocks are split into the exact fields that were sent",
 "Each line of a header block becomes one field with the bytes before the first colon as its name and the remaining bytes, stripped of surrounding blanks, as its value, in the original order. Obsolete folding joins continuation lines with one space (notice 1016), a bare LF line end is accepted (notice 1224), while a line without a colon, without a line end, or longer than 16 KiB makes the heading malformed.",
 ["inputs"], "all byte sequences in the header section",
 "Fixtures contain mostly clean headers; every byte position can hold any of 256 values.",
 [FR, ST], [("field splitting", FR + ":parse_header_fields"), ("line reading", ST + ":Stream.readline")])
prop("C07", "Repeated header fields combine by the rule of that header",
 "For a header that allows lists, the value is the concatenation in order of the elements of all its fields (headers first, then trailers), with malformed fields contributing nothing usable; for a header that allows one value, the last field counts and repetition is reported once as notice 1013; a list header's singleton form (such as *) excludes any other value. Fields not allowed in trailers are ignored there (1026), and an absent or malformed value never satisfies any comparison or membership test.",
 ["inputs", "histories"], "all sequences of header and trailer fields",
 "Unit tests cover a few header combinations; the rule must hold for every header known and every number and order of fields.",
 ["httpolice/header.py", "httpolice/known/header.csv"], [("single/multi views", "httpolice/header.py"), ("combination rule table", "httpolice/known/header.csv")])
prop("C08", "The grammar engine accepts exactly the language its grammar describes",
 "For every grammar built from the combinators (without left recursion) and every input, parsing succeeds exactly when the input is derivable from the grammar, and the result and notices it yields are those of a derivation. Failure points at the first position after which no derivation can continue.",
 ["programs", "inputs"], "all grammars over the combinators (sequence, alternative, repetition, optional, exclusion, recursion) and all inputs",
 "The existing tests parse a few dozen strings with a few grammars; correctness of a general context-free parser is a claim about all grammars and strings.",
 ["httpolice/parse.py"], [("Earley recognizer", "httpolice/parse.py:_inner_parse"), ("result builder", "httpolice/parse.py:_find_results")])
prop("C09", "Checking is independent of what was checked before",
 "The notices and decoded data for an exchange depend only on that exchange: they are the same whatever was parsed or checked earlier in the process, in whatever order, and however often, including when internal caches are full or hold results for the same text under a different rule. Checking or reporting one exchange never changes another.",
 ["histories"], "all sequences of exchanges and parses, longer than any internal cache",
 "Tests run each fixture once in a fixed order; history dependence shows only for particular sequences.",
 ["httpolice/parse.py", "httpolice/blackboard.py", "httpolice/header.py"], [("parse cache", "httpolice/parse.py:_memo"), ("per-message memo", "httpolice/blackboard.py:derived_property")],
 [("parse cache", "least-recently-used map of parse results", "httpolice/parse.py")])
prop("C10", "Header values are accepted exactly when they match their RFC grammar",
 "For the standard headers with a defined syntax, the request target, the method, header names and the reason phrase, HTTPolice reports a syntax error exactly when the value does not match the grammar of the defining specification. A matching value is never rejected and a non-matching one never passes silently.",
 ["inputs"], "all values for each header with a known syntax",
 "Tests try one or two malformed values for some headers; each grammar describes an infinite language.",
 ["httpolice/syntax/", "httpolice/known/header.csv", "httpolice/header.py"], [("grammars", "httpolice/syntax/*.py"), ("header-to-grammar table", "httpolice/known/header.csv")])
prop("C11", "Notices are reported once per place, and silencing hides exactly the chosen ones",
 "The same complaint about the same thing is listed once however often it is raised, distinct complaints are all listed in the order raised. Silencing a set of notices on an exchange or message hides exactly those notices on it and on all of its messages, no matter whether it happens before or after the check, how often, or as what kind of collection the set is given, and never affects other objects.",
 ["histories"], "all interleavings of raising, silencing and reading notices on an exchange and its messages",
 "Tests silence one notice in one order; the property is about all operation sequences.",
 ["httpolice/blackboard.py", "httpolice/exchange.py"], [("deduplication", "httpolice/blackboard.py:Blackboard.complain"), ("silencing", "httpolice/blackboard.py:Blackboard.silence")],
 [("notices", "complaints raised so far, in order", "httpolice/blackboard.py"), ("silenced", "notice IDs hidden", "httpolice/blackboard.py")])
prop("C12", "HTTPolice-Silence headers silence exactly the notices they name, where they say",
 "In a request, HTTPolice-Silence hides the listed notices on that request, and those marked 'resp' hide them on its responses instead; in a response it hides the listed notices on that response whether marked or not. It affects no other message and no unlisted notice, and a malformed header silences nothing.",
 ["inputs", "histories"], "all silence lists on any message of an exchange",
 "Tests cover two or three hand-written headers.",
 ["httpolice/request.py", "httpolice/response.py", "httpolice/syntax/internal.py"], [("request side", "httpolice/request.py:check_request"), ("response side", "httpolice/response.py:check_response_in_context")])
prop("C13", "The command-line exit status and output agree with the report",
 "The httpolice command exits with status 1 exactly when an input cannot be read or understood (with a message on standard error) or when --fail-on names a severity and at least one notice of that or higher severity, not hidden by -s or an HTTPolice-Silence header, was reported; otherwise it exits with 0. Options -s hide the given notices in the report on every exchange, including standalone notices.",
 ["inputs", "configurations"], "all inputs, input formats, --fail-on and -s combinations",
 "Tests run the tool on a few files with one or two option combinations.",
 ["httpolice/cli.py"], [("severity count", "httpolice/cli.py:run_cli")])
prop("C14", "Merging connections by time loses nothing and keeps each connection's order",
 "When several connections are analysed together, the output is a permutation of all their exchanges and standalone notices in which the exchanges of each connection keep their order. Whenever times are known (start-of-connection hints, Date, Age) the next exchange comes from the connection whose current position is earliest, and connections of unknown time are placed by their first dated exchange or reported as soon as they are reached.",
 ["schedules", "histories"], "all sets of connections with any start hints and dates present or missing",
 "Tests merge three or four recorded connections.",
 ["httpolice/inputs/streams.py"], [("merge", "httpolice/inputs/streams.py:_rearrange_by_time"), ("exchange time", "httpolice/inputs/streams.py:_exchange_time")])
prop("C15", "Capture directories are paired into connections with the right direction",
 "From a directory of tcpflow or tcpick files, the two streams of each connection are paired by addresses, ports and connection number regardless of file order, a stream without counterpart is reported (1278) and still analysed, and direction is decided by content with 1279 reported for connections that are not HTTP/1.x. Names that do not follow the tool's naming scheme, or tcpflow duplicates of the same endpoints, are rejected as input errors; a combined file gives the streams around its two markers (text before the first marker is preamble), with its scheme by its suffix, and a file without them is an input error; the same traffic gives the same exchanges in every stream-based input format.",
 ["inputs", "configurations"], "all sets of capture files and their names, orders and contents",
 "Tests use a few recorded directories.",
 ["httpolice/inputs/streams.py"], [("pairing", "httpolice/inputs/streams.py:_recombine_streams"), ("sniffing", "httpolice/inputs/streams.py:_sniff_direction")])
prop("C16", "HAR files map to the exchanges they describe, or to an input error",
 "Each HAR entry becomes one exchange with its method, target, headers and status, with a body that is empty, present-but-unavailable or unknown as the entry's sizes say, decoded text attached when given, no HTTP version for browser exports, and exporter quirks (Chrome status 0, Firefox and Fiddler artefacts) removed. Anything that is not a well-formed HAR document is reported as an input error.",
 ["inputs"], "all HAR documents, exporters, and combinations of size and content fields",
 "Tests use about twenty recorded HAR files.",
 ["httpolice/inputs/har.py"], [("entry mapping", "httpolice/inputs/har.py:_process_request, _process_response")])
R = "httpolice/request.py"; S = "httpolice/response.py"; M = "httpolice/message.py"
rule_why = "Each rule has one or two example fixtures; the rule must fire exactly when its condition holds, for every combination of method, version, status, body and headers."
prop("C20", "Request checks fire exactly when their documented condition holds",
 "For every request, the notices about its own method, version, body, Host, Content-Length, TE, Expect, Max-Forwards, Referer, User-Agent, Accept-family, Prefer and misplaced headers (1021, 1022, 1028-1032, 1041, 1053, 1056, 1057, 1059, 1061-1063, 1066-1068, 1070, 1093, 1116, 1213, 1276, 1285, 1287-1290, 1292, 1295) are reported exactly when the condition each notice documents holds, once per offending item.",
 ["inputs"], "all requests", rule_why, [R, M, "httpolice/known/"], [("request rules", R + ":check_request")])
prop("C21", "Response status checks fire exactly when their documented condition holds",
 "For every response, the notices that depend on its status code and its own headers and body (1018, 1023, 1052, 1064, 1076, 1078-1080, 1082-1084, 1088, 1089, 1094, 1110-1113, 1118, 1147, 1167, 1194, 1195, 1198, 1205, 1217-1220, 1227, 1235, 1240, 1243, 1294, 1310) are reported exactly when the documented condition holds, once per offending item.",
 ["inputs"], "all responses", rule_why, [S, M, "httpolice/known/"], [("response rules", S + ":check_response_itself")])
prop("C22", "Checks relating a response to its request fire exactly when they should",
 "For every request-response pair, the notices that compare the two (1019, 1024, 1033, 1041, 1058, 1071-1074, 1077, 1081, 1086, 1087, 1090, 1092, 1095-1106, 1114, 1115, 1117, 1199, 1201, 1203, 1204, 1214-1216, 1221, 1239, 1242, 1283, 1284, 1286, 1291, 1306) are reported exactly when the documented condition on that pair holds, and never when the request is unknown.",
 ["inputs"], "all request-response pairs", rule_why, [S, "httpolice/known/"], [("context rules", S + ":check_response_in_context")])
prop("C23", "Caching and freshness checks fire exactly when they should",
 "For every response and its request if known, cache-related notices (1152-1166, 1168-1188, 1193, 1202, 1238, 1241, 1301-1303) follow from Age, Date, Expires, Cache-Control, Pragma and Warning exactly as documented: whether the response came from a cache, was stale, used heuristic freshness, and whether its directives contradict each other or are misplaced.",
 ["inputs"], "all combinations of cache-related headers on both messages", rule_why, [S, R, M, "httpolice/known/cache_directive.csv"], [("cache inference", S + ":Response.from_cache, stale, heuristic_expiration")])
prop("C24", "Conditional and range request checks fire exactly when they should",
 "For every exchange, notices about preconditions, validators and byte ranges (1120-1125, 1127-1138, 1141-1146, 1148-1150, 1200) are reported exactly when the documented condition holds, using weak or strong entity-tag comparison as specified.",
 ["inputs"], "all combinations of preconditions, validators, ranges and statuses", rule_why, [S, R, "httpolice/syntax/rfc7232.py", "httpolice/syntax/rfc7233.py"], [("conditional rules", S + ":check_response_in_context")])
prop("C25", "Connection, upgrade and HTTP version checks fire exactly when they should",
 "For every exchange, notices about hop-by-hop headers, upgrades, HTTP/2 restrictions, 100-continue, close-delimited bodies and response sequences (1020, 1025, 1030, 1034, 1047-1051, 1054, 1071, 1228, 1230-1234, 1244-1246, 1258, 1260, 1304, 1305) are reported exactly when the documented condition holds.",
 ["inputs", "histories"], "all exchanges with any number of responses and any protocol version", rule_why, [S, R, M, "httpolice/exchange.py"], [("upgrade rules", S + ":check_response_in_context"), ("sequence rules", S + ":check_responses")])
prop("C26", "Authentication checks fire exactly when they should",
 "For every message, notices about credentials and challenges for Basic, Bearer and other schemes, and about access tokens in URIs and bodies (1196, 1206-1212, 1261-1274), are reported exactly when the documented condition holds.",
 ["inputs"], "all credentials, challenges and statuses", rule_why, [S, R, "httpolice/syntax/rfc7235.py", "httpolice/syntax/rfc6749.py"], [("credential rules", R + ":_check_basic_auth, _check_bearer_auth"), ("challenge rules", S + ":_check_basic_challenge, _check_bearer_challenge")])
prop("C27", "Proxy, transformation and effective-URI checks fire exactly when they should",
 "For every exchange, the effective request URI is the one RFC 7230 section 5.5 constructs from scheme, target and Host, and the notices that depend on it or on evidence of a proxy (1045, 1046, 1055, 1060, 1085, 1189-1192, 1236, 1237) are reported exactly when the documented condition holds.",
 ["inputs"], "all combinations of target form, scheme, Host, Via, Warning and Location", rule_why, [R, S, M], [("effective URI", R + ":Request.effective_uri"), ("proxy inference", R + ":Request.is_to_proxy")])
prop("C28", "Interim 103 responses are not judged as if their headers were their own",
 "A 103 (Early Hints) response never gets notices that rely on its headers describing the response itself (body, caching, representation, location, retry, framing and transformation rules), while every check that applies to any header line on its own is still made.",
 ["inputs"], "all headers that a 103 response may carry", rule_why, [S, M], [("early return", S + ":check_response_itself")])
prop("C29", "Checks of individual header semantics fire exactly when they should",
 "For every message, notices about the contents of single headers (dates 1107-1109, 1222, 1223; Content-Type 1035, 1042, 1280, 1282; Content-Disposition 1247-1254; HSTS 1218-1221; Link 1225, 1226, 1307-1309; Forwarded 1296, 1297; Alt-Svc 1256, 1257; Vary 1235; X- and deprecated names 1277, 1197, 1293; list and whitespace defects 1014, 1015, 1017, 1151; quoted delimiters 1299, 1300) are reported exactly when the documented condition holds.",
 ["inputs"], "all values of these headers", rule_why, [M, S, "httpolice/syntax/", "httpolice/header.py", "httpolice/known/"], [("semantic actions", "httpolice/syntax/*.py"), ("header views", "httpolice/header.py")])
prop("C30", "Body decoding yields the encoded content, or a notice and nothing usable",
 "For every body, content codings are removed from last to first and the content is then decoded by charset and parsed as JSON, XML, multipart or URL-encoded form exactly when the media type calls for it and the message carries a full instance of it; each undecodable layer is reported once (1036-1040, 1139, 1140, 1275, 1281) and makes all later layers unavailable. A body that is unknown or unavailable is never reported as bad.",
 ["inputs"], "all combinations of body availability, codings, charset, media type, method and status",
 "Tests cover some single layers; failures are about combinations of layers.",
 [M, "httpolice/codings.py"], [("decoding chain", M + ":Message.decoded_body, unicode_body, json_data, xml_data, multipart_data, url_encoded_data")])
prop("C31", "Reports list exactly the unsilenced notices of every exchange, in order",
 "For any sequence of exchanges, the text and HTML reports contain one entry for each exchange that has something to show, in order, and within it each unsilenced notice of the exchange, its request and its responses exactly once, with its number, severity and title, under the message it belongs to. Nothing silenced and nothing from other exchanges appears, and both reports agree.",
 ["inputs", "histories"], "all sequences of exchanges with any notices and silencing",
 "Tests only check that reports are produced without crashing and look for a few strings.",
 ["httpolice/reports/text.py", "httpolice/reports/html.py", "httpolice/reports/common.py"], [("text report", "httpolice/reports/text.py"), ("HTML report", "httpolice/reports/html.py")])
prop("C32", "Reports are well-formed and show hostile data inertly",
 "Whatever bytes and characters the messages contain, reports are valid UTF-8, text reports contain no control characters other than tabs and line ends, and in HTML reports message data appears only as text or quoted attribute values, never as markup. The request line, status line, headers, and textual bodies shown are those of the message, apart from replaced unprintable characters and announced abbreviation.",
 ["inputs"], "all message contents, including control characters, markup and invalid UTF-8",
 "Tests look at a few benign inputs.",
 ["httpolice/reports/", "httpolice/util/text.py"], [("escaping", "httpolice/reports/html.py"), ("printable text", "httpolice/util/text.py:printable")])
prop("C33", "Protocol elements that are case-insensitive are treated so, and others are not",
 "Changing the letter case of header names, of codings, connection options, directives, media types, authentication schemes, parameter names and other case-insensitive tokens never changes which notices are reported or how bodies are decoded. Methods and other case-sensitive elements are not confused with differently-cased ones.",
 ["inputs"], "all letter-case variants of all case-insensitive elements of any exchange",
 "Tests use canonical case almost everywhere.",
 ["httpolice/structure.py", "httpolice/parse.py", "httpolice/known/"], [("case-insensitive types", "httpolice/structure.py:CaseInsensitive")])
prop("C34", "Missing information only disables checks, it never invents notices",
 "Replacing known information about an exchange (protocol version, URI scheme, body, reason phrase, the whole request) by 'unknown' never makes a notice appear that is not reported when the information is known, apart from notices that the known value itself suppressed; and never makes the check fail.",
 ["inputs", "configurations"], "all exchanges and all subsets of information made unknown",
 "Tests use unknown values in a few HAR and API cases.",
 [R, S, M], [("tri-state properties", "httpolice/blackboard.py:derived_property")])
prop("C35", "No input makes checking or reporting fail",
 "For every input that is a sequence of bytes in a supported format, and every exchange that can be constructed through the API, parsing, checking, and both reports complete without an exception. Unreadable or nonsensical input files are reported as input errors.",
 ["inputs"], "all byte strings as streams, all headers, methods, targets, statuses and bodies",
 "Tests exercise inputs that somebody thought of.",
 ["httpolice/"], [("all parsing and checking code", "httpolice/")])
prop("C36", "Each notice names the thing it is about",
 "In the title of a notice, the parts that vary (the header, directive, parameter, coding, warn code, status code, method, version or part number) are those of the message it is reported under and of the offending item it was reported for. When several items offend, each of them is named, once each, and nothing that does not offend is named.",
 ["inputs"], "all exchanges with any number of offending items of any kind",
 "Tests compare notice numbers, never the words; a user who is pointed at the wrong header is misled.",
 ["httpolice/response.py", "httpolice/request.py", "httpolice/message.py", "httpolice/header.py", "httpolice/notice.py", "httpolice/reports/common.py"],
 [("complaint context", "httpolice/blackboard.py:Blackboard.complain"), ("references in titles", "httpolice/reports/common.py:resolve_reference")], (), ["text report"])
prop("C37", "Helper functions keep every header and only the requested ones move",
 "Removing HTTP/2 pseudo-headers takes out exactly the entries whose names start with a colon, returns their values, and keeps all others in order; converting CGI variables yields exactly one field for every HTTP_* variable and every non-empty CONTENT_LENGTH and CONTENT_TYPE, Host first, with the variable's value.",
 ["inputs"], "all header lists and CGI environments",
 "Tests use one or two lists.",
 ["httpolice/helpers.py"], [("helpers", "httpolice/helpers.py")])
prop("C38", "HTML notices point at what they are about, and links lead to the right place",
 "A notice in an HTML report points (mouseover highlights) at exactly the displayed parts of its own exchange that it is about: the header fields, method, target, version, status code and body that its title and explanation mention, of the message it is reported under or of its request, and nothing else. Methods, status codes and header names shown in the report (also within header values) are linked to their definitions, and no link leads to the definition of something else.",
 ["inputs"], "all exchanges with any notices, repeated headers and trailers",
 "Tests never look at the references and links in a report.",
 ["httpolice/reports/html.py", "httpolice/reports/common.py", "httpolice/header.py", "httpolice/notices.xml", "httpolice/known/__init__.py"],
 [("references", "httpolice/reports/html.py:_reference_ids, _magic_references"), ("entries of a header", "httpolice/header.py:HeaderView.entries"), ("links", "httpolice/reports/html.py:_render_known")], (), ["HTML report"])
prop("C39", "Syntax and framing errors say truthfully where and why",
 "The explanation of a syntax error (in a header field, method, target, header name or reason phrase) gives as offset the length of the longest beginning of the text that some valid value begins with, names the octet found there (or the end of data), and lists as expected exactly the octets that could have come there instead, and the end of data exactly if the text would have been valid up to there. The explanation of a framing error names its stream, the offset of the line or data that was being read when reading went wrong, what was missing there (an end of line, a number of octets, an empty line, a well-formed line) and as part of which element; notices about unparsed data give the offset where that data begins.",
 ["inputs"], "all texts and streams with errors",
 "Tests fix the explanations of a few errors; the position, the found octet and the expected set must be right for every malformed text.",
 ["httpolice/parse.py", "httpolice/stream.py", "httpolice/framing1.py", "httpolice/reports/common.py", "httpolice/util/text.py", "httpolice/syntax"],
 [("error construction", "httpolice/parse.py:_build_parse_error, ParseError"), ("stream errors", "httpolice/stream.py:Stream.error, Stream.parsing"), ("explanation", "httpolice/reports/common.py:expand_parse_error"), ("octets", "httpolice/util/text.py:format_chars")], (), ["HTML report"])
prop("C40", "Explanations state true facts",
 "What the explanation of a notice states in particular (a status code, method or version, a header value, a size, number or date, the offending octet or value, what it should have been) is so in the message it is reported under or its request, and belongs to the offending item that the title names; what is repeated is repeated unchanged.",
 ["inputs"], "all exchanges and streams with any notices",
 "Tests never read explanations; a wrong number or value there misleads the user just as a wrong notice would.",
 ["httpolice/notices.xml", "httpolice/notice.py", "httpolice/message.py", "httpolice/request.py", "httpolice/response.py", "httpolice/header.py", "httpolice/framing1.py", "httpolice/syntax"],
 [("complaint context", "httpolice/blackboard.py:Blackboard.complain"), ("explanations", "httpolice/notice.py:Notice.explanation"), ("values from syntax checks", "httpolice/parse.py:can_complain")], (), ["HTML report"])
prop("C41", "The Python API keeps what it is given, in whatever form it is given",
 "Request, Response and Exchange objects hold exactly what they were given (Unicode header values taken as ISO-8859-1), with None kept apart from empty. All documented forms of the same message (byte string or Unicode values, list or tuple, plain pairs or the entries of another message, absent or empty trailer, number or http.HTTPStatus, list or iterator of exchanges for reports) give the same notices and reports. Checking, reporting and looking at objects change neither the messages, nor what their header fields are taken to say, nor the caller's own objects. Once an exchange is checked, its notices and reports stay the same, however often it was or is checked, reported or looked at before or again, and nothing that was found is lost. Notices have the identifier and severity that the notices base gives them; severities are ordered debug < comment < error; a text report on several exchanges is that on each of them in turn.",
 ["inputs", "histories"], "all messages in all forms, and all sequences of checking, reporting and looking",
 "Tests build each message in one form, check it once, and look at the notices only.",
 ["httpolice/request.py", "httpolice/response.py", "httpolice/message.py", "httpolice/structure.py", "httpolice/exchange.py", "httpolice/blackboard.py", "httpolice/notice.py", "httpolice/util/text.py"],
 [("construction", "httpolice/message.py:Message.__init__"), ("header entries", "httpolice/structure.py:HeaderEntry"), ("notices", "httpolice/blackboard.py:Complaint"), ("severities", "httpolice/notice.py:Severity")], (), ["text report", "HTML report"])
prop("C42", "The arrangement of header fields changes nothing",
 "Rearranging the header of a message in a way that does not change its meaning makes no notice appear on or disappear from any message of the exchange: fields of different names changing places (other than the Host field losing or gaining the first place), a list (other than Forwarded, where a notice is about how it is written, and lists of challenges) being split into several fields or several fields joined into one list, spaces and tabs around the commas of a list, a field, a cache directive or a preference that nobody knows being added, another reason phrase.",
 ["inputs", "histories"], "all exchanges and all sequences of such rearrangements of their headers",
 "Each test has one arrangement; looking only at the first field, the first element or the neighbouring field passes them all.",
 ["httpolice/header.py", "httpolice/message.py", "httpolice/request.py", "httpolice/response.py", "httpolice/syntax/rfc7230.py"],
 [("combining fields", "httpolice/header.py:MultiHeaderView"), ("lists", "httpolice/syntax/common.py"), ("loops over headers", "httpolice/message.py:check_message")])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P))
