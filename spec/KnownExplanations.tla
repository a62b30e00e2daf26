-------------------------- MODULE KnownExplanations --------------------------
(* The notices: number, what the variable parts of the title and of the explanation stand for, and the *)
(* fixed parts of the explanation around them (paragraphs are separated by " | "), in plain punctuation. *)
(* Frozen by tools/mkexplain.py; see DESIGN.md. *)
EXTENDS Naturals, Sequences
ExplanationTable == <<
  <<1000, <<"place">>, <<"error">>,
    <<"",
      "">>>>,
  <<1001, <<>>, <<>>,
    <<"RFC 7230 section 3.3.1: If any transfer coding other than chunked is applied to a request payload body, the sender MUST apply chunked as the final transfer coding to ensure that the message is properly framed.">>>>,
  <<1002, <<>>, <<>>,
    <<"RFC 7230 section 3.3.1: A sender MUST NOT apply chunked more than once to a message body (i.e., chunking an already chunked message is not allowed).">>>>,
  <<1003, <<"coding">>, <<"coding">>,
    <<"HTTPolice does not know how to decode the ",
      " transfer coding. (This doesn't mean that it's wrong.)">>>>,
  <<1004, <<>>, <<"msg.headers.content_length.value", "error.name">>,
    <<"This message's Content-Length header indicates that the body is ",
      " bytes long, but there are fewer bytes remaining on the stream ",
      ".">>>>,
  <<1005, <<>>, <<"error">>,
    <<"",
      "">>>>,
  <<1006, <<>>, <<"error">>,
    <<"",
      "">>>>,
  <<1007, <<>>, <<"offset", "stream.name">>,
    <<"Due to previous notices, the data beginning at byte ",
      " on the request stream ",
      " will not be parsed.">>>>,
  <<1008, <<>>, <<"stream.name">>,
    <<"There are unparsed bytes remaining on the response stream ",
      ", but no requests that would correspond to them. HTTPolice will try to parse and analyze the remaining responses on their own.">>>>,
  <<1009, <<>>, <<"error">>,
    <<"",
      "">>>>,
  <<1010, <<>>, <<"offset", "stream.name">>,
    <<"Due to previous notices, the data beginning at byte ",
      " on the response stream ",
      " will not be parsed.">>>>,
  <<1011, <<>>, <<>>,
    <<"The 101 status code means that the connection is switching to a different protocol. HTTPolice will not parse the rest of the streams.">>>>,
  <<1012, <<>>, <<"msg.status">>,
    <<"A ",
      " response to a CONNECT request means that the connection is becoming a tunnel. HTTPolice will not parse the remainder of the streams.">>>>,
  <<1013, <<"header">>, <<>>,
    <<"RFC 7230 section 3.2.2: A sender MUST NOT generate multiple header fields with the same field name in a message unless either the entire field value for that header field is defined as a comma-separated list [i.e., #(values)] or the header field is a well-known exception (as noted below).">>>>,
  <<1014, <<"place">>, <<"place", "num">>,
    <<"The syntax of ",
      " includes the rule named RWS. It should be produced as just a single space, but here it was ",
      " characters. See RFC 7230 section 3.2.3.">>>>,
  <<1015, <<"place">>, <<"place">>,
    <<"The syntax of ",
      " includes the rule named BWS, which is whitespace allowed for historical reasons; it must not be produced by current implementations. See RFC 7230 section 3.2.3.">>>>,
  <<1016, <<>>, <<>>,
    <<"This message uses line folding (the \"obs-fold\" rule) to split one header field over several physical lines, but this is deprecated and prohibited in most cases. See RFC 7230 section 3.2.4.">>>>,
  <<1017, <<"place">>, <<"char">>,
    <<"This message uses the \"quoted-pair\" rule to escape the character ",
      " in a context where this escaping is unnecessary and should not be used. See RFC 7230 section 3.2.6. | If a literal backslash \\ was intended here, it must itself be escaped as \\\\.">>>>,
  <<1018, <<"msg.status">>, <<>>,
    <<"RFC 7230 section 3.3.1: A server MUST NOT send a Transfer-Encoding header field in any response with a status code of 1xx (Informational) or 204 (No Content).">>>>,
  <<1019, <<"msg.status">>, <<>>,
    <<"RFC 7230 section 3.3.1: A server MUST NOT send a Transfer-Encoding header field in any 2xx (Successful) response to a CONNECT request">>>>,
  <<1020, <<>>, <<>>,
    <<"RFC 7230 section 3.3.2: A sender MUST NOT send a Content-Length header field in any message that contains a Transfer-Encoding header field.">>>>,
  <<1021, <<"msg.method">>, <<>>,
    <<"RFC 7230 section 3.3.2: A user agent SHOULD send a Content-Length in a request message when no Transfer-Encoding is sent and the request method defines a meaning for an enclosed payload body. For example, a Content-Length header field is normally sent in a POST request even when the value is 0 (indicating an empty payload body).">>>>,
  <<1022, <<"msg.method">>, <<>>,
    <<"RFC 7230 section 3.3.2: A user agent SHOULD NOT send a Content-Length header field when the request message does not contain a payload body and the method semantics do not anticipate such a body.">>>>,
  <<1023, <<"msg.status">>, <<>>,
    <<"RFC 7230 section 3.3.2: A server MUST NOT send a Content-Length header field in any response with a status code of 1xx (Informational) or 204 (No Content).">>>>,
  <<1024, <<"msg.status">>, <<>>,
    <<"RFC 7230 section 3.3.2: A server MUST NOT send a Content-Length header field in any 2xx (Successful) response to a CONNECT request (Section 4.3.6 of [RFC7231]).">>>>,
  <<1025, <<>>, <<>>,
    <<"This response has no Content-Length header and no \"Transfer-Encoding: chunked\" that would delimit its body. Therefore, the body is assumed to consist of everything the server sends until closing the connection. But then the client cannot be sure that it received the entire response (that there were no network failures). | See RFC 7230 section 3.3.3.">>>>,
  <<1026, <<"entry">>, <<>>,
    <<"RFC 7230 section 4.1.2: A sender MUST NOT generate a trailer that contains a field necessary for message framing (e.g., Transfer-Encoding and Content-Length), routing (e.g., Host), request modifiers (e.g., controls and conditionals in Section 5 of [RFC7231]), authentication (e.g., see [RFC7235] and [RFC6265]), response control data (e.g., see Section 7.1 of [RFC7231]), or determining how to process the payload (e.g., Content-Encoding, Content-Type, Content-Range, and Trailer).">>>>,
  <<1027, <<"coding">>, <<"error">>,
    <<"",
      "">>>>,
  <<1028, <<>>, <<>>,
    <<"RFC 7230 section 4.3: A client MUST NOT send the chunked transfer coding name in TE; chunked is always acceptable for HTTP/1.1 recipients.">>>>,
  <<1029, <<>>, <<>>,
    <<"RFC 7230 section 4.3: Since the TE header field only applies to the immediate connection, a sender of TE MUST also send a \"TE\" connection option within the Connection header field (Section 6.1) in order to prevent the TE field from being forwarded by intermediaries that do not support its semantics.">>>>,
  <<1030, <<"header">>, <<>>,
    <<"RFC 7230 section 4.4: When a message includes a message body encoded with the chunked transfer coding and the sender desires to send metadata in the form of trailer fields at the end of the message, the sender SHOULD generate a Trailer header field before the message body to indicate which fields will be present in the trailers.">>>>,
  <<1031, <<>>, <<>>,
    <<"RFC 7230 section 5.4: A client MUST send a Host header field in all HTTP/1.1 request messages.">>>>,
  <<1032, <<>>, <<>>,
    <<"RFC 7230 section 5.4: Since the Host field-value is critical information for handling a request, a user agent SHOULD generate Host as the first header field following the request-line.">>>>,
  <<1033, <<>>, <<>>,
    <<"RFC 7230 section 5.4: A server MUST respond with a 400 (Bad Request) status code to any HTTP/1.1 request message that lacks a Host header field and to any request message that contains more than one Host header field or a Host header field with an invalid field-value.">>>>,
  <<1034, <<"header">>, <<>>,
    <<"RFC 7230 section 5.4: A sender MUST NOT send a connection option corresponding to a header field that is intended for all recipients of the payload. For example, Cache-Control is never appropriate as a connection option (Section 5.2 of [RFC7234]).">>>>,
  <<1035, <<"msg.headers.content_type.value">>, <<"msg.headers.content_type.value">>,
    <<"According to Content-Type, this message's body is of type ",
      ", which is listed as \"deprecated\" or \"obsoleted\" in the IANA media types registry.">>>>,
  <<1036, <<"coding">>, <<"coding">>,
    <<"HTTPolice does not know how to decode the ",
      " content coding. (This doesn't mean that it's wrong.)">>>>,
  <<1037, <<"coding">>, <<"error">>,
    <<"",
      "">>>>,
  <<1038, <<>>, <<"error">>,
    <<"According to Content-Type, this message's body is JSON, but HTTPolice tried to parse it as JSON and got the following error: | ",
      "">>>>,
  <<1039, <<>>, <<"error">>,
    <<"According to Content-Type, this message's body is XML, but HTTPolice tried to parse it as XML and got the following error: | ",
      "">>>>,
  <<1040, <<>>, <<"char">>,
    <<"According to Content-Type, this message's body is URL-encoded. But it doesn't look like a proper URL-encoded string, as defined by HTML5, because it contains the character: ",
      ". | This often means that the Content-Type header is wrong.">>>>,
  <<1041, <<>>, <<>>,
    <<"RFC 7231 section 3.1.1.5: A sender that generates a message containing a payload body SHOULD generate a Content-Type header field in that message unless the intended media type of the enclosed representation is unknown to the sender.">>>>,
  <<1042, <<"param">>, <<>>,
    <<"RFC 6838 section 4.3: It is an error for a specific parameter to be specified more than once.">>>>,
  <<1045, <<>>, <<"error">>,
    <<"",
      " | See also RFC 7230 section 5.3.">>>>,
  <<1046, <<>>, <<>>,
    <<"According to RFC 7230 section 5.7.1, a proxy must add a Via header to each response that it forwards.">>>>,
  <<1047, <<>>, <<>>,
    <<"When a response is delimited only by closing the connection, it should have a Connection header with a 'close' option. See RFC 7230 section 6.3 and RFC 7230 section 6.6.">>>>,
  <<1048, <<>>, <<>>,
    <<"RFC 7230 section 6.7: A server that sends a 101 (Switching Protocols) response MUST send an Upgrade header field to indicate the new protocol(s) to which the connection is being switched">>>>,
  <<1049, <<>>, <<>>,
    <<"RFC 7230 section 6.7: A server MUST NOT switch to a protocol that was not indicated by the client in the corresponding request's Upgrade header field.">>>>,
  <<1050, <<>>, <<>>,
    <<"RFC 7230 section 6.7: When Upgrade is sent, the sender MUST also send a Connection header field (Section 6.1) that contains an \"upgrade\" connection option, in order to prevent Upgrade from being accidentally forwarded by intermediaries that might not implement the listed protocols.">>>>,
  <<1051, <<>>, <<>>,
    <<"RFC 7230 section 6.7: A server MUST ignore an Upgrade header field that is received in an HTTP/1.0 request.">>>>,
  <<1052, <<"header", "msg.status">>, <<"header", "msg.status">>,
    <<"The ",
      " header provides representation metadata, but there can be no representation associated with a ",
      " response. The header should probably be removed.">>>>,
  <<1053, <<"header">>, <<"header">>,
    <<"The ",
      " header provides representation metadata. It would make sense in a request with a body, but this one has no body. | See also RFC 7231 section 3.1.">>>>,
  <<1054, <<>>, <<>>,
    <<"The Trailer header announces what other headers will be sent in the trailer part of a chunked message. It doesn't make sense here because this message does not use the chunked transfer coding. | See also RFC 7230 section 4.1.2.">>>>,
  <<1055, <<>>, <<"msg.status", "msg.request.method">>,
    <<"This is a ",
      " response to a ",
      " request. By definition, its body is a representation of the requested resource. But it also has a Content-Location header that points to the same URI as the request URI. In this case, the header provides no additional information. | See also RFC 7231 section 3.1.4.1.">>>>,
  <<1056, <<>>, <<>>,
    <<"RFC 7231 section 4.3.1: A payload within a GET request message has no defined semantics; sending a payload body on a GET request might cause some existing implementations to reject the request.">>>>,
  <<1057, <<>>, <<>>,
    <<"RFC 7231 section 4.3.2: A payload within a HEAD request message has no defined semantics; sending a payload body on a HEAD request might cause some existing implementations to reject the request.">>>>,
  <<1058, <<>>, <<>>,
    <<"RFC 7231 section 4.3.4: An origin server that allows PUT on a given target resource MUST send a 400 (Bad Request) response to a PUT request that contains a Content-Range header field (Section 4.2 of [RFC7233]), since the payload is likely to be partial content that has been mistakenly PUT as a full representation.">>>>,
  <<1059, <<>>, <<>>,
    <<"RFC 7231 section 4.3.5: A payload within a DELETE request message has no defined semantics; sending a payload body on a DELETE request might cause some existing implementations to reject the request.">>>>,
  <<1060, <<>>, <<"msg.status">>,
    <<"This is an ostensibly successful (",
      ") response to a DELETE request. However, according to its Content-Location header, it carries a representation of the target resource--the one that should have been deleted. Either the Content-Location is wrong, or the request did not actually succeed.">>>>,
  <<1061, <<>>, <<>>,
    <<"RFC 7231 section 4.3.6: A payload within a CONNECT request message has no defined semantics; sending a payload body on a CONNECT request might cause some existing implementations to reject the request.">>>>,
  <<1062, <<>>, <<>>,
    <<"RFC 7231 section 4.3.7: A client that generates an OPTIONS request containing a payload body MUST send a valid Content-Type header field describing the representation media type.">>>>,
  <<1063, <<"header">>, <<"header">>,
    <<"This request has the ",
      " header, which is only defined for responses.">>>>,
  <<1064, <<"header">>, <<"header">>,
    <<"This response has the ",
      " header, which is only defined for requests.">>>>,
  <<1066, <<>>, <<>>,
    <<"RFC 7231 section 5.1.1: A client MUST NOT generate a 100-continue expectation in a request that does not include a message body.">>>>,
  <<1067, <<"msg.method">>, <<>>,
    <<"The Max-Forwards header is only defined for OPTIONS and TRACE requests. RFC 7231 section 5.1.2: A recipient MAY ignore a Max-Forwards header field received with any other request methods.">>>>,
  <<1068, <<>>, <<>>,
    <<"RFC 7231 section 5.5.2: A user agent MUST NOT send a Referer header field in an unsecured HTTP request if the referring page was received with a secure protocol.">>>>,
  <<1070, <<>>, <<>>,
    <<"RFC 7231 section 5.5.3: A user agent SHOULD send a User-Agent field in each request unless specifically configured not to do so.">>>>,
  <<1071, <<"msg.status">>, <<>>,
    <<"RFC 7231 section 6.2: Since HTTP/1.0 did not define any 1xx status codes, a server MUST NOT send a 1xx response to an HTTP/1.0 client.">>>>,
  <<1072, <<"msg.request.method">>, <<"msg.request.method">>,
    <<"The ",
      " method is defined as safe (read-only). But the 201 status code means that a new resource was created.">>>>,
  <<1073, <<>>, <<>>,
    <<"This 201 response indicates that a new resource was created. Because there is no Location header in the response, it is assumed that the created resource is the same as the request target (RFC 7231 section 6.3.2). But POST requests are usually intended to create a sub-resource of the target. It's likely that this response needs an explicit Location.">>>>,
  <<1074, <<"msg.request.method">>, <<"msg.request.method">>,
    <<"The ",
      " method is defined as safe (read-only). But the 202 status code means that the server started some kind of processing operation.">>>>,
  <<1076, <<>>, <<>>,
    <<"RFC 7231 section 6.3.6: Since the 205 status code implies that no additional content will be provided, a server MUST NOT generate a payload in a 205 response.">>>>,
  <<1077, <<>>, <<>>,
    <<"RFC 7231 section 6.4.1: For request methods other than HEAD, the server SHOULD generate a payload in the 300 response containing a list of representation metadata and URI reference(s) from which the user or user agent can choose the one most preferred.">>>>,
  <<1078, <<>>, <<>>,
    <<"RFC 7231 section 6.4.2: The server SHOULD generate a Location header field in the response containing a preferred URI reference for the new permanent URI.">>>>,
  <<1079, <<>>, <<>>,
    <<"RFC 7231 section 6.4.3: The server SHOULD generate a Location header field in the response containing a URI reference for the different URI.">>>>,
  <<1080, <<>>, <<>>,
    <<"RFC 7231 section 6.4.4: The 303 (See Other) status code indicates that the server is redirecting the user agent to a different resource, as indicated by a URI in the Location header field, which is intended to provide an indirect response to the original request.">>>>,
  <<1081, <<>>, <<>>,
    <<"RFC 7231 section 6.4.4: Except for responses to a HEAD request, the representation of a 303 response ought to contain a short hypertext note with a hyperlink to the same URI reference provided in the Location header field.">>>>,
  <<1082, <<>>, <<>>,
    <<"RFC 7231 section 6.4.5: The 305 (Use Proxy) status code was defined in a previous version of this specification and is now deprecated (Appendix B).">>>>,
  <<1083, <<>>, <<>>,
    <<"RFC 7231 section 6.4.6: The 306 status code was defined in a previous version of this specification, is no longer used, and the code is reserved.">>>>,
  <<1084, <<>>, <<>>,
    <<"RFC 7231 section 6.4.7: The server SHOULD generate a Location header field in the response containing a URI reference for the different URI.">>>>,
  <<1085, <<>>, <<"msg.status">>,
    <<"This ",
      " response includes a Location header that points to the same URI as the request URI. So the resource redirects to itself.">>>>,
  <<1086, <<"msg.status">>, <<"msg.status", "msg.status">>,
    <<"The ",
      " status code means that the target resource can be found at a different URI. But this was an \" OPTIONS * \" request--it targets the entire server, not any particular resource. So the ",
      " status code makes no sense here. | Perhaps the 303 status code would fit better.">>>>,
  <<1087, <<"msg.status">>, <<>>,
    <<"RFC 7231 section 6.5: Except when responding to a HEAD request, the server SHOULD send a representation containing an explanation of the error situation, and whether it is a temporary or permanent condition.">>>>,
  <<1088, <<>>, <<>>,
    <<"RFC 7231 section 6.5.2: The 402 (Payment Required) status code is reserved for future use.">>>>,
  <<1089, <<>>, <<>>,
    <<"RFC 7231 section 6.5.5: The origin server MUST generate an Allow header field in a 405 response containing a list of the target resource's currently supported methods.">>>>,
  <<1090, <<>>, <<>>,
    <<"The 406 status code means that the server cannot satisfy the request's content negotiation headers, such as Accept. But this request doesn't seem to have such headers. | See also RFC 7231 section 5.3.">>>>,
  <<1092, <<>>, <<>>,
    <<"RFC 7231 section 6.5.6: The server SHOULD generate a payload containing a list of available representation characteristics and corresponding resource identifiers from which the user or user agent can choose the one most appropriate.">>>>,
  <<1093, <<>>, <<"library">>,
    <<"This request's User-Agent header contains only the name of the underlying library, which isn't very useful for identifying the request. It may be a good idea to include the name of the actual product. | For example: \"My-Product/1.0 ",
      "\". | Or simply \"My-Product/1.0\" or \"My-Product\". | See RFC 7231 section 5.5.3.">>>>,
  <<1094, <<>>, <<>>,
    <<"RFC 7231 section 6.5.7: A server SHOULD send the \"close\" connection option (Section 6.1 of [RFC7230]) in the response, since 408 implies that the server has decided to close the connection rather than continue waiting.">>>>,
  <<1095, <<"msg.request.method">>, <<"msg.request.method">>,
    <<"The 409 status code means that the request conflicted with the current state of the resource. But a ",
      " request is, by definition, safe (read-only): it must not affect the state, so there can be no conflict.">>>>,
  <<1096, <<>>, <<>>,
    <<"RFC 7231 section 6.5.8: The server SHOULD generate a payload that includes enough information for a user to recognize the source of the conflict.">>>>,
  <<1097, <<>>, <<"msg.request.headers.content_length.value">>,
    <<"The 411 status code means that the server wants to see a Content-Length header in the request. But this request did, in fact, include a valid Content-Length of ",
      ".">>>>,
  <<1098, <<>>, <<>>,
    <<"RFC 7231 section 6.5.11: The 413 (Payload Too Large) status code indicates that the server is refusing to process a request because the request payload is larger than the server is willing or able to process.">>>>,
  <<1099, <<>>, <<>>,
    <<"RFC 7231 section 6.5.13: The 415 (Unsupported Media Type) status code indicates that the origin server is refusing to service the request because the payload is in a format not supported by this method on the target resource.">>>>,
  <<1100, <<>>, <<>>,
    <<"RFC 7231 section 6.5.14: The 417 (Expectation Failed) status code indicates that the expectation given in the request's Expect header field (Section 5.1.1) could not be met by at least one of the inbound servers.">>>>,
  <<1101, <<>>, <<>>,
    <<"RFC 7231 section 6.5.15: The server MUST send an Upgrade header field in a 426 response to indicate the required protocol(s)">>>>,
  <<1102, <<>>, <<"protocol", "protocol">>,
    <<"In this response, the server demands that the client upgrade to ",
      ". But the client's request is already offering that same upgrade in its own Upgrade header. The server can just send a 101 response and switch to ",
      ". | See RFC 7230 section 6.7.">>>>,
  <<1103, <<>>, <<"protocol", "protocol">>,
    <<"This response's Upgrade header indicates that the server is ready to upgrade to ",
      ". But the client's request is already offering that same upgrade in its own Upgrade header. If the server actually wants to switch to ",
      ", it should go ahead, send a 101 response, and switch. | See RFC 7230 section 6.7.">>>>,
  <<1104, <<"msg.status">>, <<>>,
    <<"RFC 7231 section 6.6: Except when responding to a HEAD request, the server SHOULD send a representation containing an explanation of the error situation, and whether it is a temporary or permanent condition.">>>>,
  <<1105, <<>>, <<"msg.request.version", "msg.version">>,
    <<"The 505 status code means that the server does not support the HTTP version used in the request--which is ",
      "--but the response itself is ",
      ", too. | RFC 7230 section 2.6: A server MUST NOT send a version to which it is not conformant.">>>>,
  <<1106, <<>>, <<>>,
    <<"RFC 7231 section 6.6.6: The server SHOULD generate a representation for the 505 response that describes why that version is not supported and what other protocols are supported by that server.">>>>,
  <<1107, <<"place">>, <<"place">>,
    <<"This message's ",
      " uses an obsolete date-time format. See RFC 7231 section 7.1.1.1.">>>>,
  <<1108, <<"place">>, <<"place", "date", "claimed", "actual">>,
    <<"This message's ",
      " claims that ",
      " is ",
      ", but in reality it's ",
      ".">>>>,
  <<1109, <<>>, <<>>,
    <<"The Date header contains the date and time at which the message was originated. But here it seems to be in the future. | This might be due to wrong timezone settings.">>>>,
  <<1110, <<>>, <<"msg.status">>,
    <<"According to RFC 7231 section 7.1.1.2, every ",
      " response must have a Date header, unless the server has no usable clock.">>>>,
  <<1111, <<>>, <<>>,
    <<"RFC 7231 section 7.1.2: There are circumstances in which a fragment identifier in a Location value would not be appropriate. For example, the Location header field in a 201 (Created) response is supposed to provide a URI that is specific to the created resource.">>>>,
  <<1112, <<"msg.status">>, <<"msg.status">>,
    <<"RFC 7231 section 7.1.2 does not define what it means for a ",
      " response to have a Location header.">>>>,
  <<1113, <<"msg.status">>, <<"msg.status">>,
    <<"As far as HTTPolice knows, the Retry-After header is defined for status codes 3xx, 413, 429, and 503, but not for ",
      ".">>>>,
  <<1114, <<"msg.request.method">>, <<"msg.request.method", "msg.request.method">>,
    <<"The 405 status code means that the request method (",
      ") is not allowed for this resource. But the Allow header does include ",
      ".">>>>,
  <<1115, <<"msg.request.method">>, <<"msg.status", "msg.request.method", "msg.request.method">>,
    <<"The ",
      " status code means that this ",
      " request was handled successfully. But the Allow header does not include ",
      ", so it should have been disallowed (status code 405).">>>>,
  <<1116, <<"coding">>, <<>>,
    <<"RFC 7231 section 5.3.4: Most HTTP/1.0 applications do not recognize or obey qvalues associated with content-codings. This means that qvalues might not work and are not permitted with x-gzip or x-compress.">>>>,
  <<1117, <<>>, <<>>,
    <<"The 406 status code means that the server cannot satisfy the request's content negotiation headers. The only such header (known to HTTPolice) in this request is Accept-Language. However, RFC 7231 section 5.3.5 discourages sending a 406 response in this case: it's better to send a representation in a different language, because the user may still be able to understand some of it.">>>>,
  <<1118, <<>>, <<>>,
    <<"RFC 7232 section 2.2.1: An origin server with a clock MUST NOT send a Last-Modified date that is later than the server's time of message origination (Date).">>>>,
  <<1119, <<"place">>, <<>>,
    <<"RFC 7232 section 2.3: Previously, opaque-tag was defined to be a quoted-string ([RFC2616], Section 3.11); thus, some recipients might perform backslash unescaping. Servers therefore ought to avoid backslash characters in entity tags.">>>>,
  <<1120, <<>>, <<>>,
    <<"RFC 7232 section 3.1: An origin server MUST use the strong comparison function when comparing entity-tags for If-Match (Section 2.3.2), since the client intends this precondition to prevent the method from being applied if there have been any changes to the representation data. | In other words, a conformant server will never consider two weak entity tags as equal for purposes of the If-Match header.">>>>,
  <<1121, <<>>, <<"msg.status", "msg.request.method">>,
    <<"This is a ",
      " response to a ",
      " request, but its ETag header matches the If-None-Match header of the request. The server is supposed to send a 304 response in this situation. | See RFC 7232 section 3.2.">>>>,
  <<1122, <<"msg.method">>, <<>>,
    <<"According to RFC 7232 section 3.3, an If-Modified-Since header must be ignored in requests that are neither GET nor HEAD.">>>>,
  <<1123, <<>>, <<"msg.status", "msg.request.method">>,
    <<"This is a ",
      " response to a ",
      " request, but its Last-Modified date is no later than the If-Modified-Since header of the request. The server should send a 304 response in this situation. | See RFC 7232 section 3.3.">>>>,
  <<1124, <<"msg.request.method">>, <<>>,
    <<"The 304 status code is only defined by RFC 7232 section 4.1 for responses to GET and HEAD. With other methods, the 412 status code may be useful.">>>>,
  <<1125, <<"msg.status">>, <<"msg.status">>,
    <<"The ",
      " status code is only used when the request includes a precondition, such as If-Modified-Since. But this request doesn't seem to have any preconditions. | See RFC 7232.">>>>,
  <<1127, <<"header">>, <<>>,
    <<"RFC 7232 section 4.1: Since the goal of a 304 response is to minimize information transfer when the recipient already has one or more cached representations, a sender SHOULD NOT generate representation metadata other than the above listed fields unless said metadata exists for the purpose of guiding cache updates (e.g., Last-Modified might be useful if the response does not have an ETag field).">>>>,
  <<1128, <<"msg.request.method">>, <<"msg.request.method">>,
    <<"The 412 status code means that the server could not satisfy a precondition included in the request. The only such precondition (known to HTTPolice) in this request is If-Modified-Since. But RFC 7232 section 3.3 says that an If-Modified-Since header in a ",
      " request must be ignored.">>>>,
  <<1129, <<"msg.request.method">>, <<"msg.request.method">>,
    <<"The 412 status code means that the server could not satisfy a precondition included in the request. But, as defined in RFC 7232 section 5, such preconditions must be ignored in a ",
      " request.">>>>,
  <<1130, <<"header", "msg.method">>, <<>>,
    <<"RFC 7232 section 5: Likewise, a server MUST ignore the conditional request header fields defined by this specification when received with a request method that does not involve the selection or modification of a selected representation, such as CONNECT, OPTIONS, or TRACE.">>>>,
  <<1131, <<>>, <<>>,
    <<"RFC 7232 section 5: Although conditional request header fields are defined as being usable with the HEAD method (to keep HEAD's semantics consistent with those of GET), there is no point in sending a conditional HEAD because a successful response is around the same size as a 304 (Not Modified) response and more useful than a 412 (Precondition Failed) response.">>>>,
  <<1132, <<"msg.method">>, <<>>,
    <<"RFC 7233 section 3.1: A server MUST ignore a Range header field received with a request method other than GET.">>>>,
  <<1133, <<"place">>, <<>>,
    <<"RFC 7233 section 2.1: A byte-range-spec is invalid if the last-byte-pos value is present and less than the first-byte-pos.">>>>,
  <<1134, <<>>, <<>>,
    <<"RFC 7233 section 3.2: A client MUST NOT generate an If-Range header field in a request that does not contain a Range header field.">>>>,
  <<1135, <<>>, <<>>,
    <<"RFC 7233 section 3.2: A client MUST NOT generate an If-Range header field containing an entity-tag that is marked as weak.">>>>,
  <<1136, <<>>, <<>>,
    <<"The 206 status code only makes sense in responses to partial requests--that is, requests with a Range header. See RFC 7233 section 4.1.">>>>,
  <<1137, <<"msg.request.method">>, <<>>,
    <<"RFC 7233 section 3.1: A server MUST ignore a Range header field received with a request method other than GET.">>>>,
  <<1138, <<>>, <<>>,
    <<"The 206 status code means that the response contains one or more parts of the data. When it contains one part, the response must have a Content-Range header. When it contains several parts, the response must have a Content-Type of multipart/byteranges. But this response has neither. | See RFC 7233 section 4.1.">>>>,
  <<1139, <<>>, <<>>,
    <<"According to Content-Type, this message has a multipart body, but Content-Type does not include the 'boundary' parameter that is necessary to parse such a body. | See RFC 2046 section 5.1.1.">>>>,
  <<1140, <<>>, <<>>,
    <<"The multipart boundary declared in this message's Content-Type was not found in the body. | See RFC 2046 section 5.1.1.">>>>,
  <<1141, <<"part_num">>, <<>>,
    <<"RFC 7233 section 4.1: Within the header area of each body part in the multipart payload, the server MUST generate a Content-Range header field corresponding to the range being enclosed in that body part.">>>>,
  <<1142, <<"part_num">>, <<>>,
    <<"RFC 7233 section 4.1: If the selected representation would have had a Content-Type header field in a 200 (OK) response, the server SHOULD generate that same Content-Type field in the header area of each body part.">>>>,
  <<1143, <<>>, <<>>,
    <<"RFC 7233 section 4.1: To avoid confusion with single-part responses, a server MUST NOT generate a Content-Range header field in the HTTP header section of a multiple part response (this field will be sent in each part instead).">>>>,
  <<1144, <<>>, <<>>,
    <<"RFC 7233 section 4.1: A server MUST NOT generate a multipart response to a request for a single range, since a client that does not request multiple parts might not support multipart responses.">>>>,
  <<1145, <<>>, <<>>,
    <<"The request's If-Range header means that the server is expected to send a 206 response only if the representation's ETag matches the one specified in If-Range. In this case, it doesn't match, so the server is supposed to send a 200 response with the complete data. | See RFC 7233 section 3.2.">>>>,
  <<1146, <<"header">>, <<>>,
    <<"RFC 7233 section 4.1: If a 206 is generated in response to a request with an If-Range header field, the sender SHOULD NOT generate other representation header fields beyond those required above, because the client is understood to already have a prior response containing those header fields.">>>>,
  <<1147, <<"msg.status">>, <<"msg.status">>,
    <<"The Content-Range header is defined by RFC 7233 section 4.2 for responses with status codes 206 and 416, but not ",
      ".">>>>,
  <<1148, <<"place">>, <<>>,
    <<"RFC 7233 section 4.2: A Content-Range field value is invalid if it contains a byte-range-resp that has a last-byte-pos value less than its first-byte-pos value, or a complete-length value less than or equal to its last-byte-pos value.">>>>,
  <<1149, <<>>, <<>>,
    <<"The 416 status code is defined by RFC 7233 section 4.4 only for responses to requests that have a Range header.">>>>,
  <<1150, <<>>, <<>>,
    <<"RFC 7233 section 4.4: When this status code is generated in response to a byte-range request, the sender SHOULD generate a Content-Range header field specifying the current length of the selected representation">>>>,
  <<1151, <<"place">>, <<>>,
    <<"RFC 7230 section 7: In any production that uses the list construct, a sender MUST NOT generate empty list elements.">>>>,
  <<1152, <<"directive">>, <<"directive">>,
    <<"This request's Cache-Control header includes the ",
      " directive, which is only defined for responses.">>>>,
  <<1153, <<"directive">>, <<"directive">>,
    <<"This response's Cache-Control header includes the ",
      " directive, which is only defined for requests.">>>>,
  <<1154, <<"directive">>, <<"directive">>,
    <<"The specification for the ",
      " directive recommends wrapping its argument in double quotes. But in this message's Cache-Control header, it is not quoted.">>>>,
  <<1155, <<"directive">>, <<"directive">>,
    <<"In this message's Cache-Control header, the argument to the ",
      " directive is wrapped in double quotes. But the specification recommends writing it as a plain token, without quotes.">>>>,
  <<1156, <<"entry", "name">>, <<"name", "entry">>,
    <<"According to the specification, '",
      "' in ",
      " must have an argument. But in this message, it doesn't.">>>>,
  <<1157, <<"entry", "name">>, <<"entry", "name", "name">>,
    <<"In this message's ",
      " header, '",
      "' has an argument. But the specification defines no argument for '",
      "'.">>>>,
  <<1158, <<"place", "name">>, <<"value", "name", "place", "error">>,
    <<"\"",
      "\" is not a correct value for '",
      "' in ",
      ". | ",
      "">>>>,
  <<1159, <<>>, <<>>,
    <<"In this request's Cache-Control header, the no-cache directive has an argument. But the specification for no-cache only defines an argument when used in responses.">>>>,
  <<1160, <<>>, <<"pragma">>,
    <<"This message's Pragma header includes '",
      "', but all pragmas other than 'no-cache' are deprecated in RFC 7234 section 5.4.">>>>,
  <<1161, <<>>, <<>>,
    <<"RFC 7234 section 5.4: When sending a no-cache request, a client ought to include both the pragma and cache-control directives, unless Cache-Control: no-cache is purposefully omitted to target other Cache-Control response directives at HTTP/1.1 caches.">>>>,
  <<1162, <<>>, <<>>,
    <<"This response contains the 'no-cache' pragma directive, which is defined by RFC 7234 section 5.4 only for requests.">>>>,
  <<1163, <<"code">>, <<"code">>,
    <<"RFC 7234 section 5.5 defines two classes of warn codes: 1xx and 2xx. But this message's Warning header contains a ",
      " code.">>>>,
  <<1164, <<>>, <<"code">>,
    <<"This message's Warning header contains a warning (code ",
      ") with a date that does not match the Date header. This means that the warning was mistakenly kept after cache validation. As explained in RFC 7234 section 5.5, such warnings must be removed.">>>>,
  <<1165, <<"code">>, <<"code">>,
    <<"This request's Warning header contains the ",
      " warn code. But, according to RFC 7234 section 5.5, 1xx warn codes can only be used on responses.">>>>,
  <<1166, <<>>, <<>>,
    <<"According to RFC 7234 section 4, a cache must add an Age header to every response that is served without contacting the origin server.">>>>,
  <<1167, <<"msg.status">>, <<>>,
    <<"According to RFC 7231 section 6, HTTP status codes can only range from 100 to 599.">>>>,
  <<1168, <<>>, <<>>,
    <<"RFC 7234 section 5.1: The presence of an Age header field implies that the response was not generated or validated by the origin server for this request.">>>>,
  <<1169, <<"code">>, <<"code">>,
    <<"This response's Warning header contains the ",
      " warn code, which implies that it was served from a cache, without contacting the origin server. See RFC 7234 section 5.5.">>>>,
  <<1170, <<>>, <<"msg.headers.age.value", "msg.request.headers.cache_control.max_age">>,
    <<"This response's Age of ",
      " is greater than the max-age of ",
      " requested by the client's Cache-Control header.">>>>,
  <<1171, <<"directive", "msg.method">>, <<"msg.method", "directive">>,
    <<"The ",
      " method is defined as non-cacheable, so the ",
      " directive in this request's Cache-Control header makes no difference.">>>>,
  <<1172, <<"msg.request.method">>, <<"msg.request.method">>,
    <<"The ",
      " method is defined as non-cacheable.">>>>,
  <<1173, <<>>, <<>>,
    <<"RFC 7234 section 5.2.1.4: The \"no-cache\" request directive indicates that a cache MUST NOT use a stored response to satisfy the request without successful validation on the origin server.">>>>,
  <<1174, <<>>, <<>>,
    <<"RFC 7234 section 5.4: When the Cache-Control header field is not present in a request, caches MUST consider the no-cache request pragma-directive as having the same effect as if \"Cache-Control: no-cache\" were present">>>>,
  <<1175, <<>>, <<>>,
    <<"RFC 7234 section 5.2.2.2: The \"no-cache\" response directive indicates that the response MUST NOT be used to satisfy a subsequent request without successful validation on the origin server.">>>>,
  <<1176, <<>>, <<>>,
    <<"According to RFC 7234 section 3, a cache cannot store a response that includes the no-store directive in its Cache-Control header.">>>>,
  <<1177, <<"msg.status">>, <<"msg.status">>,
    <<"The ",
      " status code is not defined as cacheable by default. According to RFC 7234 section 3, such a response can only be cached if it explicitly allows caching, with headers such as Expires. But this response has no such headers, so it is not cacheable.">>>>,
  <<1178, <<>>, <<>>,
    <<"Because this response has no explicit freshness controls (such as Expires or max-age), HTTPolice will assume that its expiration time was chosen heuristically by the cache. See RFC 7234 section 4.2.2.">>>>,
  <<1179, <<>>, <<>>,
    <<"The 113 warn code in this response's Warning header means that the expiration time for this response was chosen heuristically by the cache.">>>>,
  <<1180, <<>>, <<>>,
    <<"RFC 7234 section 4.2.2: When a heuristic is used to calculate freshness lifetime, a cache SHOULD generate a Warning header field with a 113 warn-code (see Section 5.5.4) in the response if its current_age is more than 24 hours and such a warning is not already present.">>>>,
  <<1181, <<>>, <<>>,
    <<"RFC 7234 section 4.2.2: A cache MUST NOT use heuristics to determine freshness when an explicit expiration time is present in the stored response.">>>>,
  <<1182, <<>>, <<>>,
    <<"RFC 7234 section 4.2.2: A cache MUST NOT use heuristics to determine freshness when an explicit expiration time is present in the stored response.">>>>,
  <<1183, <<"code">>, <<"code">>,
    <<"The ",
      " warn code in this response's Warning header means that the response is stale, as defined by RFC 7234 section 4.2.">>>>,
  <<1184, <<>>, <<>>,
    <<"This response's Age is greater than the max-age specified in its Cache-Control header. This means that the response is stale, as defined by RFC 7234 section 4.2.">>>>,
  <<1185, <<>>, <<>>,
    <<"This response's Age is greater than the difference between its Expires date and its Date header. This means that the response is stale, as defined by RFC 7234 section 4.2.">>>>,
  <<1186, <<>>, <<>>,
    <<"RFC 7234 section 4.2.4: A cache SHOULD generate a Warning header field with the 110 warn-code (see Section 5.5.1) in stale responses.">>>>,
  <<1187, <<>>, <<>>,
    <<"RFC 7234 section 5.2.2.1: The \"must-revalidate\" response directive indicates that once it has become stale, a cache MUST NOT use the response to satisfy subsequent requests without successful validation on the origin server.">>>>,
  <<1188, <<>>, <<>>,
    <<"RFC 7234 section 4.2.4: A cache MUST NOT send stale responses unless it is disconnected (i.e., it cannot contact the origin server or otherwise find a forward path) or doing so is explicitly allowed (e.g., by the max-stale request directive; see Section 5.2.1). | If the cache is disconnected, it should have added a Warning header with a 112 or 111 warn code to indicate that.">>>>,
  <<1189, <<>>, <<>>,
    <<"The 214 warn code in this message's Warning header means that it was transformed by a proxy. | See also RFC 7230 section 5.7.2.">>>>,
  <<1190, <<>>, <<>>,
    <<"The 203 status code means that this response was transformed by a proxy. | See also RFC 7230 section 5.7.2.">>>>,
  <<1191, <<>>, <<>>,
    <<"RFC 7230 section 5.7.2: A proxy that transforms a payload MUST add a Warning header field with the warn-code of 214 (\"Transformation Applied\") if one is not already in the message (see Section 5.5 of [RFC7234]).">>>>,
  <<1192, <<>>, <<>>,
    <<"RFC 7230 section 5.7.2: A proxy MUST NOT transform the payload (Section 3.3 of [RFC7231]) of a message that contains a no-transform cache-control directive (Section 5.2 of [RFC7234]).">>>>,
  <<1193, <<"directive1", "directive2">>, <<"directive1", "directive2">>,
    <<"This message's Cache-Control header includes both the ",
      " and the ",
      " directives, which contradict each other.">>>>,
  <<1194, <<>>, <<>>,
    <<"RFC 7235 section 3.1: The server generating a 401 response MUST send a WWW-Authenticate header field (Section 4.1) containing at least one challenge applicable to the target resource.">>>>,
  <<1195, <<>>, <<>>,
    <<"RFC 7235 section 3.2: The proxy MUST send a Proxy-Authenticate header field (Section 4.3) containing a challenge applicable to that proxy for the target resource.">>>>,
  <<1196, <<"place">>, <<>>,
    <<"According to RFC 7235 section 2.2, the value of the 'realm' parameter must be enclosed in double quotes.">>>>,
  <<1197, <<"header">>, <<"header">>,
    <<"This message has the ",
      " header, which is listed as \"obsoleted\" or \"deprecated\" in the IANA message headers registry.">>>>,
  <<1198, <<"msg.status">>, <<"msg.status">>,
    <<"The ",
      " status code means that this is an interim response, and more responses will follow on the same connection. But the 'close' option in this response's Connection header means that the server will close the connection after sending this response.">>>>,
  <<1199, <<"msg.status">>, <<"msg.status">>,
    <<"A ",
      " response to a CONNECT request means that this connection is becoming a tunnel. But the 'close' option in this response's Connection header means that the server will close the connection after sending this response.">>>>,
  <<1200, <<"header">>, <<"header">>,
    <<"The 428 status code means that the server refuses to handle an unconditional request. But this request is conditional, because it has the ",
      " header.">>>>,
  <<1201, <<>>, <<>>,
    <<"RFC 6585 section 3: Responses using this status code SHOULD explain how to resubmit the request successfully.">>>>,
  <<1202, <<"msg.status">>, <<"msg.status">>,
    <<"According to the specification, the ",
      " status code cannot be served from a cache.">>>>,
  <<1203, <<>>, <<>>,
    <<"RFC 6585 section 4: The response representations SHOULD include details explaining the condition, and MAY include a Retry-After header indicating how long to wait before making a new request.">>>>,
  <<1204, <<>>, <<>>,
    <<"RFC 6585 section 6: The response representation SHOULD contain a link to a resource that allows the user to submit credentials (e.g., with an HTML form).">>>>,
  <<1205, <<>>, <<>>,
    <<"RFC 7538 section 3: The server SHOULD generate a Location header field ([RFC7231], Section 7.1.2) in the response containing a preferred URI reference for the new permanent URI.">>>>,
  <<1206, <<"header">>, <<>>,
    <<"The Basic authentication scheme requires a 'realm' parameter. See RFC 7617 section 2.">>>>,
  <<1207, <<"header", "param">>, <<"param">>,
    <<"No '",
      "' parameter is defined for the Basic authentication scheme. See RFC 7617 section 2.">>>>,
  <<1208, <<"header", "charset">>, <<>>,
    <<"According to RFC 7617 section 2.1, the 'charset' parameter to the Basic authentication scheme can only have the value \"UTF-8\".">>>>,
  <<1209, <<"header">>, <<>>,
    <<"In the Basic authentication scheme, credentials are sent as a single Base64 string. See RFC 7617 section 2.">>>>,
  <<1210, <<"header">>, <<"header", "error">>,
    <<"In the Basic authentication scheme, the user ID and password are combined with a colon ':' and packed into Base64. In this request's ",
      " header, HTTPolice tried to decode them from Base64 and got the following error: | ",
      " | See RFC 7617 section 2.">>>>,
  <<1211, <<"header">>, <<"header">>,
    <<"In the Basic authentication scheme, the user ID and password are combined with a colon ':' and packed into Base64. But in this request's ",
      " header, there is no ':' after decoding from Base64. See RFC 7617 section 2.">>>>,
  <<1212, <<"header", "char">>, <<>>,
    <<"RFC 7617 section 2: The user-id and password MUST NOT contain any control characters (see \"CTL\" in Appendix B.1 of [RFC5234]).">>>>,
  <<1213, <<"msg.headers.content_type.value">>, <<"msg.headers.content_type.value">>,
    <<"The PATCH method should only be used with media types that define how to apply the patch. ",
      " is not such a media type. | See RFC 5789 errata. | For example, application/merge-patch+json would be a suitable patch format for JSON.">>>>,
  <<1214, <<"msg.request.headers.content_type.value">>, <<>>,
    <<"RFC 5789 errata: If a server receives a PATCH request with a media type whose specification does not define semantics specific to PATCH, the server SHOULD reject the request by returning the 415 Unsupported Media Type status code, unless a more specific error status code takes priority.">>>>,
  <<1215, <<>>, <<>>,
    <<"RFC 5789 section 2.2: Such a response SHOULD include an Accept-Patch response header as described in Section 3.1 to notify the client what patch document media types are supported.">>>>,
  <<1216, <<>>, <<>>,
    <<"This OPTIONS response indicates in its Allow header that the PATCH method is supported. According to RFC 5789 section 3.1, in this case the server should also send an Accept-Patch header.">>>>,
  <<1217, <<>>, <<>>,
    <<"This response's Accept-Patch header means that this resource supports the PATCH method, but it's missing from the Allow header.">>>>,
  <<1218, <<>>, <<>>,
    <<"According to RFC 6797 section 6.1.1, a Strict-Transport-Security header must have a max-age directive.">>>>,
  <<1219, <<>>, <<>>,
    <<"The \"max-age=0\" directive in this response's Strict-Transport-Security header tells the user agent to delete the HSTS policy for the domain. The includeSubDomains directive makes no difference in this case. | See RFC 6797 section 6.2.">>>>,
  <<1220, <<"directive">>, <<>>,
    <<"RFC 6797 section 6.1: All directives MUST appear only once in an STS header field.">>>>,
  <<1221, <<>>, <<>>,
    <<"RFC 6797 section 7.2: An HSTS Host MUST NOT include the STS header field in HTTP responses conveyed over non-secure transport.">>>>,
  <<1222, <<"place">>, <<"date">>,
    <<"\"",
      "\" is not a valid date.">>>>,
  <<1223, <<"place">>, <<"time">>,
    <<"\"",
      "\" is not a valid time.">>>>,
  <<1224, <<"place">>, <<>>,
    <<"Lines in HTTP message framing are terminated by two bytes: a carriage return (CR) followed by a line feed (LF). Some implementations accept a bare LF without CR, like in this message, but this is not reliable. | See also RFC 7230 section 3.5.">>>>,
  <<1225, <<"name", "place">>, <<"name">>,
    <<"According to RFC 8288 section 3, the '",
      "' parameter must not occur more than once in a single link.">>>>,
  <<1226, <<"place">>, <<>>,
    <<"RFC 8288 section 3.3: rev is deprecated by this specification because it often confuses authors and readers; in most cases, using a separate relation type is preferable.">>>>,
  <<1227, <<"patch_type">>, <<"patch_type", "patch_type">>,
    <<"The PATCH method should only be used with media types that define how to apply the patch. ",
      " is not such a media type. But this response's Accept-Patch header invites the client to send patches of type ",
      ". | See RFC 5789 errata. | For example, application/merge-patch+json would be a suitable patch format for JSON.">>>>,
  <<1228, <<>>, <<>>,
    <<"This message's Upgrade header includes the token 'h2', which normally refers to HTTP/2 over TLS. But HTTP/2 over TLS does not use the Upgrade mechanism, and cleartext HTTP/2 uses the 'h2c' token instead, so \"Upgrade: h2\" is wrong. | See RFC 7540 section 3.">>>>,
  <<1230, <<>>, <<>>,
    <<"RFC 7540 section 3.2.1: Since the upgrade is only intended to apply to the immediate connection, a client sending the HTTP2-Settings header field MUST also send \"HTTP2-Settings\" as a connection option in the Connection header field to prevent it from being forwarded">>>>,
  <<1231, <<>>, <<>>,
    <<"RFC 7540 section 3.2.1: A request that upgrades from HTTP/1.1 to HTTP/2 MUST include exactly one \"HTTP2-Settings\" header field.">>>>,
  <<1232, <<>>, <<>>,
    <<"According to RFC 7540 section 3.2.1, the server must not upgrade to HTTP/2 unless the request has exactly one valid HTTP2-Settings header.">>>>,
  <<1233, <<>>, <<>>,
    <<"An \"Upgrade: h2c\" header is used to switch to HTTP/2 from a cleartext HTTP/1.1 connection. But this message was sent on an encrypted (TLS) connection. HTTP/2 over TLS is negotiated by other means. | See RFC 7540 section 3.">>>>,
  <<1234, <<>>, <<>>,
    <<"According to RFC 7540 section 3.2.1, the HTTP2-Settings header must use the URL- and filename-safe Base64 encoding without padding. This means that it can only contain letters, digits, dash (-), and underscore (_).">>>>,
  <<1235, <<>>, <<>>,
    <<"There is no need to include Host in the Vary header, because Host is part of the request URI, and therefore, every HTTP response implicitly varies by Host already. \"Vary: Host\" can only scare caches away from storing the response. | See RFC 7231 section 7.1.4 and RFC 7234 section 2.">>>>,
  <<1236, <<>>, <<>>,
    <<"This request's target is an absolute URI. According to RFC 7230 section 5.3, HTTP/1.1 clients only use this \"absolute form\" when connecting to proxies. Therefore, HTTPolice assumes that this request is to a proxy.">>>>,
  <<1237, <<>>, <<>>,
    <<"It seems like this response was transformed by a proxy, but the request was not directed to a proxy.">>>>,
  <<1238, <<"directive1", "directive2">>, <<"directive1", "directive2", "directive1", "directive2">>,
    <<"This response's Cache-Control header includes both the ",
      " and the ",
      " directives. But ",
      " makes no difference when ",
      " is present.">>>>,
  <<1239, <<>>, <<>>,
    <<"RFC 7231 section 4.3.2: The HEAD method is identical to GET except that the server MUST NOT send a message body in the response">>>>,
  <<1240, <<>>, <<>>,
    <<"RFC 7231 section 6.3.5: The 204 (No Content) status code indicates that the server has successfully fulfilled the request and that there is no additional content to send in the response payload body.">>>>,
  <<1241, <<>>, <<>>,
    <<"The Date header is the date and time when the response was originated. And the Age header is how long the response has been cached since then (or since it was revalidated). But in this response, the sum of Date + Age is in the future, so one of them must be wrong. | This can happen when a cache mistakenly changes the Date header, or adds an Age header even though it is not a true HTTP cache (according to RFC 7234). | Also, this error can be caused by wrong timezone settings.">>>>,
  <<1242, <<>>, <<>>,
    <<"RFC 7725 section 3: Responses using this status code SHOULD include an explanation, in the response body, of the details of the legal demand: the party making it, the applicable legislation or regulation, and what classes of person and resource it applies to.">>>>,
  <<1243, <<>>, <<>>,
    <<"RFC 7725 section 4: When an entity blocks access to a resource and returns status 451, it SHOULD include a \"Link\" HTTP header field [RFC5988] whose value is a URI reference [RFC3986] identifying itself. When used for this purpose, the \"Link\" header field MUST have a \"rel\" parameter whose value is \"blocked-by\".">>>>,
  <<1244, <<"header">>, <<>>,
    <<"RFC 7540 section 8.1.2.2: An endpoint MUST NOT generate an HTTP/2 message containing connection-specific header fields | RFC 7540 section 8.1.2.2: The only exception to this is the TE header field, which MAY be present in an HTTP/2 request; when it is, it MUST NOT contain any value other than \"trailers\".">>>>,
  <<1245, <<>>, <<>>,
    <<"RFC 7540 section 8.1.2.2: HTTP/2 purposefully does not support upgrade to another protocol.">>>>,
  <<1246, <<>>, <<>>,
    <<"RFC 7540 section 8.1.1: HTTP/2 removes support for the 101 (Switching Protocols) informational status code">>>>,
  <<1247, <<"param">>, <<>>,
    <<"RFC 6266 section 4.1: Content-Disposition header field values with multiple instances of the same parameter name are invalid.">>>>,
  <<1248, <<>>, <<>>,
    <<"RFC 6266 appendix D: Avoid including the percent character followed by two hexadecimal characters (e.g., %A9) in the filename parameter, since some existing implementations consider it to be an escape character, while others will pass it through unchanged. | Such a filename can be sent in the special 'filename*' parameter instead. See RFC 6266 section 4.3.">>>>,
  <<1249, <<>>, <<>>,
    <<"RFC 6266 appendix D: Avoid including the \"\\\" character in the quoted-string form of the filename parameter, as escaping is not implemented by some user agents, and \"\\\" can be considered an illegal path character. | Such a filename can be sent in the special 'filename*' parameter instead. See RFC 6266 section 4.3.">>>>,
  <<1250, <<>>, <<>>,
    <<"RFC 6266 appendix D: Avoid using non-ASCII characters in the filename parameter. Although most existing implementations will decode them as ISO-8859-1, some will apply heuristics to detect UTF-8, and thus might fail on certain names. | Such a filename can be sent in the special 'filename*' parameter instead. See RFC 6266 section 4.3.">>>>,
  <<1251, <<>>, <<>>,
    <<"RFC 6266 appendix D: When a \"filename*\" parameter is sent, to also generate a \"filename\" parameter as a fallback for user agents that do not support the \"filename*\" form, if possible.">>>>,
  <<1252, <<>>, <<>>,
    <<"RFC 6266 appendix D: When a \"filename\" parameter is included as a fallback (as per above), \"filename\" should occur first, due to parsing problems in some existing implementations.">>>>,
  <<1253, <<"charset", "place">>, <<>>,
    <<"RFC 8187 section 3.2.1: Producers MUST use the \"UTF-8\" ([RFC3629]) character encoding. Extension character encodings (mime-charset) are reserved for future use.">>>>,
  <<1254, <<"charset", "place">>, <<"place", "charset", "charset", "error">>,
    <<"This message's ",
      " contains a ",
      " encoded value in the form defined by RFC 8187. But HTTPolice tried to decode it from ",
      " and got the following error: | ",
      "">>>>,
  <<1256, <<>>, <<"actual", "correct">>,
    <<"This message's Alt-Svc contains a protocol ID encoded as \"",
      "\". But according to RFC 7838 section 3, it must be encoded as \"",
      "\".">>>>,
  <<1257, <<>>, <<"authority", "error">>,
    <<"\"",
      "\" is not a valid Alt-Svc authority, according to RFC 7838 section 3. | ",
      "">>>>,
  <<1258, <<>>, <<>>,
    <<"RFC 7838 section 3 recommends using ALTSVC frames instead of the Alt-Svc header on HTTP/2 connections.">>>>,
  <<1260, <<>>, <<>>,
    <<"RFC 7838 section 6: An Alt-Svc header field in a 421 (Misdirected Request) response MUST be ignored.">>>>,
  <<1261, <<>>, <<>>,
    <<"RFC 6750 section 5.3: Clients MUST always use TLS [RFC5246] (https) or equivalent transport security when making requests with bearer tokens. Failing to do so exposes the token to numerous attacks that could give attackers unintended access.">>>>,
  <<1262, <<>>, <<>>,
    <<"In the Bearer authentication scheme, credentials are sent as a single token. See RFC 6750 section 2.1.">>>>,
  <<1263, <<>>, <<>>,
    <<"According to RFC 6750 section 5.3, bearer tokens must not be used without TLS. Instead of prompting the client to send a token on an insecure connection, perhaps it would be better to redirect to an 'https:' URI first.">>>>,
  <<1264, <<>>, <<>>,
    <<"A Bearer authentication challenge must have \"key=value\" parameters. See RFC 6750 section 3.">>>>,
  <<1265, <<"param">>, <<"param">>,
    <<"According to RFC 6750 section 3, the '",
      "' parameter must not appear more than once.">>>>,
  <<1266, <<"param">>, <<"value", "param", "error">>,
    <<"\"",
      "\" is not a correct value for a '",
      "' parameter in a Bearer challenge. See RFC 6750 section 3. | ",
      "">>>>,
  <<1267, <<>>, <<>>,
    <<"RFC 6750 section 3: If the protected resource request included an access token and failed authentication, the resource server SHOULD include the \"error\" attribute to provide the client with the reason why the access request was declined.">>>>,
  <<1268, <<"error_code", "expected_status">>, <<"error_code", "expected_status">>,
    <<"According to RFC 6750 section 3.1, when the server's Bearer challenge has \"error=",
      "\", the status code should be ",
      ".">>>>,
  <<1269, <<"param">>, <<>>,
    <<"RFC 6750 section 3.1: If the request lacks any authentication information (e.g., the client was unaware that authentication is necessary or attempted using an unsupported authentication method), the resource server SHOULD NOT include an error code or other error information.">>>>,
  <<1270, <<>>, <<>>,
    <<"The query string of this request's URI contains an 'access_token' parameter. It's probably a bearer token, as defined in RFC 6750. | RFC 6750 section 5.3: Bearer tokens SHOULD NOT be passed in page URLs (for example, as query string parameters). Instead, bearer tokens SHOULD be passed in HTTP message headers or message bodies for which confidentiality measures are taken. Browsers, web servers, and other software may not adequately secure URLs in the browser history, web server logs, and other data structures. If bearer tokens are passed in page URLs, attackers might be able to steal them from the history data, logs, or other unsecured locations.">>>>,
  <<1271, <<>>, <<>>,
    <<"This request has an 'access_token' parameter. It's probably a bearer token, as defined in RFC 6750. | RFC 6750 section 5.3: Clients MUST always use TLS [RFC5246] (https) or equivalent transport security when making requests with bearer tokens. Failing to do so exposes the token to numerous attacks that could give attackers unintended access.">>>>,
  <<1272, <<>>, <<>>,
    <<"According to RFC 6750 section 2.3, if an access token is sent in the request URI, then the request should at least have a \"Cache-Control: no-store\" header. This reduces the risk of caches saving this token.">>>>,
  <<1273, <<"header">>, <<>>,
    <<"A Basic authentication challenge must have parameters as \"key=value\" pairs. See RFC 7617 section 2.">>>>,
  <<1274, <<"header">>, <<"header", "header.value.item", "header", "header.value.item">>,
    <<"An ",
      " header usually consists of two parts: the name of the authentication scheme, and the actual credentials. But in this request, it only contains the scheme (\"",
      "\"). | Was something like \"",
      ": Bearer ",
      "\" intended? | See also RFC 7235 section 2.">>>>,
  <<1275, <<>>, <<>>,
    <<"This message's XML content includes entity declarations (<!ENTITY>). Many XML applications do not process such declarations because they can lead to denial-of-service attacks.">>>>,
  <<1276, <<"header", "wildcard", "value">>, <<"header", "wildcard", "value", "wildcard", "value", "wildcard", "wildcard">>,
    <<"The ",
      " header is not an ordered list. Whether ",
      " comes before or after ",
      ", does not affect its priority. Only explicit quality values (q=) count. | In other words, this request says that any ",
      " is as acceptable as ",
      ". | If ",
      " is intended to be a fallback, it should have a lower quality value, for example: ",
      ";q=0.1 | See RFC 7231 section 5.3.1.">>>>,
  <<1277, <<>>, <<>>,
    <<"Adding an 'X-' prefix to \"experimental\" headers is an old practice that is now considered obsolete. See RFC 6648 section 3. | For custom headers that may be generally useful, it's best to drop the 'X-' prefix (but check the IANA message headers registry to avoid collisions with existing names). | For private headers not intended to be used by others, 'X-' can be replaced with something like the organization's name.">>>>,
  <<1278, <<>>, <<"path">>,
    <<"There is a stream file ",
      ", but there is no corresponding stream file for the reverse direction. HTTPolice will try to process this file on its own.">>>>,
  <<1279, <<>>, <<"path1", "path2">>,
    <<"HTTPolice has found the following stream files: | file 1: ",
      " | file 2: ",
      " | but cannot detect which of them is the inbound stream and which is the outbound. | This means that the connection was not HTTP/1.x, or was encrypted, or that the files are somehow malformed. They will not be processed.">>>>,
  <<1280, <<>>, <<>>,
    <<"The application/json media type does not have a 'charset' parameter. RFC 8259 section 11: Adding one really has no effect on compliant recipients. | See also RFC 8259 section 8.1.">>>>,
  <<1281, <<"msg.guessed_charset">>, <<>>,
    <<"RFC 8259 section 8.1: JSON text exchanged between systems that are not part of a closed ecosystem MUST be encoded using UTF-8">>>>,
  <<1282, <<"bad", "place">>, <<"bad", "good">>,
    <<"There is no such media type ",
      ". Probably ",
      " was intended.">>>>,
  <<1283, <<>>, <<"msg.request.method">>,
    <<"421 responses are defined as cacheable by default. However, because of how an HTTP cache works (RFC 7234 section 2), it is harmful to cache a 421 response, as it would be returned on subsequent requests to the same URI, without even trying to connect to the right server. | To avoid this, a 421 response to ",
      " should be marked as non-cacheable with a header like \"Cache-Control: no-store\". | See RFC 7540 errata.">>>>,
  <<1284, <<>>, <<>>,
    <<"RFC 7231 section 6.3.3: The representation sent with this response ought to describe the request's current status and point to (or embed) a status monitor that can provide the user with an estimate of when the request will be fulfilled.">>>>,
  <<1285, <<"name">>, <<>>,
    <<"RFC 7240 section 2: To avoid any possible ambiguity, individual preference tokens SHOULD NOT appear multiple times within a single request.">>>>,
  <<1286, <<"name", "value">>, <<"name", "value", "name", "value", "name", "value">>,
    <<"\"Preference-Applied: ",
      "",
      "\" means that the server honored the client's preference ",
      "",
      ". But the client did not request ",
      "",
      " in its Prefer header.">>>>,
  <<1287, <<"msg.method">>, <<"msg.method">>,
    <<"The whole point of a ",
      " request is to retrieve information from the server. It's impossible to respond asynchronously to such a request: the response would not contain the requested information. | If the intention was to submit a task that would eventually send the results somewhere, this submission itself should probably be a POST.">>>>,
  <<1288, <<>>, <<>>,
    <<"The whole point of a GET request is to retrieve a representation of the resource (as in \"return=representation\"). There is no \"minimal\" response that could satisfy this request. | Instead, the Accept header could be used to select the desired kind of representation.">>>>,
  <<1289, <<>>, <<>>,
    <<"RFC 7240 section 4.2: The \"return=minimal\" and \"return=representation\" preferences are mutually exclusive directives.">>>>,
  <<1290, <<>>, <<>>,
    <<"RFC 7240 section 4.4: The \"handling=strict\" and \"handling=lenient\" preferences are mutually exclusive directives.">>>>,
  <<1291, <<>>, <<>>,
    <<"RFC 7240 section 2: If a server supports the optional application of a preference that might result in a variance to a cache's handling of a response entity, a Vary header field MUST be included in the response listing the Prefer header field">>>>,
  <<1292, <<"msg.method">>, <<"error">>,
    <<"",
      "">>>>,
  <<1293, <<"header">>, <<"error">>,
    <<"",
      "">>>>,
  <<1294, <<>>, <<"error">>,
    <<"",
      "">>>>,
  <<1295, <<"msg.method", "uppercase">>, <<>>,
    <<"RFC 7231 section 4.1: The method token is case-sensitive">>>>,
  <<1296, <<"param", "entry">>, <<>>,
    <<"RFC 7239 section 4: Each parameter MUST NOT occur more than once per field-value.">>>>,
  <<1297, <<"entry">>, <<"n_elements", "n_elements", "n_elements">>,
    <<"The Forwarded header here contains ",
      " elements, describing ",
      " proxy hops, with only one parameter for each proxy -- yet all parameters have different names. | If this was intended to be ",
      " parameters for a single proxy hop, then the pairs must be separated with semicolons, not commas.">>>>,
  <<1298, <<>>, <<"place", "size", "max_size">>,
    <<"This message's ",
      " indicates that the body is at least ",
      " bytes long. HTTPolice does not attempt to process bodies longer than ",
      " bytes. The rest of the stream will not be processed either.">>>>,
  <<1299, <<"entry">>, <<"entry", "entry", "entry">>,
    <<"This message's ",
      " header contains a comma inside a quoted string. But experience shows that headers like ",
      " are often parsed without regard for quoted strings--such a naive parser might interpret this comma as a separator between ",
      " elements. If possible, avoiding this comma might help interoperability.">>>>,
  <<1300, <<"entry">>, <<"entry", "entry", "entry">>,
    <<"This message's ",
      " header contains a semicolon inside a quoted string. But experience shows that headers like ",
      " are often parsed without regard for quoted strings--such a naive parser might interpret this semicolon as a separator between ",
      " parameters. If possible, avoiding this semicolon might help interoperability.">>>>,
  <<1301, <<>>, <<>>,
    <<"\"Cache-Control: immutable\" is typically only useful with a large max-age or an Expires far in the future, because immutable applies only for as long as the response is considered fresh. Without explicit max-age or Expires, most caches will consider this response fresh only for a brief period or not at all.">>>>,
  <<1302, <<>>, <<>>,
    <<"RFC 8246: Clients SHOULD ignore the immutable extension from resources that are not part of an authenticated context such as HTTPS.">>>>,
  <<1303, <<>>, <<>>,
    <<"RFC 8246: Clients SHOULD ignore the immutable extension for resources that do not provide a strong indication that the stored response size is the correct response size such as responses delimited by connection close.">>>>,
  <<1304, <<"msg.status", "previous.status">>, <<"msg.status", "previous.status", "previous.status">>,
    <<"It appears like this ",
      " response was preceded by a ",
      " response to the same request. But a ",
      " response can only be the final response to a request. See also RFC 7231 section 6.2. | This is more likely to be a bug in your HTTPolice integration than in the actual HTTP traffic being inspected. For example, responses to different requests may have been mixed up somehow.">>>>,
  <<1305, <<>>, <<>>,
    <<"RFC 7230 section 6.7: If a server receives both an Upgrade and an Expect header field with the \"100-continue\" expectation (Section 5.1.1 of [RFC7231]), the server MUST send a 100 (Continue) response before sending a 101 (Switching Protocols) response.">>>>,
  <<1306, <<"msg.request.version">>, <<>>,
    <<"RFC 7231 section 3.3.1: A server MUST NOT send a response containing Transfer-Encoding unless the corresponding request indicates HTTP/1.1 (or later).">>>>,
  <<1307, <<"place">>, <<>>,
    <<"RFC 8288 section 3: Previous definitions of the Link header did not equate the token and quoted-string forms explicitly; the title parameter was always quoted, and the hreflang parameter was always a token. Senders wishing to maximize interoperability will send them in those forms.">>>>,
  <<1308, <<"place">>, <<>>,
    <<"RFC 8288 section 3: Previous definitions of the Link header did not equate the token and quoted-string forms explicitly; the title parameter was always quoted, and the hreflang parameter was always a token. Senders wishing to maximize interoperability will send them in those forms.">>>>,
  <<1309, <<"place">>, <<>>,
    <<"RFC 8288 section 3.3: The rel parameter MUST be present">>>>,
  <<1310, <<>>, <<>>,
    <<"This response's Accept-Post header means that this resource supports the POST method, but it's missing from the Allow header.">>>>>>
=============================================================================
