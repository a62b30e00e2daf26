------------------------------ MODULE Unknown ------------------------------
(***************************************************************************)
(* What is not known about an exchange (property C34).  A fact is          *)
(* [w, f]: w is the message, f what may become unknown: "ver", "scheme",   *)
(* "reason", "body" (nothing is known of it), "content" (there is a body,  *)
(* but not what is in it), and "all" for the whole request.                *)
(***************************************************************************)
EXTENDS Rules

Nothing == [st |-> "unknown", kind |-> "text", pairs |-> <<>>, parts |-> <<>>]
Sealed == [Nothing EXCEPT !.st = "unavail"]
Lose(m, f) == CASE f = "ver" -> [m EXCEPT !.ver = "-"] [] f = "scheme" -> [m EXCEPT !.scheme = "-"] [] f = "reason" -> [m EXCEPT !.rok = TRUE]
                [] f = "body" -> [m EXCEPT !.body = Nothing] [] f = "content" -> [m EXCEPT !.body = Sealed]
Index(ex, w) == CHOOSE k \in 1..Len(ex.resps): ToString(k) = w
LoseOne(ex, x) == IF x.f = "all" THEN [ex EXCEPT !.req = [none |-> TRUE]]
                  ELSE IF x.w = "req" THEN IF NoReq(ex.req) THEN ex ELSE [ex EXCEPT !.req = Lose(ex.req, x.f)]
                  ELSE [ex EXCEPT !.resps[Index(ex, x.w)] = Lose(ex.resps[Index(ex, x.w)], x.f)]
Knows(m, f) == CASE f = "ver" -> m.ver # "-" [] f = "scheme" -> m.scheme # "-" [] f = "reason" -> TRUE
                 [] f = "body" -> m.body.st # "unknown" [] f = "content" -> m.body.st = "some"
Facts(ex) == (IF NoReq(ex.req) THEN {} ELSE {[w |-> "req", f |-> f] : f \in {g \in {"ver", "scheme", "body", "content"}: Knows(ex.req, g)}}
                                            \cup IF ex.resps = <<>> THEN {} ELSE {[w |-> "req", f |-> "all"]})
             \cup UNION {{[w |-> ToString(k), f |-> f] : f \in {g \in {"ver", "reason", "body", "content"}: Knows(ex.resps[k], g)}} : k \in 1..Len(ex.resps)}

\* What only the known value kept from being reported, of each message
Suppressed(ex, x, w) ==
  IF x.f = "all" THEN
    \* the contents of a body are not looked at if there can be no body
    IF ex.req.method = "HEAD" THEN {1038, 1039, 1040, 1139, 1140, 1141, 1142, 1275, 1281} ELSE {}
  ELSE IF x.w = "req" /\ x.f = "body" /\ w = "req" THEN
    \* a body of HTTP/1.x that is not announced is no body
    IF HasBytes(ex.req) /\ HttpOne(ex.req) /\ Lacks(ex.req, "content-length") /\ Lacks(ex.req, "transfer-encoding") THEN {1053, 1066} ELSE {}
  ELSE {}
============================================================================
