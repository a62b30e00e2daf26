-------------------------------- MODULE Har --------------------------------
(***************************************************************************)
(* What exchange a HAR entry describes (HAR 1.2, and what exporters do).   *)
(* Text is sequences of code points.  An entry e:                          *)
(*   req  [method, scheme, auth, path, query |-> [has, v], url, ver, hdrs, *)
(*         size, post |-> [has, text]]                                     *)
(*   resp [status, reason, ver, hdrs, size, csize,                         *)
(*         text |-> [has, v, enc |-> "" | "base64" | "bad64" | "other",    *)
(*                   raw |-> the octets encoded]]                          *)
(* hdrs: sequence of [n, v].  A body is "empty", "there" (but not known),  *)
(* "unknown" or, for decoded forms, "ok" with a value.                     *)
(***************************************************************************)
EXTENDS Abnf

Browsers == {"WebInspector", "Firefox", "F12 Developer Tools"}
Fiddler(cr) == cr = "Fiddler"
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, p) == \E i \in 0..(Len(s) - Len(p)): SubSeq(s, i + 1, i + Len(p)) = p
LowerT(s) == [k \in 1..Len(s) |-> IF s[k] \in 65..90 THEN s[k] + 32 ELSE s[k]]
Method(e) == e.req.method
IsConnect(e) == Method(e) = B("CONNECT")
Success(e) == e.resp.status \in 200..299

NotPseudo(hs) == SelectSeq(hs, LAMBDA x: ~StartsWith(x.n, <<58>>))
Version(cr, v) == IF StartsWith(v, B("HTTP/")) /\ cr \notin Browsers THEN v ELSE <<>>
HasHost(hs) == \E k \in 1..Len(hs): LowerT(hs[k].n) = B("host")
Target(e) ==
  IF IsConnect(e) THEN e.req.auth
  ELSE IF HasHost(NotPseudo(e.req.hdrs))
       THEN (IF e.req.path = <<>> THEN <<47>> ELSE e.req.path) \o (IF e.req.query.has THEN <<63>> \o e.req.query.v ELSE <<>>)
  ELSE e.req.url
BySize(n) == IF n = 0 THEN "empty" ELSE IF n > 0 THEN "there" ELSE "unknown"

FiddlerWord == TLCEval(B("Fiddler"))
\* Fiddler gives the parties of a CONNECT request debugging information as the body
FakeReq(e, cr) == Fiddler(cr) /\ IsConnect(e) /\ e.req.post.has /\ Contains(e.req.post.text, FiddlerWord)
ReqBody(e, cr) == IF FakeReq(e, cr) THEN "empty" ELSE BySize(e.req.size)
ReqText(e, cr) == IF e.req.post.has /\ e.req.post.text # <<>> /\ ~FakeReq(e, cr) THEN [k |-> "ok", v |-> e.req.post.text]
                  ELSE [k |-> ReqBody(e, cr), v |-> <<>>]

NoResponse(e) == e.resp.status = 0
Debug == TLCEval({B("EndTime"), B("ClientToServerBytes"), B("ServerToClientBytes")})
RespHdrs(e, cr) == LET hs == NotPseudo(e.resp.hdrs) IN
  IF Fiddler(cr) /\ IsConnect(e) /\ Success(e)
  THEN SelectSeq(hs, LAMBDA x: LowerT(x.n) \notin {LowerT(d) : d \in Debug}) ELSE hs
FakeResp(e, cr) == Fiddler(cr) /\ IsConnect(e) /\ Success(e) /\ e.resp.text.has /\ e.resp.text.enc = "base64"
                   /\ Contains(e.resp.text.raw, FiddlerWord)
RespBody(e, cr) ==
  IF e.resp.size = 0 \/ e.resp.csize = 0 \/ e.resp.status = 304 \/ FakeResp(e, cr) THEN "empty"
  ELSE IF cr = "Firefox" THEN "unknown"
  ELSE IF e.resp.size > 0 \/ e.resp.csize > 0 THEN "there" ELSE "unknown"
GivesText(e) == e.resp.text.has /\ e.resp.text.v # <<>> /\ e.resp.status # 304
RespDecoded(e, cr) == IF GivesText(e) /\ e.resp.text.enc = "base64" /\ ~FakeResp(e, cr) THEN [k |-> "ok", v |-> e.resp.text.raw]
                      ELSE [k |-> RespBody(e, cr), v |-> <<>>]
\* Text in an encoding other than Base64 is not the body's text; that of a Base64 body depends on its charset.
RespText(e, cr) == IF GivesText(e) /\ e.resp.text.enc = "" THEN [k |-> "ok", v |-> e.resp.text.v]
                   ELSE IF RespDecoded(e, cr).k = "ok" THEN [k |-> "?", v |-> <<>>]
                   ELSE [k |-> RespBody(e, cr), v |-> <<>>]

Exchange(e, cr) ==
  [req |-> [scheme |-> LowerT(e.req.scheme), method |-> Method(e), target |-> Target(e), ver |-> Version(cr, e.req.ver),
            hdrs |-> NotPseudo(e.req.hdrs), body |-> ReqBody(e, cr), text |-> ReqText(e, cr)],
   resps |-> IF NoResponse(e) THEN <<>>
             ELSE <<[status |-> e.resp.status, reason |-> e.resp.reason, ver |-> Version(cr, e.resp.ver), hdrs |-> RespHdrs(e, cr),
                     body |-> RespBody(e, cr), decoded |-> RespDecoded(e, cr), text |-> RespText(e, cr)]>>]

(* ----------------------------- wrong documents ------------------------- *)
(* Change one value of a good document: at a path, into another JSON type   *)
(* ("missing": removed).  Each path has its type and whether it is optional.*)
Fields == TLCEval([
  top |-> "dict", log |-> "dict", creator |-> "dict", creatorname |-> "string", entries |-> "list", entry |-> "dict",
  request |-> "dict", response |-> "dict", method |-> "string", url |-> "string", reqversion |-> "string", reqheaders |-> "list",
  reqheader |-> "dict", reqname |-> "string", reqvalue |-> "string", reqsize |-> "number", post |-> "dict", posttext |-> "string",
  status |-> "number", reason |-> "string", respversion |-> "string", respheaders |-> "list", respheader |-> "dict",
  respname |-> "string", respvalue |-> "string", content |-> "dict", csize |-> "number", ctext |-> "string", cencoding |-> "string",
  respsize |-> "number"])
Optional == {"post", "posttext", "ctext", "cencoding"}
Types == {"missing", "null", "bool", "number", "string", "list", "dict", "emptystring", "emptylist", "emptydict", "zero"}
TypeOf(t) == CASE t \in {"string", "emptystring"} -> "string" [] t \in {"number", "zero"} -> "number"
               [] t \in {"list", "emptylist"} -> "list" [] t \in {"dict", "emptydict"} -> "dict" [] OTHER -> t
\* "error": must be reported as an input error; "open": may be accepted or not
Verdict(f, t) ==
  IF f \in Optional /\ t \notin {"number", "string", "list", "dict"} THEN "open"
  ELSE IF TypeOf(t) = Fields[f] THEN "open"
  ELSE IF Fields[f] = "number" /\ t = "bool" THEN "open"
  ELSE IF f = "status" /\ t = "string" THEN "open"           \* "200"
  ELSE IF f \in {"csize", "respsize"} THEN "open"          \* not needed when the other tells enough
  ELSE IF f = "creatorname" /\ t # "missing" THEN "open"
  ELSE IF f = "reason" /\ t = "null" THEN "open"
  ELSE "error"
=============================================================================
