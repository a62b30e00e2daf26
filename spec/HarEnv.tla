------------------------------- MODULE HarEnv -------------------------------
(* Every combination of creator, method, status, sizes and texts; every change of *)
(* one value of a document into another type.                                     *)
EXTENDS Har, Json
VARIABLES vKind, vPick
Creators == {"WebInspector", "Firefox", "F12 Developer Tools", "Fiddler", "Other"}
Picks == [cr : Creators, connect : BOOLEAN, host : BOOLEAN, status : {0, 200, 304, 404}, rsize : {-1, 0, 5}, size : {-1, 0, 5}, csize : {-1, 0, 5},
          post : {"none", "text", "debug"}, text : {"none", "plain", "base64", "bad64", "other", "debug64"}]
Init == \/ vKind = "entry" /\ vPick \in Picks
        \/ vKind = "type" /\ vPick \in [f : DOMAIN Fields, t : Types]
Next == FALSE /\ UNCHANGED <<vKind, vPick>>
Emit == PrintT("@@" \o ToJson([kind |-> vKind, pick |-> vPick, want |-> IF vKind = "type" THEN Verdict(vPick.f, vPick.t) ELSE ""]))
DebugText == TLCEval(B("This is a CONNECT tunnel. Fiddler"))
AsEntry(p) == [req |-> [method |-> IF p.connect THEN B("CONNECT") ELSE B("GET"), scheme |-> B("http"), auth |-> B("h"), path |-> B("/p"), query |-> [has |-> FALSE, v |-> <<>>],
                        url |-> B("http://h/p"), ver |-> B("HTTP/1.1"), hdrs |-> IF p.host THEN <<[n |-> B("Host"), v |-> B("h")]>> ELSE <<>>, size |-> p.rsize,
                        post |-> [has |-> p.post # "none", text |-> IF p.post = "debug" THEN DebugText ELSE IF p.post = "text" THEN B("x") ELSE <<>>]],
               resp |-> [status |-> p.status, reason |-> <<>>, ver |-> <<>>, hdrs |-> <<>>, size |-> p.size, csize |-> p.csize,
                         text |-> [has |-> p.text # "none", v |-> IF p.text = "none" THEN <<>> ELSE B("x"),
                                   enc |-> CASE p.text = "none" \/ p.text = "plain" -> "" [] p.text = "debug64" -> "base64" [] OTHER -> p.text,
                                   raw |-> IF p.text = "debug64" THEN DebugText ELSE IF p.text = "base64" THEN B("x") ELSE <<>>]]]
Sane == (vKind = "entry") =>
  LET x == Exchange(AsEntry(vPick), vPick.cr) IN
  /\ (vPick.cr \in Browsers => x.req.ver = <<>>)
  /\ Len(x.resps) = (IF vPick.status = 0 THEN 0 ELSE 1)
  /\ \A k \in 1..Len(x.resps): /\ (vPick.status = 304 => x.resps[k].body = "empty" /\ x.resps[k].text.k # "ok")
                               /\ (x.resps[k].body = "unknown" => vPick.csize < 0 \/ vPick.cr = "Firefox")
                               /\ (vPick.cr # "Fiddler" /\ vPick.text \in {"base64", "debug64"} /\ vPick.status # 304 => x.resps[k].decoded.k = "ok")
  /\ (x.req.text.k # "ok" => x.req.text.k = x.req.body)
==============================================================================
