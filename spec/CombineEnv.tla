------------------------------ MODULE CombineEnv ------------------------------
(* Every small arrangement of fields with one or two names, of each kind of header. *)
EXTENDS Combine, Json
CONSTANTS MaxEntries
VARIABLES vMsg
\* a name of each kind, with values: good ones, a singleton, a malformed one
Pool == TLCEval([ n \in {"connection", "vary", "if-match", "age", "content-type", "etag", "x-foo", "allow", "trailer", "accept-ranges", "transfer-encoding", "max-forwards", "content-location"} |->
  CASE n = "connection" -> {B("close"), B("a, Close"), B("a b")}
    [] n = "vary" -> {B("*"), B("Accept"), B("a;b"), B("*, a")}
    [] n = "if-match" -> {B("*"), B("\"a\""), B("W/\"a\", \"b\""), B("a")}
    [] n = "age" -> {B("1"), B("2"), B("x")}
    [] n = "content-type" -> {B("a/b"), B("A/c;d=e"), B("a")}
    [] n = "etag" -> {B("\"a\""), B("a")}
    [] n = "x-foo" -> {B("a"), B("")}
    [] n = "allow" -> {B("GET, get"), B(""), B("(")}
    [] n = "trailer" -> {B("Foo"), B(",")}
    [] n = "accept-ranges" -> {B("None"), B("bytes"), B("a/b")}
    [] n = "transfer-encoding" -> {B("chunked"), B("gzip;a=\",\", chunked"), B(";")}
    [] n = "max-forwards" -> {B("0"), B("-1")}
    [] n = "content-location" -> {B("/a"), B("/b c")} ])
Key == [n \in DOMAIN Pool |-> CASE n = "connection" -> "h_connection" [] n = "vary" -> "h_vary" [] n = "if-match" -> "h_if_match" [] n = "age" -> "h_age" [] n = "content-type" -> "h_content_type"
   [] n = "etag" -> "h_etag" [] n = "allow" -> "h_allow" [] n = "trailer" -> "h_trailer" [] n = "accept-ranges" -> "h_accept_ranges" [] n = "transfer-encoding" -> "h_transfer_encoding"
   [] n = "max-forwards" -> "h_max_forwards" [] n = "content-location" -> "h_content_location" [] OTHER -> ""]
Init == vMsg = <<>>
Next == /\ Len(vMsg) < MaxEntries
        /\ \E n \in DOMAIN Pool, t \in BOOLEAN: \E s \in Pool[n]:
              /\ (Len(vMsg) >= 2 => n \in {vMsg[k].n : k \in 1..Len(vMsg)})
              /\ (Len(vMsg) > 0 /\ vMsg[Len(vMsg)].t => t)
              /\ vMsg' = Append(vMsg, [n |-> n, el |-> Key[n], s |-> s, t |-> t])
Emit == PrintT("@@" \o ToJson(vMsg))
Names == {vMsg[k].n : k \in 1..Len(vMsg)}
\* A message without any of a name's fields in it means the same as one where all were ignored; order of names does not matter
Swap(m, k) == [j \in 1..Len(m) |-> IF j = k THEN m[k + 1] ELSE IF j = k + 1 THEN m[k] ELSE m[j]]
Independent == \A k \in 1..(Len(vMsg) - 1): (vMsg[k].n # vMsg[k + 1].n /\ vMsg[k].t = vMsg[k + 1].t) =>
                 \A n \in Names: Meaning(Swap(vMsg, k), n) = Meaning(vMsg, n)
Lists1 == \A n \in Names: IsMulti(n) => Meaning(vMsg, n).k \in {"list", "one"}
\* A list over several fields is the list of the fields joined with commas, when all are well-formed and none a singleton
Joined == \A n \in Names: LET es == Of(vMsg, n) IN
   (IsMulti(n) /\ Len(es) > 1 /\ (\A k \in 1..Len(es): Ok(es[k]) /\ ~Alone(n, es[k].s) /\ es[k].s # <<>>)) =>
       Meaning(<<[n |-> n, el |-> Key[n], s |-> Join(es, 1), t |-> FALSE]>>, n).vs = Meaning(vMsg, n).vs
==============================================================================
