------------------------------- MODULE Combine -------------------------------
(***************************************************************************)
(* What the fields of one name in a message mean together (RFC 7230        *)
(* sections 3.2.2 and 4.1.2).  A message is a sequence of entries          *)
(* [n |-> name in lower case, el |-> its element in Grammars or "",        *)
(*  s |-> value (octets), t |-> in the trailer],                           *)
(* headers before trailers.                                                *)
(***************************************************************************)
EXTENDS HeaderSem

IsMulti(n)  == n \in HdrMulti \/ n \in {"alt-svc", "cache-control", "forwarded", "prefer", "preference-applied"}
IsSingle(n) == n \in HdrSingle \/ n = "strict-transport-security"
Ignored(e)  == e.t /\ e.n \in HdrBadTrailer
Of(m, n) == SelectSeq(m, LAMBDA e: e.n = n /\ ~Ignored(e))

\* The form of a list header that excludes all other values
Alone(n, s) ==
  CASE n \in {"vary", "if-match", "if-none-match"} -> s = B("*")
    [] n = "accept-ranges" -> Lower(s) = B("none")
    [] n = "alt-svc" -> s = B("clear")
    [] OTHER -> FALSE

(* --------------------------- what is reported -------------------------- *)
\* equal fields are reported once (see Notices)
Count1026(m) == Cardinality({[n |-> m[k].n, s |-> m[k].s] : k \in {k \in 1..Len(m): Ignored(m[k])}})
Repeated(m, n) ==
  LET es == Of(m, n) IN
  /\ Len(es) > 1
  /\ \/ IsSingle(n)
     \/ IsMulti(n) /\ \E k \in 1..Len(es): Alone(n, es[k].s)
Count1013(m) == Cardinality({n \in {m[k].n : k \in 1..Len(m)}: Repeated(m, n)})

(* ---------------------------- what it means ---------------------------- *)
(* Elements of a list header as text, without parameters and weights; only *)
(* for the headers in Valued.                                              *)
TokenLists == {"accept-ranges", "access-control-expose-headers", "allow", "connection", "content-encoding", "trailer", "vary"}
ParamLists == {"te", "transfer-encoding", "accept-encoding", "accept-charset", "prefer", "cache-control", "pragma"}
TagLists   == {"if-match", "if-none-match"}
NumberHdrs == {"age", "content-length", "max-forwards", "access-control-max-age"}
TypeHdrs   == {"content-type"}
TextHdrs   == {"etag", "content-location"}
Valued == TLCEval(TokenLists \cup ParamLists \cup TagLists \cup NumberHdrs \cup TypeHdrs \cup TextHdrs)
CaseSensitiveItems == {"allow", "if-match", "if-none-match"}

RECURSIVE Concat(_, _)
Concat(ts, k) == IF k > Len(ts) THEN <<>> ELSE ts[k].c \o Concat(ts, k + 1)
\* the item of a list element: its text up to the first ";" or "=" or white space
ItemOf(n, part) ==
  LET p == NoWs(part) IN
  IF n \in TagLists THEN Concat([k \in 1..Len(p) |-> IF p[k].k = "q" THEN [c |-> <<34>> \o p[k].c \o <<34>>] ELSE p[k]], 1)
  ELSE IF n \in CaseSensitiveItems THEN p[1].c ELSE Lower(p[1].c)
LexMode(n) == IF n \in TagLists THEN "o" ELSE "q"
ItemsOf(n, s) == LET ps == Sel(Split(Toks(s, 1, LexMode(n)), ","), LAMBDA p: ~Blank(p)) IN
                  [k \in 1..Len(ps) |-> ItemOf(n, ps[k])]

Ok(e) == e.el = "" \/ InLanguage(e.el, e.s)
RECURSIVE Lists(_, _, _)
Lists(n, es, k) == IF k > Len(es) THEN <<>>
                   ELSE (IF Ok(es[k]) THEN ItemsOf(n, es[k].s) ELSE <<>>) \o Lists(n, es, k + 1)
RECURSIVE Join(_, _)
Join(es, k) == IF k > Len(es) THEN <<>> ELSE (IF k = 1 THEN <<>> ELSE <<44>>) \o es[k].s \o Join(es, k + 1)
RECURSIVE NumT(_, _, _)
NumT(s, k, acc) == IF k > Len(s) THEN acc ELSE NumT(s, k + 1, 10 * acc + (s[k] - 48))

\* [k |-> "absent" | "malformed" | "one" | "list", vs |-> texts]
Meaning(m, n) ==
  LET es == Of(m, n) IN
  IF es = <<>> THEN [k |-> IF IsMulti(n) THEN "list" ELSE "absent", vs |-> <<>>]
  ELSE IF IsSingle(n) THEN
       LET s == es[Len(es)].s IN
       IF ~Ok(es[Len(es)]) THEN [k |-> "malformed", vs |-> <<>>]
       ELSE [k |-> "one", vs |-> << IF n \in NumberHdrs THEN <<NumT(s, 1, 0)>>
                                    ELSE IF n \in TypeHdrs THEN Lower(NoWs(Split(Toks(s, 1, "q"), ";")[1])[1].c) ELSE s>>]
  ELSE IF IsMulti(n) THEN
       (IF \E k \in 1..Len(es): Alone(n, es[k].s)
        THEN (IF Len(es) = 1 THEN [k |-> "one", vs |-> <<Lower(es[1].s)>>] ELSE [k |-> "list", vs |-> <<>>])
        ELSE [k |-> "list", vs |-> Lists(n, es, 1)])
  ELSE [k |-> "one", vs |-> <<Join(es, 1)>>]
Present(m, n) == Of(m, n) # <<>>

(* ------------------------- membership, comparison ---------------------- *)
Member(m, n, x) == LET v == Meaning(m, n) IN v.k = "list" /\ \E k \in 1..Len(v.vs): v.vs[k] = x
Compare(m, n, op, x) ==
  LET v == Meaning(m, n) IN
  /\ v.k = "one"
  /\ LET a == v.vs[1][1] IN
     CASE op = "lt" -> a < x [] op = "le" -> a <= x [] op = "eq" -> a = x [] op = "ne" -> a # x [] op = "ge" -> a >= x [] op = "gt" -> a > x
=============================================================================
