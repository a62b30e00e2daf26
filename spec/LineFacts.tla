------------------------------ MODULE LineFacts ------------------------------
(***************************************************************************)
(* The facts that notices about a single header line state, from the octets *)
(* of the line: which name, value, date, number is wrong, and what it       *)
(* should be.  A fact is <<notice, texts>>.  (Property C40.)                *)
(***************************************************************************)
EXTENDS HeaderSem, KnownExplanations

Row == TLCEval([id \in {ExplanationTable[k][1] : k \in 1..Len(ExplanationTable)} |->
                ExplanationTable[CHOOSE k \in 1..Len(ExplanationTable): ExplanationTable[k][1] = id]])
At(refs, name) == {k \in 1..Len(refs): refs[k] = name}
First(set) == CHOOSE x \in set: \A y \in set: x <= y

\* Numbers in decimal, of at least w digits
RECURSIVE Decimal(_, _)
Decimal(n, w) == IF n < 10 /\ w <= 1 THEN <<48 + n>> ELSE Append(Decimal(n \div 10, w - 1), 48 + (n % 10))
DayWord == TLCEval(<<B("Sunday"), B("Monday"), B("Tuesday"), B("Wednesday"), B("Thursday"), B("Friday"), B("Saturday")>>)
MonthWord == TLCEval(<<B("Jan"), B("Feb"), B("Mar"), B("Apr"), B("May"), B("Jun"), B("Jul"), B("Aug"), B("Sep"), B("Oct"), B("Nov"), B("Dec")>>)
Good(bad) == IF bad = S("text/json") THEN S("application/json") ELSE S("text/plain")

Fact(id, sets) == {<<id, x>> : x \in sets}
DateFacts(d) ==
    LET x == DateParts(d)
        dok == x.y >= 1 /\ x.d \in 1..MonthLen(x.y, x.m)
        tok == x.hh <= 23 /\ x.mm <= 59 /\ x.ss <= 59 IN
    Fact(1222, IF dok THEN {} ELSE {<<Decimal(x.d, 1) \o <<32>> \o MonthWord[x.m] \o <<32>> \o Decimal(x.y, 1)>>})
    \cup Fact(1223, IF tok THEN {} ELSE {<<Decimal(x.hh, 2) \o <<58>> \o Decimal(x.mm, 2) \o <<58>> \o Decimal(x.ss, 2)>>})
    \cup Fact(1108, IF dok /\ tok /\ Weekday(x.y, x.m, x.d) # DayNo(d)
                    THEN {<<Decimal(x.y, 4) \o <<45>> \o Decimal(x.m, 2) \o <<45>> \o Decimal(x.d, 2), DayWord[DayNo(d) + 1], DayWord[Weekday(x.y, x.m, x.d) + 1]>>} ELSE {})
LinkFacts(ts) ==
    LET sl == Slots("link", ts)
        Of(ps) == UNION {
            Fact(1225, {<<ps[k].n>> : k \in (1..Len(ps)) \ Used(ps)}),
            Fact(1158, {<<ps[k].n, ps[k].v>> : k \in {j \in Used(ps): ~ArgOk("link", ps[j])}}),
            Fact(1282, {<<Lower(ps[k].v), Good(Lower(ps[k].v))>> : k \in {j \in Used(ps): ps[j].n = S("type") /\ Lower(ps[j].v) \in BadTypes}})} IN
    UNION {Of(LinkParams(sl[k])) : k \in 1..Len(sl)}
EscapeFacts(n, ts) ==
    LET kind == IF n \in CommentHdrs THEN "m" ELSE "q"
        fine == IF n \in CommentHdrs THEN {40, 41, 92} ELSE {34, 92} IN
    Fact(1017, IF n \notin CommentHdrs \cup QsHdrs THEN {} ELSE UNION {{<<<<x>>>> : x \in Elems(ts[k].e) \ fine} : k \in Idx(ts, LAMBDA t: t.k = kind)})
WidthFacts(n, ts) ==
    Fact(1014, IF n \notin CommentHdrs \cup {"httpolice-silence"} THEN {}
               ELSE {<<Decimal(Len(ts[k].c), 1)>> :
                     k \in {j \in 2..(Len(ts) - 1): /\ ts[j].k = "w" /\ ts[j].c # <<32>>
                                                    /\ ~(n \in {"via", "httpolice-silence"} /\ (IsD(ts[j - 1], ",") \/ IsD(ts[j + 1], ",")))}})
ArgFacts(n, ts) ==
    IF n \notin DirectiveHdrs THEN {}
    ELSE LET ds == IF n = "alt-svc" /\ ts[1].c = B("clear") /\ Len(ts) = 1 THEN {} ELSE AllDirectives(n, ts) IN
    UNION {
    Fact(1156, {<<d.n>> : d \in {x \in ds: NoArg(n, x) /\ x.n \in Required(n)}}),
    Fact(1157, {<<d.n>> : d \in {x \in ds: ~NoArg(n, x) /\ x.n \in Forbidden(n)}}),
    Fact(1158, {<<d.n, d.v>> : d \in {x \in ds: ~NoArg(n, x) /\ x.n \notin Forbidden(n) /\ ~ArgOk(n, x)}}),
    IF n # "cache-control" THEN {}
    ELSE Fact(1154, {<<d.n>> : d \in {x \in ds: x.n \in Oct(CcQuoted) /\ x.a = "t"}}) \cup Fact(1155, {<<d.n>> : d \in {x \in ds: x.n \in Oct(CcToken) /\ x.a = "q"}})}
MediaFacts(n, ts) ==
    IF n \notin MediaHdrs THEN {}
    ELSE LET sl == Slots(n, ts) IN Fact(1282, {<<m, Good(m)>> : m \in {Lower(NoWs(sl[k])[1].c) : k \in 1..Len(sl)} \cap BadTypes})
AltSvcFacts(n, ts) ==
    IF n # "alt-svc" \/ (Len(ts) = 1 /\ ts[1].c = B("clear")) THEN {}
    ELSE LET sl == Slots(n, ts)   alt(k) == NoWs(sl[k]) IN
         Fact(1256, {<<alt(k)[1].c, PctEncode(PctDecode(alt(k)[1].c))>> : k \in {j \in 1..Len(sl): PctEncode(PctDecode(alt(j)[1].c)) # alt(j)[1].c}})
         \cup Fact(1257, {<<alt(k)[3].c>> : k \in {j \in 1..Len(sl): ~Matches(Env, AltAuthority, alt(j)[3].c)}})
ForwardedFacts(n, ts) ==
    IF n # "forwarded" THEN {}
    ELSE LET sl == Slots(n, ts)   el(k) == Pairs(Split(sl[k], ";")) IN
         Fact(1296, UNION {{<<el(k)[i].n>> : i \in {x \in 1..Len(el(k)): \E y \in 1..Len(el(k)): x # y /\ el(k)[y].n = el(k)[x].n}} : k \in 1..Len(sl)})
         \cup Fact(1297, IF <<1297, "">> \in OfForwarded(n, ts) THEN {<<Decimal(Len(sl), 1)>>} ELSE {})
DispFacts(n, ts, last) ==
    IF n # "content-disposition" \/ ~last THEN {}
    ELSE LET ps == Pairs(Rest(Split(ts, ";"))) IN
         Fact(1247, {<<ps[k].n>> : k \in {j \in 1..Len(ps): \E i \in 1..Len(ps): i # j /\ ps[i].n = ps[j].n}})

\* The facts of a well-formed line s; last: it is the last line of its header
LineFacts(n, s, last) ==
    LET ts == Lexed(n, s) IN
    UNION {UNION {DateFacts(d) : d \in Dates(n, s, ts)}, EscapeFacts(n, ts), WidthFacts(n, ts), ArgFacts(n, ts), MediaFacts(n, ts),
           AltSvcFacts(n, ts), ForwardedFacts(n, ts), DispFacts(n, ts, last), IF n = "link" THEN LinkFacts(ts) ELSE {}}

------------------------------------------------------------------------------
\* The variables that state a fact, in the order above; names are compared without regard to case
Stating == TLCEval([id \in {1014, 1017, 1108, 1154, 1155, 1156, 1157, 1158, 1222, 1223, 1225, 1247, 1256, 1257, 1282, 1296, 1297} |->
    CASE id = 1014 -> <<"num">> [] id = 1017 -> <<"char">> [] id = 1108 -> <<"date", "claimed", "actual">>
      [] id \in {1154, 1155} -> <<"directive">> [] id \in {1156, 1157, 1225} -> <<"name">> [] id = 1158 -> <<"name", "value">>
      [] id = 1222 -> <<"date">> [] id = 1223 -> <<"time">> [] id = 1247 -> <<"param">> [] id = 1256 -> <<"actual", "correct">>
      [] id = 1257 -> <<"authority">> [] id = 1282 -> <<"bad", "good">> [] id = 1296 -> <<"param">> [] id = 1297 -> <<"n_elements">>])
Nameless == TLCEval({"directive", "name", "param", "bad", "good"})
RECURSIVE Zeros(_)
Zeros(v) == IF Len(v) < 10 THEN Zeros(<<48>> \o v) ELSE v
\* got: [id, t |-> variable parts of the title, x |-> of the explanation, as octets]
Value(g, n) == LET v == IF At(Row[g.id][3], n) # {} THEN g.x[First(At(Row[g.id][3], n))] ELSE g.t[First(At(Row[g.id][2], n))] IN
               \* (years before 1000 are written with or without leading zeros, depending on the platform)
               IF n \in Nameless THEN Lower(v) ELSE IF g.id = 1108 /\ n = "date" THEN Zeros(v) ELSE v
Stated(g) == <<g.id, [k \in 1..Len(Stating[g.id]) |-> Value(g, Stating[g.id][k])]>>
\* What is repeated is the same
Consistent(g) == \A k \in 1..Len(g.x):
    LET n == Row[g.id][3][k]
        inTitle == At(Row[g.id][2], n) IN
    n = "error" \/ g.x[k] = (IF inTitle # {} THEN g.t[First(inTitle)] ELSE g.x[First(At(Row[g.id][3], n))])
==============================================================================
