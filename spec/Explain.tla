------------------------------- MODULE Explain -------------------------------
(***************************************************************************)
(* What the explanation of a notice must say: its variable parts are the    *)
(* items its title names, the facts of the message it is about, and the     *)
(* offending values.  (Property C40.)                                       *)
(*  got: [id, t |-> the variable parts of the title, x |-> those of the     *)
(*        explanation, tl, xl |-> both in lower case]                       *)
(***************************************************************************)
EXTENDS Naming, KnownExplanations

Row == TLCEval([id \in {ExplanationTable[k][1] : k \in 1..Len(ExplanationTable)} |->
                ExplanationTable[CHOOSE k \in 1..Len(ExplanationTable): ExplanationTable[k][1] = id]])
TitleRefs(id) == Row[id][2]
Refs(id) == Row[id][3]
At(refs, name) == {k \in 1..Len(refs): refs[k] = name}

\* What the explanation repeats from the title, or from its own beginning, is the same
Repeats(g, k) ==
    LET n == Refs(g.id)[k]
        earlier == {j \in At(Refs(g.id), n): j < k} IN
    IF n = "error" THEN TRUE
    ELSE IF At(TitleRefs(g.id), n) # {} THEN g.x[k] = g.t[First(At(TitleRefs(g.id), n))]
    ELSE earlier = {} \/ g.x[k] = g.x[First(earlier)]

\* What it says of the message (or its request r)
Fact(m, r, n) ==
    CASE n = "msg.status" -> ToString(m.status)
      [] n = "msg.method" -> m.method
      [] n = "msg.request.method" -> r.method
      [] n = "msg.version" -> m.ver
      [] n = "msg.request.version" -> r.ver
      [] n = "msg.headers.age.value" -> ToString(One(m, "age"))
      [] n = "msg.request.headers.content_length.value" -> ToString(One(r, "content-length"))
      [] n = "msg.request.headers.cache_control.max_age" -> ToString(Cc(r, "max-age").num)
Facts == TLCEval({"msg.status", "msg.method", "msg.request.method", "msg.version", "msg.request.version", "msg.headers.age.value",
                  "msg.request.headers.content_length.value", "msg.request.headers.cache_control.max_age"})

\* An upgrade protocol as it is written
Written(p) == IF p.v = "" THEN p.i ELSE p.i \o "/" \o p.v
\* What it says of the offending item: the subject of the notice, in the form of Expected(ex)
Told(g) ==
    CASE g.id = 1160 -> ToString(g.x[1])
      [] g.id = 1164 -> LET ns == {n \in 0..999: ThreeDigits(g.id, n) = g.xl[1]} IN IF ns = {} THEN "?" ELSE ToString(CHOOSE n \in ns: TRUE)
      [] g.id = 1266 -> ToString(<<g.tl[1], g.x[1]>>)
      [] OTHER -> ""

BadFacts(m, r, g) ==
    LET id == g.id
        K(c, what) == IF c THEN {what} ELSE {} IN
    UNION {
    {Refs(id)[k] \o " " \o ToString(k) : k \in {j \in 1..Len(g.x): ~Repeats(g, j)}},
    {Refs(id)[k] : k \in {j \in 1..Len(g.x): Refs(id)[j] \in Facts /\ g.x[j] # Fact(m, r, Refs(id)[j])}},
    IF id \in {1102, 1103} THEN K(g.x[1] # LET l == SelectSeq(List(m, "upgrade"), LAMBDA p: p \in Elems(r, "upgrade")) IN
                                           IF l = <<>> THEN "?" ELSE Written(l[1]), "protocol") ELSE {},
    IF id = 1093 THEN K(~\E k \in 1..Len(One(m, "user-agent")): LET p == One(m, "user-agent")[k] IN
                            p.k = "p" /\ g.x[1] \in {p.i, p.i \o "/1.0", p.i \o "/2"}, "library") ELSE {},
    IF id = 1274 THEN K(g.xl[2] # One(m, g.tl[1]).scheme, "scheme") ELSE {}}

\* Everything wrong with the explanations of the notices of message m
BadExplained(ex, w, m, r, got) ==
    LET exp == {x \in Expected(ex): x[2] = w}
        told == {k \in 1..Len(got): Told(got[k]) # ""}
        spoken == {<<got[k].id, w, Told(got[k])>> : k \in told}
        ids == {got[k].id : k \in told} IN
    {ToString(x[1]) \o "@" \o w \o " should not speak of " \o x[3] : x \in spoken \ exp}
    \cup {ToString(x[1]) \o "@" \o w \o " should speak of " \o x[3] : x \in {y \in exp: y[1] \in ids} \ spoken}
    \cup UNION {{ToString(got[k].id) \o "@" \o w \o " gives another " \o b : b \in BadFacts(m, r, got[k])} : k \in 1..Len(got)}
==============================================================================
