------------------------------- MODULE Notices -------------------------------
(***************************************************************************)
(* Notices and silencing as a state machine.  Objects are exchanges and    *)
(* their messages.  Each object has the complaints raised on it, in order  *)
(* and without repetition, and the notice IDs silenced on it; what a user  *)
(* sees is the former without the latter.  (Properties C11, C12.)          *)
(*   objs[o] = [exch |-> number of its exchange,                           *)
(*              role |-> "exch" | "req" | "resp",                          *)
(*              finds |-> IDs that checking finds on it, in order,         *)
(*              lines |-> its HTTPolice-Silence lines (octets)]            *)
(***************************************************************************)
EXTENDS Grammars, TLC

\* A complaint: <<notice ID, what it is about>>
Complain(st, o, c) == IF \E k \in 1..Len(st.raised[o]): st.raised[o][k] = c THEN st
                      ELSE [st EXCEPT !.raised[o] = Append(@, c)]
Affected(objs, o) == IF objs[o].role = "exch" THEN {p \in 1..Len(objs): objs[p].exch = objs[o].exch} ELSE {o}
Hide(st, os, ids) == [st EXCEPT !.silenced = [o \in DOMAIN @ |-> IF o \in os THEN @[o] \cup ids ELSE @[o]]]
Silence(objs, st, o, ids) == Hide(st, Affected(objs, o), ids)

RECURSIVE ComplainAll(_, _, _, _)
ComplainAll(st, o, finds, k) == IF k > Len(finds) THEN st ELSE ComplainAll(Complain(st, o, <<finds[k], "found", k>>), o, finds, k + 1)

------------------------------------------------------------------------------
(* HTTPolice-Silence *)

RECURSIVE NumOf(_, _)
NumOf(s, acc) == IF s = <<>> THEN acc ELSE NumOf(Tail(s), IF acc > 99999999 THEN acc ELSE acc * 10 + s[1] - 48)
RECURSIVE Commas(_, _)
Commas(s, acc) == IF s = <<>> THEN <<acc>> ELSE IF Head(s) = 44 THEN <<acc>> \o Commas(Tail(s), <<>>) ELSE Commas(Tail(s), Append(acc, Head(s)))
DigitsOf(s) == SelectSeq(s, LAMBDA c: c \in 48..57)
\* <<ID, marked with "resp"?>> of the items of a line; a malformed line has none
ItemsOf(s) ==
    IF ~InLanguage("h_httpolice_silence", s) THEN {}
    ELSE LET parts == Commas(s, <<>>) IN
         {<<NumOf(DigitsOf(parts[k]), 0), \E j \in 1..Len(parts[k]): parts[k][j] \in {82, 114}>> : k \in {i \in 1..Len(parts): DigitsOf(parts[i]) # <<>>}}
Items(lines) == UNION {ItemsOf(lines[k]) : k \in 1..Len(lines)}
\* What the headers of exchange e silence on object o
OwnSilences(objs, o) ==
    LET own == Items(objs[o].lines) IN
    IF objs[o].role = "req" THEN {x[1] : x \in {y \in own: ~y[2]}}
    ELSE IF objs[o].role = "resp" THEN
        {x[1] : x \in own} \cup UNION {{x[1] : x \in {y \in Items(objs[r].lines): y[2]}} : r \in {p \in 1..Len(objs): objs[p].exch = objs[o].exch /\ objs[p].role = "req"}}
    ELSE {}

RECURSIVE CheckFrom(_, _, _, _)
CheckFrom(objs, st, e, o) ==
    IF o > Len(objs) THEN st
    ELSE IF objs[o].exch # e THEN CheckFrom(objs, st, e, o + 1)
    ELSE CheckFrom(objs, Hide(ComplainAll(st, o, objs[o].finds, 1), {o}, OwnSilences(objs, o)), e, o + 1)
Check(objs, st, e) == CheckFrom(objs, st, e, 1)

------------------------------------------------------------------------------
Start(objs) == [raised |-> [o \in 1..Len(objs) |-> <<>>], silenced |-> [o \in 1..Len(objs) |-> {}]]
Elems(seq) == {seq[k] : k \in 1..Len(seq)}
\* An operation: [op |-> "complain", o, id, about] | [op |-> "silence", o, ids, as] | [op |-> "check", o (an exchange)]
Apply(objs, st, x) ==
    CASE x.op = "complain" -> Complain(st, x.o, <<x.id, x.about>>)
      [] x.op = "silence" -> Silence(objs, st, x.o, Elems(x.ids))
      [] x.op = "check" -> Check(objs, st, objs[x.o].exch)
VisibleOf(st, o) == SelectSeq(st.raised[o], LAMBDA c: c[1] \notin st.silenced[o])
Visible(st) == [o \in DOMAIN st.raised |-> [k \in 1..Len(VisibleOf(st, o)) |-> VisibleOf(st, o)[k][1]]]
==============================================================================
