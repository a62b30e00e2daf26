------------------------------ MODULE NoticesEnv ------------------------------
(* All sequences of at most MaxLen operations on two exchanges, up to renaming of    *)
(* notices: IDs 1 and 2 stand for notices the check finds, 3 for another.            *)
EXTENDS Notices, Json
CONSTANTS MaxLen
VARIABLES vOps, vSt
D(s) == TLCEval(B(s))
Objs == TLCEval(<<[exch |-> 1, role |-> "exch", finds |-> <<>>, lines |-> <<>>],
          [exch |-> 1, role |-> "req", finds |-> <<1, 2>>, lines |-> <<>>],
          [exch |-> 1, role |-> "resp", finds |-> <<2, 1, 2>>, lines |-> <<>>],
          [exch |-> 2, role |-> "exch", finds |-> <<>>, lines |-> <<>>],
          [exch |-> 2, role |-> "resp", finds |-> <<1>>, lines |-> <<>>]>>)
Ops == [op : {"complain"}, o : {1, 3}, id : {1, 3}, about : {"a", "b"}]
       \cup [op : {"silence"}, o : {1, 2, 3, 4}, ids : {<<1>>, <<1, 2>>}]
       \cup [op : {"check"}, o : {1, 4}]
Init == vOps = <<>> /\ vSt = Start(Objs)
Next == Len(vOps) < MaxLen /\ \E x \in Ops : vOps' = Append(vOps, x) /\ vSt' = Apply(Objs, vSt, x)
Emit == (Len(vOps) = MaxLen) => PrintT("@@" \o ToJson(vOps))

------------------------------------------------------------------------------
\* No complaint is listed twice
NoRepetition == \A o \in 1..Len(Objs): \A j, k \in 1..Len(vSt.raised[o]): j # k => vSt.raised[o][j] # vSt.raised[o][k]
\* A silenced notice is never seen again, on the object or its messages
StaysSilent == \A k \in 1..Len(vOps): vOps[k].op = "silence" =>
                 \A o \in Affected(Objs, vOps[k].o): Elems(vOps[k].ids) \cap Elems(Visible(vSt)[o]) = {}
\* An operation only touches its own exchange
Isolation == [][\A o \in 1..Len(Objs): Objs[o].exch # Objs[vOps'[Len(vOps')].o].exch => vSt'.raised[o] = vSt.raised[o] /\ vSt'.silenced[o] = vSt.silenced[o]]_<<vOps, vSt>>
\* Silencing and anything else commute
Commute == \A x \in {y \in Ops: y.op = "silence"}, y \in Ops: Apply(Objs, Apply(Objs, vSt, x), y) = Apply(Objs, Apply(Objs, vSt, y), x)
\* Checking twice is checking once
Idempotent == \A x \in {y \in Ops: y.op # "complain" }: Apply(Objs, Apply(Objs, vSt, x), x) = Apply(Objs, vSt, x)
==============================================================================
