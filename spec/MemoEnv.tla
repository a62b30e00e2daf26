------------------------------- MODULE MemoEnv -------------------------------
(* All histories of parses of few keys, with room for fewer; all histories of  *)
(* operations on two exchanges.                                                *)
EXTENDS Memo, Json
CONSTANTS Keys, Limit, MaxParses, MaxActs
VARIABLES vKind, vHist, vMemo, vLast, vState
\* the last key fails
F == [k \in 1..Keys |-> [ok |-> k < Keys, v |-> k]]
Nothing == [ok |-> TRUE, v |-> 0]
Init == vHist = <<>> /\ vMemo = <<>> /\ vLast = Nothing /\ vState = <<"new", "new">> /\ vKind \in {"parses", "acts"}
Next == \/ /\ vKind = "parses" /\ Len(vHist) < MaxParses
           /\ \E k \in 1..Keys: LET r == Parse(vMemo, k, F, Limit) IN vMemo' = r.memo /\ vLast' = r.out /\ vHist' = Append(vHist, k)
           /\ UNCHANGED <<vKind, vState>>
        \/ /\ vKind = "acts" /\ Len(vHist) < MaxActs
           /\ \E o \in {1, 2}, a \in Acts: vHist' = Append(vHist, [o |-> o, a |-> a]) /\ vState' = After(vState, o, a)
           /\ UNCHANGED <<vKind, vMemo, vLast>>
Full == Len(vHist) = IF vKind = "parses" THEN MaxParses ELSE MaxActs
Emit == Full => PrintT("@@" \o ToJson([kind |-> vKind, hist |-> vHist]))
\* nobody can tell there is a memo
Transparent == (vKind = "parses" /\ vHist # <<>>) => vLast = F[vHist[Len(vHist)]]
Sound == \A i \in 1..Len(vMemo): vMemo[i].val = F[vMemo[i].key] /\ vMemo[i].val.ok
Bounded == Len(vMemo) <= Limit /\ Cardinality({vMemo[i].key : i \in 1..Len(vMemo)}) = Len(vMemo)
\* the latest good parses are the ones remembered
Recent == vKind = "parses" => \A i \in 1..Len(vHist): LET later == {vHist[j] : j \in {j \in i..Len(vHist) : F[vHist[j]].ok}} IN
             (F[vHist[i]].ok /\ Cardinality(later) <= Limit) => Knows(vMemo, vHist[i])
\* what was checked stays checked
Stays == [][\A o \in {1, 2}: vState[o] = "checked" => vState'[o] = "checked"]_<<vKind, vHist, vMemo, vLast, vState>>
==============================================================================
