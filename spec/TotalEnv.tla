------------------------------ MODULE TotalEnv ------------------------------
(* Every hard text in every place; two of them in related places.             *)
EXTENDS Total, Json
CONSTANTS Part, Parts
\* a share of the pairs of texts
Share == TLCEval({x \in (1..Len(Texts)) \X (1..Len(Texts)): ((x[1] * 7919 + x[2] * 104729) % Parts) = Part})
VARIABLES vKind, vPick, vStage
Init == /\ vStage = "given"
        /\ \/ vKind = "one" /\ vPick \in [p : Headers \cup Parts0, t : 1..Len(Texts), p2 : {""}, t2 : {0}]
           \/ vKind = "long" /\ vPick \in [p : Headers \cup Parts0, t : 1..Len(Long), p2 : {""}, t2 : {0}]
           \/ \E g \in 1..Len(Groups), x \in Share: vKind = "two" /\ vPick \in [p : Groups[g], t : {x[1]}, p2 : Groups[g], t2 : {x[2]}]
\* (the stages themselves, of all formats: see the invariant)
Next == \E e \in Entries, w \in {"accept", "any", "reject"}: vKind = "one" /\ vPick.t = 1 /\ vPick.p = "body" /\ vStage' \in Step(e, w, vStage) /\ UNCHANGED <<vKind, vPick>>
Text1(k, t) == IF t = 0 THEN T(<<>>) ELSE IF k = "long" THEN Long[t] ELSE Texts[t]
Emit == vStage # "given" \/ PrintT("@@" \o ToJson([kind |-> vKind, p |-> vPick.p, t |-> Text1(vKind, vPick.t), p2 |-> vPick.p2, t2 |-> Text1(vKind, vPick.t2)]))
\* whatever is given can go on until it ends, in one of two ways
Goes == \A e \in Entries, w \in {"accept", "any", "reject"}: (vStage \in Ends0) = (Step(e, w, vStage) = {})
==============================================================================
