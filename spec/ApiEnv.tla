------------------------------ MODULE ApiEnv ------------------------------
(* Every short sequence of operations on two exchanges that were given the same in two  *)
(* forms; every form.                                                                   *)
EXTENDS Api, Json
CONSTANT MaxLen
VARIABLES vForm, vEarly, vOps, vOne, vTwo
(* values: byte strings, Unicode or some of each; fields: a list or a tuple of plain pairs *)
(* or of entries of another message; no trailer: absent or empty; status: a number or a    *)
(* member of http.HTTPStatus; the exchanges of a report: a list or an iterator             *)
Forms == [vals : {"bytes", "text", "mixed"}, list : {"list", "tuple"}, pair : {"plain", "entry"}, trl : {"none", "empty"}, status : {"number", "enum"}, xs : {"list", "iter"}]
Plain == [vals |-> "bytes", list |-> "list", pair |-> "plain", trl |-> "none", status |-> "number", xs |-> "list"]
\* What a message holds does not depend on the form
Given == <<7, 8>>
Held(f) == Given
Find(h) == {1, 2}
Show(op, h, n) == <<op, h, n>>
Init == vForm \in Forms /\ vEarly \in [Ops -> SUBSET {1, 2}] /\ (vForm # Plain => vEarly = [o \in Ops |-> {1}])
        /\ vOps = <<>> /\ vOne = Build(Held(Plain)) /\ vTwo = Build(Held(vForm))
Next == /\ Len(vOps) < MaxLen
        /\ \E op \in Ops: /\ vOps' = Append(vOps, op)
                          /\ vOne' = Do(vOne, op, Find, LAMBDA o: vEarly[o], Show)
                          /\ vTwo' = Do(vTwo, op, Find, LAMBDA o: vEarly[o], Show)
        /\ UNCHANGED <<vForm, vEarly>>
Emit == /\ (vOps = <<>> /\ vEarly = [o \in Ops |-> {1}]) => PrintT("@@" \o ToJson([form |-> vForm]))
        /\ (vForm = Plain /\ vEarly = [o \in Ops |-> {}]) => PrintT("@@" \o ToJson([ops |-> vOps]))
Alike == vOne = vTwo
\* Nothing that the check does not find; all of that once it has been done
Quiet == vOne.notices \subseteq Find(vOne.held) /\ (vOne.checked => vOne.notices = Find(vOne.held)) /\ (vOps = <<>> => vOne.notices = {})
Stays == [][vOne'.held = vOne.held /\ vOne.notices \subseteq vOne'.notices /\ (vOne.checked => vOne'.checked)]_<<vForm, vEarly, vOps, vOne, vTwo>>
\* Two reports of one kind after the check are the same
Repeats == \A j, k \in 1..Len(vOps):
  (j < k /\ vOps[j] = vOps[k] /\ vOps[j] \in {"text", "html"} /\ \E l \in 1..j: vOps[l] = "check")
  => LET At(n) == vOne.outs[Cardinality({l \in 1..n: vOps[l] # "check"})] IN At(j) = At(k)
=============================================================================
