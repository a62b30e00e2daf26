-------------------------------- MODULE Api --------------------------------
(* The objects of the Python API.  An exchange is built from given values, in one of   *)
(* several forms that mean the same, and then checked, reported and looked at in any    *)
(* order.  Given message: [kind "req" | "resp", scheme, method, target, ver, status,    *)
(* reason, hdrs, trl, body, remark]; what may be absent is [has, v]; texts are          *)
(* sequences of characters, bodies of octets; fields are sequences of [n, v].           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, KnownNotices

(* ------------------------- what a message holds ------------------------ *)
\* A value given as Unicode stands for octets, by ISO-8859-1; beyond that, for anything.
SameValue(g, h) == Len(g) = Len(h) /\ \A k \in 1..Len(g): h[k] \in 0..255 /\ (g[k] > 255 \/ g[k] = h[k])
SameFields(gs, hs) == Len(gs) = Len(hs) /\ \A k \in 1..Len(gs): gs[k].n = hs[k].n /\ SameValue(gs[k].v, hs[k].v)
Common == {"ver", "body", "remark"}
Own == [req |-> {"scheme", "method", "target"}, resp |-> {"status", "reason"}]
HoldsBad(g, h) ==
  {f \in Common \cup Own[g.kind] : g[f] # h[f]}
  \cup (IF SameFields(g.hdrs, h.hdrs) THEN {} ELSE {"hdrs"}) \cup (IF SameFields(g.trl, h.trl) THEN {} ELSE {"trl"})
Holds(g, h) == HoldsBad(g, h) = {}

(* ------------------------------ severities ----------------------------- *)
Severities == <<"debug", "comment", "error">>
Rank(s) == CHOOSE k \in 1..3: Severities[k] = s
Letter == [D |-> "debug", C |-> "comment", E |-> "error"]
KnownIds == TLCEval({NoticeTable[k][1] : k \in 1..Len(NoticeTable)})
SeverityOf == TLCEval([id \in KnownIds |-> Letter[NoticeTable[CHOOSE k \in 1..Len(NoticeTable): NoticeTable[k][1] = id][2]]])

(* ------------------------------ operations ----------------------------- *)
(* state: [held, notices, checked, outs]; held is what the messages hold, notices what   *)
(* was found in them: everything (Find) by the check; before it, some of that may come   *)
(* up when data is looked at or shown (Early), and what reports contain is open.  After   *)
(* it, a report is a function of what is held and found (Show).                          *)
Ops == {"check", "text", "html", "look"}
Build(m) == [held |-> m, notices |-> {}, checked |-> FALSE, outs |-> <<>>]
Do(s, op, Find(_), Early(_), Show(_, _, _)) ==
  CASE op = "check" -> [s EXCEPT !.notices = Find(s.held), !.checked = TRUE]
    [] ~s.checked -> [s EXCEPT !.notices = @ \cup (Early(op) \cap Find(s.held)), !.outs = Append(@, "open")]
    [] op \in {"text", "html"} -> [s EXCEPT !.outs = Append(@, ToString(<<op, Show(op, s.held, s.notices)>>))]
    [] OTHER -> [s EXCEPT !.outs = Append(@, "none")]
=============================================================================
