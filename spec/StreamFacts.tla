----------------------------- MODULE StreamFacts -----------------------------
(***************************************************************************)
(* The facts stated about bodies that are too long, cut off, or not of      *)
(* their type: sizes and octets.  Numbers are decimal digits (octets), as   *)
(* they may be of any size.  (Property C40.)                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

MaxBody == 1073741824
Digits0(n) == LET RECURSIVE D(_)
                  D(x) == IF x < 10 THEN <<48 + x>> ELSE Append(D(x \div 10), 48 + (x % 10)) IN D(n)
RECURSIVE Unpad(_)
Unpad(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Unpad(Tail(s)) ELSE s
Over(a, b) == \/ Len(a) > Len(b)
              \/ /\ Len(a) = Len(b)
                 /\ \E k \in 1..Len(a): a[k] > b[k] /\ \A j \in 1..(k - 1): a[j] = b[j]
RECURSIVE Sum(_)
Sum(l) == IF l = <<>> THEN 0 ELSE Head(l) + Sum(Tail(l))

\* A message announcing a body of so many octets (decimal digits), of which so many are there
OfLength(digits, have) ==
    LET d == Unpad(digits) IN
    IF Over(d, Digits0(MaxBody)) THEN <<1298, <<d, Digits0(MaxBody)>>>>
    ELSE IF Over(d, Digits0(have)) THEN <<1004, <<d>>>> ELSE <<0, <<>>>>
\* A chunked message with chunks of these sizes, the last of which is only announced; the sum is what would have to be read
RECURSIVE OfChunks(_, _)
OfChunks(sizes, sum) ==
    IF sizes = <<>> THEN <<0, <<>>>>
    ELSE IF Head(sizes) > MaxBody - sum THEN <<1298, <<Digits0(Head(sizes) + sum), Digits0(MaxBody)>>>>
    ELSE IF Len(sizes) = 1 THEN <<1005, <<>>>> ELSE OfChunks(Tail(sizes), sum + Head(sizes))

\* Octets of URL-encoded data; on the open ones the standards differ
FormGood == TLCEval((48..57) \cup (65..90) \cup (97..122) \cup {37, 38, 42, 43, 45, 46, 61, 95})
FormOpen == TLCEval((58..63) \ {61})
FirstBad(s, good) == LET b == {k \in 1..Len(s): s[k] \notin good} IN IF b = {} THEN 0 ELSE CHOOSE k \in b: \A j \in b: k <= j
\* The octets that may be called bad
BadOctets(s) == LET p == FirstBad(s, FormGood \cup FormOpen) IN IF p = 0 THEN {} ELSE {s[p]} \cup {s[k] : k \in {j \in 1..p: s[j] \in FormOpen}}
==============================================================================
