-------------------------------- MODULE Pairing --------------------------------
(***************************************************************************)
(* From capture files to connections.  (Property C15.)                     *)
(* A file is [dir, src, dst, num, time, has]: in which directory it is,    *)
(* the endpoints and number of its connection (0 for tcpflow), its time    *)
(* (tcpflow; tcpick: the number), and what it has: "req" (starts with a    *)
(* request line), "resp" (with a status line) or "junk".                   *)
(***************************************************************************)
EXTENDS Abnf, FiniteSets

\* What a file has, by its first line (without the line end)
Version1(s, k) == Len(s) >= k + 7 /\ SubSeq(s, k, k + 6) = B("HTTP/1.") /\ s[k + 7] \in 48..57
StatusLine(s) == Version1(s, 1) /\ Len(s) >= 13 /\ s[9] = 32 /\ (\A k \in 10..12: s[k] \in 48..57) /\ s[13] = 32
Spaces(s) == {k \in 1..Len(s): s[k] = 32}
RequestLine(s) == /\ Cardinality(Spaces(s)) = 2
                  /\ LET a == CHOOSE k \in Spaces(s): \A j \in Spaces(s): k <= j
                         b == CHOOSE k \in Spaces(s): \A j \in Spaces(s): k >= j IN
                     a > 1 /\ b > a + 1 /\ Len(s) = b + 8 /\ Version1(s, b + 1)
ClassOf(s) == IF StatusLine(s) THEN "resp" ELSE IF RequestLine(s) THEN "req" ELSE "junk"

Reverse(f, g) == f.dir = g.dir /\ f.src = g.dst /\ f.dst = g.src /\ f.num = g.num
\* files: a set of indices into fs; tcpflow does not allow two files with the same endpoints in one directory
Duplicates(fs) == \E j, k \in 1..Len(fs): j # k /\ fs[j].dir = fs[k].dir /\ fs[j].src = fs[k].src /\ fs[j].dst = fs[k].dst /\ fs[j].num = fs[k].num
Partner(fs, k) == {j \in 1..Len(fs): j # k /\ Reverse(fs[j], fs[k])}
\* One connection: its files, the earlier one first
Pair(fs, k) == IF Partner(fs, k) = {} THEN <<k>>
               ELSE LET j == CHOOSE x \in Partner(fs, k): TRUE IN IF fs[j].time < fs[k].time THEN <<j, k>> ELSE <<k, j>>
Pairs(fs) == {p \in {Pair(fs, k) : k \in 1..Len(fs)} : Len(p) = 1 \/ fs[p[1]].time < fs[p[2]].time \/ p[1] < p[2]}
\* Which file is from the client, which from the server (0: none); by content, responses first
Other(p, k) == IF Len(p) = 1 THEN 0 ELSE p[3 - k]
Has(fs, p, what) == {k \in 1..Len(p): fs[p[k]].has = what}
Least(S) == CHOOSE x \in S: \A y \in S: x <= y
Direction(fs, p) ==
    IF Has(fs, p, "resp") # {} THEN LET k == Least(Has(fs, p, "resp")) IN [in |-> Other(p, k), out |-> p[k]]
    ELSE IF Has(fs, p, "req") # {} THEN LET k == Least(Has(fs, p, "req")) IN [in |-> p[k], out |-> Other(p, k)]
    ELSE [in |-> 0, out |-> 0]
\* Standalone notices about the connection itself
Notices(fs, p) == (IF Len(p) = 1 THEN <<1278>> ELSE <<>>) \o (IF Direction(fs, p).in = 0 /\ Direction(fs, p).out = 0 THEN <<1279>> ELSE <<>>)
==============================================================================
