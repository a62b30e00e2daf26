-------------------------------- MODULE Same --------------------------------
(***************************************************************************)
(* Messages that are the same by RFC 7230 sections 3.2.2, 3.2.3 and 7.     *)
(* The header of a message is a sequence of fields [n |-> name, v |->      *)
(* value] (octets); a rewriting is a step that does not change what it     *)
(* means: fields of different names change places; a list is split into    *)
(* two fields, or two are joined; white space appears around a comma; a    *)
(* field, a cache directive or a preference that nobody knows is added.    *)
(***************************************************************************)
EXTENDS Abnf, Known

LowO(s) == [k \in 1..Len(s) |-> IF s[k] \in 65..90 THEN s[k] + 32 ELSE s[k]]
Named(f, w) == LowO(f.n) = B(w)
\* lists whose elements can be told apart without knowing more of their syntax
ListNames == TLCEval({B(w) : w \in (HdrMulti \cup {"alt-svc", "cache-control", "prefer", "preference-applied"})
                                   \ {"www-authenticate", "proxy-authenticate", "authentication-info", "proxy-authentication-info", "set-cookie", "forwarded"}})
IsList(f) == LowO(f.n) \in ListNames
Blank(c) == c \in {9, 32}
Trim(s) ==
  LET full == {k \in 1..Len(s) : ~Blank(s[k])} IN
  IF full = {} THEN <<>> ELSE SubSeq(s, CHOOSE k \in full: \A j \in full: k <= j, CHOOSE k \in full: \A j \in full: j <= k)
(* Commas between elements: outside quotes, angle brackets and comments.  With a backslash, nobody can tell. *)
RECURSIVE Scan(_, _, _, _)
Scan(s, k, in, acc) ==
  IF k > Len(s) THEN (IF in = 0 THEN acc ELSE {})
  ELSE LET c == s[k] IN
    CASE in = 34 -> Scan(s, k + 1, IF c = 34 THEN 0 ELSE 34, acc)
      [] in = 62 -> Scan(s, k + 1, IF c = 62 THEN 0 ELSE 62, acc)
      [] in > 100 -> Scan(s, k + 1, IF c = 40 THEN in + 1 ELSE IF c = 41 THEN (IF in = 101 THEN 0 ELSE in - 1) ELSE in, acc)
      [] c = 34 -> Scan(s, k + 1, 34, acc)
      [] c = 60 -> Scan(s, k + 1, 62, acc)
      [] c = 40 -> Scan(s, k + 1, 101, acc)
      [] c = 44 -> Scan(s, k + 1, 0, acc \cup {k})
      [] OTHER -> Scan(s, k + 1, 0, acc)
Commas(s) == IF \E k \in 1..Len(s): s[k] = 92 THEN {} ELSE Scan(s, 1, 0, {})
Telling(s) == ~\E k \in 1..Len(s): s[k] = 92
Elements(s) ==
  LET cs == Commas(s)
      n == Cardinality(cs)
      at[k \in 0..(n + 1)] == IF k = 0 THEN 0 ELSE IF k = n + 1 THEN Len(s) + 1 ELSE CHOOSE c \in cs: Cardinality({d \in cs: d <= c}) = k
  IN SelectSeq([k \in 1..(n + 1) |-> Trim(SubSeq(s, at[k - 1] + 1, at[k] - 1))], LAMBDA e: e # <<>>)
\* a value that excludes all others, or that there is nothing in
Special(s) == LowO(Trim(s)) \in {B("*"), B("none"), B("clear"), <<>>}
Unheard == B("zq-unlisted")
\* lists of what a recipient ignores when it does not know it (RFC 7234 section 5.2.3, RFC 7240 section 2)
Extensible(f) == LowO(f.n) \in {B("cache-control"), B("prefer")}

(* ------------------------------ rewriting ------------------------------ *)
(* A step: [op, k, at, ws]                                                 *)
InsertAt(q, k, x) == SubSeq(q, 1, k - 1) \o <<x>> \o SubSeq(q, k, Len(q))
Allowed(h, s) ==
  CASE s.op = "swap" -> s.k \in 1..(Len(h) - 1) /\ LowO(h[s.k].n) # LowO(h[s.k + 1].n)
                        /\ (s.k = 1 => ~Named(h[1], "host") /\ ~Named(h[2], "host"))
    [] s.op = "add" -> s.k \in 1..(Len(h) + 1) /\ (s.k = 1 => h = <<>> \/ ~Named(h[1], "host"))
    [] s.op = "split" -> s.k \in 1..Len(h) /\ IsList(h[s.k]) /\ s.at \in Commas(h[s.k].v)
                         /\ LET l == SubSeq(h[s.k].v, 1, s.at - 1)  r == SubSeq(h[s.k].v, s.at + 1, Len(h[s.k].v)) IN
                            Elements(l) # <<>> /\ Elements(r) # <<>> /\ ~Special(l) /\ ~Special(r)
    [] s.op = "join" -> s.k \in 1..(Len(h) - 1) /\ IsList(h[s.k]) /\ LowO(h[s.k].n) = LowO(h[s.k + 1].n)
                        /\ \A j \in {s.k, s.k + 1}: ~Special(h[j].v) /\ Telling(h[j].v) /\ Elements(h[j].v) # <<>> /\ Commas(h[j].v \o <<44>>) # {}
    [] s.op = "dilute" -> s.k \in 1..Len(h) /\ Extensible(h[s.k]) /\ Telling(h[s.k].v) /\ ~Special(h[s.k].v) /\ Elements(h[s.k].v) # <<>>
                          /\ (Named(h[s.k], "prefer") => ~\E j \in 1..Len(h): Named(h[j], "prefer") /\ \E i \in 1..Len(Elements(h[j].v)): Elements(h[j].v)[i] = Unheard)   \* a preference is stated once
    [] OTHER -> s.op = "pad" /\ s.k \in 1..Len(h) /\ IsList(h[s.k]) /\ s.at \in 2..Len(h[s.k].v) /\ (s.at \in Commas(h[s.k].v) \/ s.at - 1 \in Commas(h[s.k].v)) /\ Blank(s.ws)
Apply(h, s) ==
  CASE s.op = "swap" -> [h EXCEPT ![s.k] = h[s.k + 1], ![s.k + 1] = h[s.k]]
    [] s.op = "add" -> InsertAt(h, s.k, [n |-> Unheard, v |-> s.v])
    [] s.op = "split" -> LET f == h[s.k] IN
         SubSeq(h, 1, s.k - 1) \o <<[f EXCEPT !.v = Trim(SubSeq(f.v, 1, s.at - 1))], [f EXCEPT !.v = Trim(SubSeq(f.v, s.at + 1, Len(f.v)))]>> \o SubSeq(h, s.k + 1, Len(h))
    [] s.op = "join" -> SubSeq(h, 1, s.k - 1) \o <<[h[s.k] EXCEPT !.v = @ \o <<44, 32>> \o h[s.k + 1].v]>> \o SubSeq(h, s.k + 2, Len(h))
    [] s.op = "dilute" -> [h EXCEPT ![s.k].v = Unheard \o <<44, 32>> \o @]
    [] s.op = "pad" -> [h EXCEPT ![s.k].v = InsertAt(@, s.at, s.ws)]
RECURSIVE After(_, _)
After(h, ss) == IF ss = <<>> THEN [ok |-> TRUE, h |-> h]
                ELSE IF ~Allowed(h, Head(ss)) THEN [ok |-> FALSE, h |-> h] ELSE After(Apply(h, Head(ss)), Tail(ss))

(* -------------------------------- meaning ------------------------------ *)
RECURSIVE All(_, _, _)
All(h, n, k) == IF k > Len(h) THEN <<>>
                ELSE (IF LowO(h[k].n) # n THEN <<>> ELSE IF IsList(h[k]) /\ Telling(h[k].v) THEN SelectSeq(Elements(h[k].v), LAMBDA e: ~Extensible(h[k]) \/ e # Unheard) ELSE <<h[k].v>>) \o All(h, n, k + 1)
Names(h) == {LowO(h[k].n) : k \in 1..Len(h)} \ {Unheard}
Meaning(h) == [n \in Names(h) |-> All(h, n, 1)]
HostFirst(h) == h # <<>> /\ Named(h[1], "host")
=============================================================================
