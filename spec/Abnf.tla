-------------------------------- MODULE Abnf --------------------------------
(***************************************************************************)
(* Declarative semantics of the context-free grammars that RFCs write in   *)
(* ABNF.  A grammar is a value (an abstract syntax tree); its meaning is   *)
(* Ends(env, g, s, I): the set of positions at which a match of g can end  *)
(* if it starts at any position in I.  Inputs are sequences of octets      *)
(* (0..255); position k means "k octets consumed".                         *)
(* This is a denotational definition (sets of positions), independent of   *)
(* any parsing algorithm such as the Earley recognizer in the code.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

(* ------------------------------ constructors --------------------------- *)
Cls(S)        == [t |-> "c", f |-> [b \in 0..255 |-> b \in S]]
Cat(gs)       == [t |-> "s", gs |-> gs]
Alt(gs)       == [t |-> "a", gs |-> gs]
Rep(lo, hi, g) == [t |-> "r", lo |-> lo, hi |-> hi, g |-> g]   \* hi = -1: unbounded
Many(g)       == Rep(0, -1, g)
Many1(g)      == Rep(1, -1, g)
Opt(g)        == Rep(0, 1, g)
Eps           == TLCEval([t |-> "s", gs |-> <<>>])
But(g, exc)   == [t |-> "b", g |-> g, x |-> exc]      \* matches of g not in exc (case-insensitively)
Ref(n)        == [t |-> "n", n |-> n]                 \* nonterminal, looked up in env

(* -------------------------- strings and octets ------------------------- *)
\* TLC treats strings as sequences for Len and SubSeq; Printable gives their codes.
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == TLCEval(([c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
               31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c)]))
B(str)    == [i \in 1..Len(str) |-> CharCode[SubSeq(str, i, i)]]
Ch(str)   == Cls({B(str)[i] : i \in 1..Len(str)})     \* any of these characters
Lc(b)     == IF b \in 65..90 THEN b + 32 ELSE b
Uc(b)     == IF b \in 97..122 THEN b - 32 ELSE b
Lower(s)  == [i \in 1..Len(s) |-> Lc(s[i])]
Lit(str)  == LET s == B(str) IN                       \* case-insensitive literal (RFC 5234)
             Cat([i \in 1..Len(s) |-> Cls({Lc(s[i]), Uc(s[i])})])
CLit(str) == LET s == B(str) IN Cat([i \in 1..Len(s) |-> Cls({s[i]})])

(* ------------------------------- semantics ----------------------------- *)
RECURSIVE Ends(_, _, _, _), EndsSeq(_, _, _, _, _), EndsStar(_, _, _, _, _), EndsTimes(_, _, _, _, _)

Ends(env, g, s, I) ==
  IF I = {} THEN {} ELSE
  CASE g.t = "c" -> {i + 1 : i \in {i \in I : i < Len(s) /\ g.f[s[i + 1]]}}
    [] g.t = "s" -> EndsSeq(env, g.gs, 1, s, I)
    [] g.t = "a" -> UNION {Ends(env, g.gs[k], s, I) : k \in 1..Len(g.gs)}
    [] g.t = "r" -> LET J == EndsTimes(env, g.g, g.lo, s, I) IN
                    IF g.hi < 0 THEN EndsStar(env, g.g, s, J, J)
                    ELSE EndsTimes(env, Alt(<<Eps, g.g>>), g.hi - g.lo, s, J)
    [] g.t = "b" -> UNION { {j \in Ends(env, g.g, s, {i}) : Lower(SubSeq(s, i + 1, j)) \notin g.x} : i \in I}
    [] g.t = "n" -> Ends(env, env[g.n], s, I)

EndsSeq(env, gs, k, s, I) ==
  IF k > Len(gs) \/ I = {} THEN I ELSE EndsSeq(env, gs, k + 1, s, Ends(env, gs[k], s, I))

EndsTimes(env, g, n, s, I) ==
  IF n = 0 \/ I = {} THEN I ELSE EndsTimes(env, g, n - 1, s, Ends(env, g, s, I))

\* all = everything reached so far, new = frontier
EndsStar(env, g, s, all, new) ==
  LET nxt == Ends(env, g, s, new) \ all IN
  IF nxt = {} THEN all ELSE EndsStar(env, g, s, all \cup nxt, nxt)

NoEnv == [n \in {} |-> 0]
Matches(env, g, s) == Len(s) \in Ends(env, g, s, {0})

(* ----------------------- core rules (RFC 5234, 7230) -------------------- *)
Alpha   == TLCEval(Cls((65..90) \cup (97..122)))
Digit   == TLCEval(Cls(48..57))
HexDig  == TLCEval(Cls((48..57) \cup (65..70) \cup (97..102)))
Vchar   == TLCEval(Cls(33..126))
Wsp     == TLCEval(Cls({32, 9}))
OWS     == TLCEval(Many(Wsp))
RWS     == TLCEval(Many1(Wsp))
TcharSet == TLCEval((48..57) \cup (65..90) \cup (97..122) \cup
            {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126})
Tchar   == TLCEval(Cls(TcharSet))
Token   == TLCEval(Many1(Tchar))
ObsText == TLCEval(128..255)
QdText  == TLCEval(Cls({9, 32, 33} \cup (35..91) \cup (93..126) \cup ObsText))
QPair   == TLCEval(Cat(<<Cls({92}), Cls({9, 32} \cup (33..126) \cup ObsText)>>))
QString == TLCEval(Cat(<<Cls({34}), Many(Alt(<<QdText, QPair>>)), Cls({34})>>))
\* #rule and 1#rule (RFC 7230 section 7, recipient side)
List(e)  == Cat(<<Opt(Cat(<<e, OWS>>)), Many(Cat(<<Cls({44}), OWS, Opt(Cat(<<e, OWS>>))>>))>>)
List1(e) == Cat(<<Many(Cat(<<Cls({44}), OWS>>)), e, Many(Cat(<<OWS, Cls({44}), Opt(Cat(<<OWS, e>>))>>))>>)
=============================================================================
