------------------------------- MODULE BodyEnv -------------------------------
(* Every small stack of codings under every small Content-Encoding; every short *)
(* JSON text, XML document and multipart body over small alphabets.             *)
EXTENDS Body, Json
CONSTANTS MaxCodings, MaxLayers, MaxJson, MaxXml, MaxLines
VARIABLES vKind, vSeq, vOther, vRun
Names == {"gzip", "deflate", "br", "zz", "?"}
Layer == [c : {"gzip", "deflate", "br"}, ok : BOOLEAN]
JPieces == {"{", "}", "[", "]", ",", ":", "Q", "1", "-", "0", ".", "e", "t", " ", "dq", "bs", "n"}
XPieces == {"decl", "com", "pi", "ws", "text", "oa", "ob", "ca", "cb", "ea", "dt", "dte", "amp", "ent", "cdata", "lt", "bare", "bad"}
MPieces == {"sep", "sepws", "end", "text", "sepx", "dash", "nl", "spsep"}
Alphabet == CASE vKind = "coding" -> Names [] vKind = "json" -> JPieces [] vKind = "xml" -> XPieces [] OTHER -> MPieces
MaxOf == CASE vKind = "coding" -> MaxCodings [] vKind = "json" -> MaxJson [] vKind = "xml" -> MaxXml [] OTHER -> MaxLines
AsCase == [req |-> TRUE, st |-> 0, meth |-> "", av |-> "bytes", layers |-> vOther,
           ce |-> [k \in 1..Len(vSeq) |-> [ok |-> vSeq[k] # "?", cs |-> <<B(vSeq[k])>>]],
           stages |-> [k \in 1..(Len(vOther) + 1) |-> <<k>>], xml |-> <<>>,
           ct |-> [has |-> FALSE, ok |-> FALSE, mt |-> <<>>, ps |-> <<>>]]
None == [k |-> "-", layers |-> <<>>, rest |-> <<>>, ids |-> <<>>]
Init == vKind \in {"coding", "json", "xml", "multi"} /\ vSeq = <<>> /\ vOther = <<>> /\ vRun = None
Grow == vRun = None /\ vOther = <<>> /\ Len(vSeq) < MaxOf /\ \E a \in Alphabet: vSeq' = Append(vSeq, a) /\ UNCHANGED <<vKind, vOther, vRun>>
Wrap == vRun = None /\ vKind = "coding" /\ Len(vOther) < MaxLayers /\ \E l \in Layer: vOther' = Append(vOther, l) /\ UNCHANGED <<vKind, vSeq, vRun>>
Begin == vRun = None /\ vKind = "coding" /\ vRun' = Start(AsCase) /\ UNCHANGED <<vKind, vSeq, vOther>>
Step == vRun # None /\ ~Done(AsCase, vRun) /\ vRun' = Peel(AsCase, vRun) /\ UNCHANGED <<vKind, vSeq, vOther>>
Next == Grow \/ Wrap \/ Begin \/ Step
Emit == (vRun = None) => PrintT("@@" \o ToJson([kind |-> vKind, seq |-> vSeq, layers |-> vOther]))
\* At most one notice, and only together with unavailability; a decoded body has lost as many layers as there are codings
Once == vRun # None => /\ Len(vRun.ids) <= 1
                       /\ (vRun.ids # <<>> => vRun.k = "unav")
                       /\ (vRun.k = "ok" => Len(vOther) - Len(vRun.layers) = Len(vSeq) - Len(vRun.rest))
                       /\ (vRun.k = "ok" => \A k \in (Len(vRun.layers) + 1)..Len(vOther): vOther[k].ok)
\* What was put on in this order comes off: the body under exactly its codings decodes to the leaf
Inverse == (vRun # None /\ Done(AsCase, vRun) /\ Len(vSeq) = Len(vOther)
            /\ \A k \in 1..Len(vSeq): vSeq[k] = vOther[k].c /\ vOther[k].ok) => vRun.k = "ok" /\ vRun.layers = <<>>
==============================================================================
