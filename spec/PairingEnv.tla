------------------------------ MODULE PairingEnv ------------------------------
(* All small capture directories.  Files are added one by one; which connections *)
(* they form must not depend on the order.                                        *)
EXTENDS Pairing, Json
CONSTANTS MaxFiles, NumIsTime   \* tcpick numbers connections, tcpflow gives times
VARIABLES vFiles
EndPoints == {<<"a", "s">>, <<"s", "a">>, <<"b", "s">>}
File == {[dir |-> d, src |-> e[1], dst |-> e[2], num |-> IF NumIsTime THEN n ELSE 0, time |-> n, has |-> h] :
            d \in 1..2, e \in EndPoints, n \in 1..2, h \in {"req", "resp", "junk"}}
Init == vFiles = <<>>
Next == Len(vFiles) < MaxFiles /\ \E f \in File: vFiles' = Append(vFiles, f)
\* (two requests or two responses at the same time are the one or the other way around)
Ambiguous == \E j, k \in 1..Len(vFiles): j # k /\ Reverse(vFiles[j], vFiles[k]) /\ vFiles[j].time = vFiles[k].time /\ vFiles[j].has = vFiles[k].has /\ vFiles[j].has # "junk"
Emit == (vFiles # <<>> /\ ~Ambiguous) => PrintT("@@" \o ToJson(vFiles))
Names(p) == {vFiles[p[k]] : k \in 1..Len(p)}
\* Every file is in exactly one connection
Partition == ~Duplicates(vFiles) => \A k \in 1..Len(vFiles): Cardinality({p \in Pairs(vFiles): \E j \in 1..Len(p): p[j] = k}) = 1
\* Connections do not depend on the order of files
Rev == [k \in 1..Len(vFiles) |-> vFiles[Len(vFiles) + 1 - k]]
OrderFree == ~Duplicates(vFiles) => {{vFiles[p[k]] : k \in 1..Len(p)} : p \in Pairs(vFiles)} = {{Rev[p[k]] : k \in 1..Len(p)} : p \in Pairs(Rev)}
\* A request file is never taken for the server's when the other one is not, and vice versa
Sensible == ~Duplicates(vFiles) => \A p \in Pairs(vFiles): LET d == Direction(vFiles, p) IN
    Len(p) = 2 => /\ (d.in # 0 /\ d.out # 0 => ~(vFiles[d.in].has = "resp" /\ vFiles[d.out].has = "req"))
                  /\ ((d.in = 0) = (d.out = 0))
==============================================================================
