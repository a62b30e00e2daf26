------------------------------- MODULE MergeEnv -------------------------------
(* All small sets of connections, and all ways to merge each.                   *)
EXTENDS Merge, TLC, Json
CONSTANTS NConns, MaxEvs, MaxTime
VARIABLES vConns, vSt, vOut
Event == [rd : 0..MaxTime, resps : {<<>>}]
EvSeqs == UNION {[1..n -> Event] : n \in 1..MaxEvs}
Conn(hints) == [hint : hints, evs : EvSeqs]
Init == /\ vConns \in [1..NConns -> Conn({0})] \cup [1..NConns -> Conn(1..MaxTime)]
        /\ vSt = Begin(vConns) /\ vOut = <<>>
Next == \E c \in 1..NConns: MayEmit(vConns, vSt, c) /\ vSt' = AfterEmit(vConns, vSt, c)
          /\ vOut' = Append(vOut, <<c, vSt[c].n + 1>>) /\ UNCHANGED vConns
Emit == (vOut = <<>>) => PrintT("@@" \o ToJson(vConns))
\* Nothing is lost or repeated, and each connection keeps its order
Ordered == \A c \in 1..NConns: LET o == SelectSeq(vOut, LAMBDA x: x[1] = c) IN
              o = [k \in 1..vSt[c].n |-> <<c, k>>]
\* The merge never gets stuck
Live == (Active(vConns, vSt) # {}) => \E c \in 1..NConns: MayEmit(vConns, vSt, c)
\* When connections are in order, start no earlier than their hints, and all times are known, so is the merge
InOrder(c) == /\ \A k \in 1..Len(c.evs): c.evs[k].rd # 0 /\ c.evs[k].rd >= c.hint
              /\ \A k \in 1..(Len(c.evs) - 1): c.evs[k].rd <= c.evs[k + 1].rd
T(x) == vConns[x[1]].evs[x[2]].rd
Sorted == (\A c \in 1..NConns: InOrder(vConns[c])) => \A k \in 1..(Len(vOut) - 1): T(vOut[k]) <= T(vOut[k + 1])
\* A connection that was emitted before another one could start was not after it in time
NoJump == \A k \in 1..Len(vOut): LET x == vOut[k] IN
            \A d \in 1..NConns: (d # x[1] /\ (\A j \in 1..k: vOut[j][1] # d) /\ x[2] = 1 /\ T(x) # 0 /\ vConns[d].evs[1].rd # 0 /\ vConns[d].hint <= vConns[d].evs[1].rd)
                                => T(x) <= T(<<d, 1>>)
==============================================================================
