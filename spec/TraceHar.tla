------------------------------ MODULE TraceHar ------------------------------
(* Judges what the HAR input yields.  A record: [kind, creator, entries, got |-> sequence of exchanges, err |-> "" | "input" | other, want, n] *)
EXTENDS Har, Json
CONSTANT N
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES vCase, vJudged
Init == vCase \in 1..N /\ vJudged = FALSE
\* Header values are octets: what stands for a character that is none is not determined
SameValue(v, u) == Len(v) = Len(u) /\ \A k \in 1..Len(v): v[k] > 255 \/ v[k] = u[k]
SameHeaders(hs, gs) == Len(hs) = Len(gs) /\ \A k \in 1..Len(hs): hs[k].n = gs[k].n /\ SameValue(hs[k].v, gs[k].v)
Diff(w, g, fs, tag) == {tag \o " " \o f : f \in {f \in fs: IF f = "hdrs" THEN ~SameHeaders(w.hdrs, g.hdrs) ELSE w[f] # g[f]}}
BadExchange(w, g) ==
  Diff(w.req, g.req, {"scheme", "method", "target", "ver", "hdrs", "body", "text"}, "request")
  \cup (IF Len(w.resps) # Len(g.resps) THEN {"number of responses"}
        ELSE UNION {Diff(w.resps[k], g.resps[k], {"status", "reason", "ver", "hdrs", "body", "decoded"}
                                                 \cup (IF w.resps[k].text.k = "?" THEN {} ELSE {"text"}), "response") : k \in 1..Len(w.resps)})
\* Every exchange up to the end or, for a broken file, up to where it is broken
BadFile(r) ==
  (IF r.err \notin {"", "input"} THEN {"exception"} ELSE {})
  \cup (IF r.want = "ok" /\ r.err = "input" THEN {"input error"} ELSE {})
  \cup (IF r.want = "error" /\ r.err = "" THEN {"no input error"} ELSE {})
  \cup (IF r.want = "ok" /\ r.err = "" /\ Len(r.got) # Len(r.entries) THEN {"number of exchanges"} ELSE {})
  \cup (IF r.kind = "entries"
        THEN UNION {BadExchange(Exchange(r.entries[k], r.creator), r.got[k]) : k \in 1..(IF Len(r.got) < Len(r.entries) THEN Len(r.got) ELSE Len(r.entries))}
        ELSE {})
Next ==
  /\ ~vJudged /\ vJudged' = TRUE /\ UNCHANGED vCase
  /\ PrintT("@@" \o ToJson([i |-> vCase, bad |-> BadFile(Cases[vCase])]))
==============================================================================
