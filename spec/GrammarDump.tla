---------------------------- MODULE GrammarDump ----------------------------
(* Prints the grammars as data, for the generator of sentences. *)
EXTENDS Grammars, Json
VARIABLE vName
Named == [token |-> Token, qstring |-> QString, digits |-> Digits, ows |-> OWS, rws |-> RWS, date |-> HttpDate, weight |-> OptWeight, rank |-> Weight,
          uriref |-> URIReference, urinofrag |-> UriNoFrag, hostport |-> HostPort, product |-> Product, langtag |-> LanguageTag, mtype |-> MType,
          extvalue |-> ExtValue, etag |-> OpaqueTag, t68 |-> Token68, origin |-> OriginForm, authority |-> Authority, comment |-> Env["comment"],
          byterange |-> ByteRange, parameter |-> Parameter, host |-> UriHost, ip6 |-> IPv6, ip4 |-> IPv4]
Comp(g) == g
Init == vName \in Elements \cup DOMAIN Named
Next == UNCHANGED vName
RECURSIVE Ast(_)
Ast(g) == CASE g.t = "c" -> [t |-> "c", s |-> {b \in 0..255 : g.f[b]}]
            [] g.t \in {"s", "a"} -> [t |-> g.t, gs |-> [k \in 1..Len(g.gs) |-> Ast(g.gs[k])]]
            [] g.t = "r" -> [t |-> "r", lo |-> g.lo, hi |-> g.hi, g |-> Ast(g.g)]
            [] g.t = "b" -> [t |-> "b", g |-> Ast(g.g), x |-> g.x]
            [] OTHER -> g
Emit == PrintT("@@" \o ToJson(IF vName \in Elements THEN [k |-> "element", n |-> vName, g |-> Ast(HeaderT[vName])]
                                                     ELSE [k |-> "named", n |-> vName, g |-> Ast(Named[vName])]))
============================================================================
