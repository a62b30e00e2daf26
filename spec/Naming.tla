------------------------------- MODULE Naming -------------------------------
(***************************************************************************)
(* What the words of a notice must name: the variable parts of its title   *)
(* are the offending item it was reported for and the facts of the message *)
(* it is about.  (Property C36.)                                           *)
(*  got: [id, low |-> the variable parts in lower case, raw |-> as they are]*)
(***************************************************************************)
EXTENDS Rules

\* The title begins with the name that tells the offending item apart.
BySubject == TLCEval({1034, 1042, 1052, 1053, 1063, 1064, 1116, 1127, 1130, 1146, 1152, 1153, 1197, 1206, 1209, 1210, 1211, 1220, 1227, 1244,
                      1265, 1269, 1273, 1274, 1276, 1285, 1293})
ByNumber == TLCEval({1163, 1165, 1169, 1183, 1141, 1142})
\* The position of the status code, the request's method, and so on, in the title
StatusAt == TLCEval([id \in {1018, 1019, 1023, 1024, 1052, 1071, 1086, 1087, 1104, 1112, 1113, 1125, 1147, 1167, 1177, 1198, 1199, 1202, 1304} |->
                     IF id = 1052 THEN 2 ELSE 1])
MethodAt == TLCEval([id \in {1021, 1022, 1067, 1072, 1074, 1095, 1114, 1115, 1122, 1124, 1128, 1129, 1130, 1132, 1137, 1171, 1172, 1287, 1292, 1295} |->
                     IF id \in {1130, 1171} THEN 2 ELSE 1])
\* The position of the header's name, for notices about the text of a single header
PlaceAt == TLCEval([id \in {1000, 1013, 1014, 1015, 1017, 1026, 1107, 1108, 1119, 1133, 1148, 1151, 1156, 1158, 1222, 1223, 1225, 1226, 1253, 1254, 1282, 1296, 1297,
                            1299, 1300, 1307, 1308, 1309} |-> IF id \in {1225, 1253, 1254, 1282, 1296} THEN 2 ELSE 1])
Elsewhere == TLCEval({"request target", "request method", "reason phrase", "header name"})

PairAt(l, a, b) == {k \in 1..Len(l): l[k] = <<a, b>>}
FinalsBefore(rs, k) == {j \in 1..(k - 1): ~Informational(rs[j])}
First(s) == CHOOSE x \in s: \A y \in s: x <= y

ThreeDigits(id, n) == IF id \in {1141, 1142} \/ n > 99 THEN ToString(n) ELSE IF n > 9 THEN "0" \o ToString(n) ELSE "00" \o ToString(n)
\* The subject a title speaks of, in the form of Expected(ex); "" if it does not tell.
Spoken(g, kind) ==
    CASE g.id \in BySubject -> ToString(g.low[1])
      \* (warn codes have three digits)
      [] g.id \in ByNumber -> LET ns == {n \in 0..999: ThreeDigits(g.id, n) = g.low[1]} IN IF ns = {} THEN "?" ELSE ToString(CHOOSE n \in ns: TRUE)
      [] g.id = 1207 -> ToString(<<g.low[1], g.low[2]>>)
      [] g.id = 1208 -> ToString(<<g.low[1], g.raw[2]>>)
      [] g.id = 1268 -> ToString(g.raw[1])
      [] g.id = 1238 -> LET ks == PairAt(NoEffect, g.low[1], g.low[2]) IN IF ks = {} THEN "?" ELSE ToString(First(ks))
      [] g.id = 1193 -> LET ks == PairAt(IF kind = "req" THEN ReqContradict ELSE RespContradict, g.low[1], g.low[2]) IN
                        IF ks = {} THEN "?" ELSE ToString(First(ks))
      [] OTHER -> ""

\* Names that must all be named, for notices whose subject has more to it
Offenders(m, id) ==
    CASE id = 1030 -> {m.hdrs[k].n : k \in {j \in 1..Len(m.hdrs): m.hdrs[j].t /\ m.hdrs[j].n \notin Elems(m, "trailer")}}
      [] id = 1171 -> {x.d : x \in {y \in Elems(m, "cache-control"): y.d \in {"max-age", "max-stale", "min-fresh", "no-cache", "no-store", "only-if-cached"}}}
      [] id = 1196 -> {n \in {"authorization", "proxy-authorization"}: RealmLines(m, n, FALSE) # {}}
                      \cup {n \in {"www-authenticate", "proxy-authenticate"}: RealmLines(m, n, TRUE) # {}}
      [] OTHER -> {}

\* What is wrong with what one notice on message m (whose request is r) names
BadNames(ex, w, m, r, g) ==
    LET id == g.id
        K(c, what) == IF c THEN {what} ELSE {} IN
    UNION {
    IF id \in DOMAIN StatusAt THEN K(g.raw[StatusAt[id]] # ToString(m.status), "status code") ELSE {},
    IF id \in DOMAIN MethodAt THEN K(g.raw[MethodAt[id]] # r.method, "method") ELSE {},
    IF id \in DOMAIN PlaceAt THEN K(g.low[PlaceAt[id]] \notin Names(m) \cup Elsewhere, "header") ELSE {},
    IF id = 1000 THEN K(~\E k \in 1..Len(m.hdrs): m.hdrs[k].n = g.low[1] /\ (~m.hdrs[k].ok \/ ToString(m.hdrs[k].v) \in {"<<>>", "\"\""}), "malformed header") ELSE {},
    IF id = 1013 THEN K(Cardinality({k \in 1..Len(m.hdrs): m.hdrs[k].n = g.low[1]}) < 2, "repeated header") ELSE {},
    IF id = 1026 THEN K(~\E k \in 1..Len(m.hdrs): m.hdrs[k].n = g.low[1] /\ m.hdrs[k].t /\ g.low[1] \in HdrBadTrailer, "trailer") ELSE {},
    IF id \in {1035, 1213} THEN K(g.low[1] # Ctype(m).i, "media type") ELSE {},
    IF id = 1214 THEN K(g.low[1] # Ctype(r).i, "media type") ELSE {},
    IF id = 1200 THEN K(g.low[1] \notin Names(r) \cap HdrPrecond, "precondition") ELSE {},
    IF id = 1268 THEN K(g.raw[2] # (CASE g.raw[1] = "invalid_request" -> "400" [] g.raw[1] = "invalid_token" -> "401" [] g.raw[1] = "insufficient_scope" -> "403"
                                      [] OTHER -> "?"), "expected status code") ELSE {},
    IF id = 1276 THEN K(~\E j, k \in 1..Len(List(m, g.low[1])):
                          LET a == List(m, g.low[1])[j]
                              b == List(m, g.low[1])[k] IN
                          j # k /\ Subsumed(<<a, b>>) /\ a.wild # "" /\ a.i = g.low[2] /\ b.i = g.low[3], "values") ELSE {},
    IF id = 1295 THEN K(g.raw[2] # r.up, "proper method") ELSE {},
    IF id = 1304 THEN K(g.raw[2] # ToString(ex.resps[First(FinalsBefore(ex.resps, CHOOSE k \in 1..Len(ex.resps): ToString(k) = w))].status), "final response") ELSE {},
    IF id = 1306 THEN K(g.raw[1] # r.ver, "version") ELSE {},
    IF id \in {1030, 1171, 1196} THEN K(g.low[1] \notin Offenders(m, id), "name") ELSE {}}

\* Everything wrong with the notices of message m
BadNaming(ex, w, m, r, got) ==
    LET exp == {x \in Expected(ex): x[2] = w}
        told == {k \in 1..Len(got): Spoken(got[k], m.kind) # ""}
        spoken == {<<got[k].id, w, Spoken(got[k], m.kind)>> : k \in told}
        ids == {got[k].id : k \in told} IN
    {ToString(x[1]) \o "@" \o w \o " should not name " \o x[3] : x \in spoken \ exp}
    \cup {ToString(x[1]) \o "@" \o w \o " should name " \o x[3] : x \in {y \in exp: y[1] \in ids} \ spoken}
    \cup UNION {{ToString(got[k].id) \o "@" \o w \o " names another " \o b : b \in BadNames(ex, w, m, r, got[k])} : k \in 1..Len(got)}
    \cup UNION {LET named == {got[k].low[1] : k \in {j \in 1..Len(got): got[j].id = id}} IN
                IF named = {} \/ named = Offenders(m, id) THEN {} ELSE {ToString(id) \o "@" \o w \o " does not name everything"} : id \in {1030, 1171, 1196}}
==============================================================================
