------------------------------ MODULE KnownRefs ------------------------------
(* What each notice refers to, frozen from httpolice/notices.xml of the pinned commit by tools/mkrefs.py:
   <<"h", name, 0>>, <<"m", method, 0>>, <<"st", status, 0>>: protocol items named outright;
   <<"p", path, k>>: data of the message or of the finding (the k-th variable part of the title; 0: not in the title). *)
EXTENDS TLC
RefTable == TLCEval(<<
    <<1000, <<<<"p", "place", 1>>>>>>,
    <<1001, <<<<"h", "transfer-encoding", 0>>>>>>,
    <<1002, <<<<"h", "transfer-encoding", 0>>>>>>,
    <<1003, <<<<"h", "transfer-encoding", 0>>, <<"p", "coding", 1>>>>>>,
    <<1004, <<<<"h", "content-length", 0>>, <<"p", "msg.headers.content_length.value", 0>>, <<"p", "error.name", 0>>>>>>,
    <<1005, <<<<"h", "transfer-encoding", 0>>>>>>,
    <<1007, <<<<"p", "offset", 0>>, <<"p", "stream.name", 0>>>>>>,
    <<1008, <<<<"p", "stream.name", 0>>>>>>,
    <<1010, <<<<"p", "offset", 0>>, <<"p", "stream.name", 0>>>>>>,
    <<1011, <<<<"st", "101", 0>>>>>>,
    <<1012, <<<<"p", "msg.status", 0>>, <<"m", "CONNECT", 0>>>>>>,
    <<1013, <<<<"p", "header", 1>>, <<"p", "entries", 0>>>>>>,
    <<1014, <<<<"p", "place", 1>>, <<"p", "num", 0>>>>>>,
    <<1015, <<<<"p", "place", 1>>>>>>,
    <<1017, <<<<"p", "place", 1>>, <<"p", "char", 0>>>>>>,
    <<1018, <<<<"h", "transfer-encoding", 0>>, <<"p", "msg.status", 1>>>>>>,
    <<1019, <<<<"h", "transfer-encoding", 0>>, <<"p", "msg.status", 1>>, <<"m", "CONNECT", 0>>>>>>,
    <<1020, <<<<"h", "transfer-encoding", 0>>, <<"h", "content-length", 0>>>>>>,
    <<1021, <<<<"p", "msg.method", 1>>, <<"h", "content-length", 0>>, <<"h", "transfer-encoding", 0>>, <<"m", "POST", 0>>>>>>,
    <<1022, <<<<"p", "msg.method", 1>>, <<"h", "content-length", 0>>>>>>,
    <<1023, <<<<"h", "content-length", 0>>, <<"p", "msg.status", 1>>>>>>,
    <<1024, <<<<"h", "content-length", 0>>, <<"p", "msg.status", 1>>, <<"m", "CONNECT", 0>>>>>>,
    <<1025, <<<<"h", "content-length", 0>>, <<"h", "transfer-encoding", 0>>>>>>,
    <<1026, <<<<"p", "entry", 1>>>>>>,
    <<1027, <<<<"h", "transfer-encoding", 0>>, <<"p", "coding", 1>>>>>>,
    <<1028, <<<<"h", "te", 0>>>>>>,
    <<1029, <<<<"h", "te", 0>>, <<"h", "connection", 0>>>>>>,
    <<1030, <<<<"p", "header", 1>>, <<"h", "trailer", 0>>>>>>,
    <<1031, <<<<"h", "host", 0>>>>>>,
    <<1032, <<<<"h", "host", 0>>>>>>,
    <<1033, <<<<"st", "400", 0>>, <<"p", "msg.status", 0>>, <<"p", "msg.request.version", 0>>, <<"p", "msg.request.headers.host", 0>>>>>>,
    <<1034, <<<<"h", "connection", 0>>, <<"p", "header", 1>>, <<"h", "cache-control", 0>>>>>>,
    <<1035, <<<<"p", "msg.headers.content_type.value", 1>>, <<"h", "content-type", 0>>>>>>,
    <<1036, <<<<"h", "content-encoding", 0>>, <<"p", "coding", 1>>>>>>,
    <<1037, <<<<"h", "content-encoding", 0>>, <<"p", "coding", 1>>>>>>,
    <<1038, <<<<"h", "content-type", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1039, <<<<"h", "content-type", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1040, <<<<"h", "content-type", 0>>, <<"p", "char", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1041, <<<<"h", "content-type", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1042, <<<<"p", "param", 1>>, <<"h", "content-type", 0>>>>>>,
    <<1045, <<<<"p", "msg.target", 0>>>>>>,
    <<1046, <<<<"h", "via", 0>>>>>>,
    <<1047, <<<<"h", "connection", 0>>>>>>,
    <<1048, <<<<"st", "101", 0>>, <<"h", "upgrade", 0>>>>>>,
    <<1049, <<<<"p", "msg.status", 0>>, <<"p", "msg.headers.upgrade", 0>>, <<"p", "msg.request.headers.upgrade", 0>>>>>>,
    <<1050, <<<<"h", "upgrade", 0>>, <<"h", "connection", 0>>>>>>,
    <<1051, <<<<"st", "101", 0>>, <<"p", "msg.request.version", 0>>>>>>,
    <<1052, <<<<"p", "header", 1>>, <<"p", "msg.status", 2>>>>>>,
    <<1053, <<<<"p", "header", 1>>>>>>,
    <<1054, <<<<"h", "trailer", 0>>, <<"p", "msg.headers.transfer_encoding", 0>>>>>>,
    <<1055, <<<<"h", "content-location", 0>>, <<"p", "msg.status", 0>>, <<"p", "msg.request.method", 0>>>>>>,
    <<1056, <<<<"m", "GET", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1057, <<<<"m", "HEAD", 0>>>>>>,
    <<1058, <<<<"m", "PUT", 0>>, <<"st", "400", 0>>, <<"p", "msg.status", 0>>, <<"p", "msg.request.headers.content_range", 0>>>>>>,
    <<1059, <<<<"m", "DELETE", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1060, <<<<"h", "content-location", 0>>, <<"m", "DELETE", 0>>, <<"p", "msg.status", 0>>>>>>,
    <<1061, <<<<"m", "CONNECT", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1062, <<<<"m", "OPTIONS", 0>>, <<"h", "content-type", 0>>>>>>,
    <<1063, <<<<"p", "header", 1>>>>>>,
    <<1064, <<<<"p", "header", 1>>>>>>,
    <<1066, <<<<"h", "expect", 0>>>>>>,
    <<1067, <<<<"h", "max-forwards", 0>>, <<"p", "msg.method", 1>>, <<"m", "OPTIONS", 0>>, <<"m", "TRACE", 0>>>>>>,
    <<1068, <<<<"h", "referer", 0>>>>>>,
    <<1070, <<<<"h", "user-agent", 0>>>>>>,
    <<1071, <<<<"p", "msg.status", 1>>, <<"p", "msg.request.version", 0>>>>>>,
    <<1072, <<<<"st", "201", 0>>, <<"p", "msg.request.method", 1>>>>>>,
    <<1073, <<<<"h", "location", 0>>, <<"st", "201", 0>>, <<"m", "POST", 0>>>>>>,
    <<1074, <<<<"st", "202", 0>>, <<"p", "msg.request.method", 1>>>>>>,
    <<1076, <<<<"st", "205", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1077, <<<<"st", "300", 0>>, <<"m", "HEAD", 0>>>>>>,
    <<1078, <<<<"st", "301", 0>>, <<"h", "location", 0>>>>>>,
    <<1079, <<<<"st", "302", 0>>, <<"h", "location", 0>>>>>>,
    <<1080, <<<<"st", "303", 0>>, <<"h", "location", 0>>>>>>,
    <<1081, <<<<"st", "303", 0>>, <<"m", "HEAD", 0>>>>>>,
    <<1082, <<<<"st", "305", 0>>>>>>,
    <<1083, <<<<"st", "306", 0>>>>>>,
    <<1084, <<<<"st", "307", 0>>, <<"h", "location", 0>>>>>>,
    <<1085, <<<<"p", "msg.status", 0>>, <<"h", "location", 0>>, <<"p", "msg.request.target", 0>>>>>>,
    <<1086, <<<<"p", "msg.status", 1>>, <<"m", "OPTIONS", 0>>, <<"st", "303", 0>>, <<"p", "msg.request.target", 0>>>>>>,
    <<1087, <<<<"p", "msg.status", 1>>, <<"m", "HEAD", 0>>>>>>,
    <<1088, <<<<"st", "402", 0>>>>>>,
    <<1089, <<<<"st", "405", 0>>, <<"h", "allow", 0>>>>>>,
    <<1090, <<<<"st", "406", 0>>>>>>,
    <<1092, <<<<"st", "406", 0>>>>>>,
    <<1093, <<<<"h", "user-agent", 0>>, <<"p", "library", 0>>>>>>,
    <<1094, <<<<"st", "408", 0>>, <<"h", "connection", 0>>>>>>,
    <<1095, <<<<"st", "409", 0>>, <<"p", "msg.request.method", 1>>>>>>,
    <<1096, <<<<"st", "409", 0>>>>>>,
    <<1097, <<<<"st", "411", 0>>, <<"p", "msg.request.headers.content_length.value", 0>>, <<"p", "msg.request.headers.content_length", 0>>>>>>,
    <<1098, <<<<"st", "413", 0>>>>>>,
    <<1099, <<<<"st", "415", 0>>>>>>,
    <<1100, <<<<"st", "417", 0>>>>>>,
    <<1101, <<<<"st", "426", 0>>, <<"h", "upgrade", 0>>>>>>,
    <<1102, <<<<"st", "426", 0>>, <<"p", "protocol", 0>>, <<"st", "101", 0>>, <<"p", "msg.headers.upgrade", 0>>, <<"p", "msg.request.headers.upgrade", 0>>>>>>,
    <<1103, <<<<"h", "upgrade", 0>>, <<"p", "protocol", 0>>, <<"st", "101", 0>>, <<"p", "msg.request.headers.upgrade", 0>>>>>>,
    <<1104, <<<<"p", "msg.status", 1>>, <<"m", "HEAD", 0>>>>>>,
    <<1105, <<<<"st", "505", 0>>, <<"p", "msg.request.version", 0>>, <<"p", "msg.version", 0>>>>>>,
    <<1106, <<<<"st", "505", 0>>>>>>,
    <<1107, <<<<"p", "place", 1>>>>>>,
    <<1108, <<<<"p", "place", 1>>, <<"p", "date", 0>>, <<"p", "claimed", 0>>, <<"p", "actual", 0>>>>>>,
    <<1109, <<<<"h", "date", 0>>>>>>,
    <<1110, <<<<"h", "date", 0>>, <<"p", "msg.status", 0>>>>>>,
    <<1111, <<<<"st", "201", 0>>, <<"h", "location", 0>>>>>>,
    <<1112, <<<<"h", "location", 0>>, <<"p", "msg.status", 1>>>>>>,
    <<1113, <<<<"h", "retry-after", 0>>, <<"p", "msg.status", 1>>, <<"st", "413", 0>>, <<"st", "429", 0>>, <<"st", "503", 0>>>>>>,
    <<1114, <<<<"st", "405", 0>>, <<"h", "allow", 0>>, <<"p", "msg.request.method", 1>>>>>>,
    <<1115, <<<<"h", "allow", 0>>, <<"p", "msg.request.method", 1>>, <<"p", "msg.status", 0>>, <<"st", "405", 0>>>>>>,
    <<1116, <<<<"h", "accept-encoding", 0>>, <<"p", "coding", 1>>>>>>,
    <<1117, <<<<"st", "406", 0>>, <<"p", "msg.request.headers.accept_language", 0>>>>>>,
    <<1118, <<<<"h", "last-modified", 0>>, <<"h", "date", 0>>>>>>,
    <<1119, <<<<"p", "place", 1>>>>>>,
    <<1120, <<<<"h", "if-match", 0>>>>>>,
    <<1121, <<<<"p", "msg.status", 0>>, <<"p", "msg.request.method", 0>>, <<"h", "etag", 0>>, <<"st", "304", 0>>, <<"p", "msg.request.headers.if_none_match", 0>>>>>>,
    <<1122, <<<<"h", "if-modified-since", 0>>, <<"p", "msg.method", 1>>, <<"m", "GET", 0>>, <<"m", "HEAD", 0>>>>>>,
    <<1123, <<<<"p", "msg.status", 0>>, <<"p", "msg.request.method", 0>>, <<"h", "last-modified", 0>>, <<"st", "304", 0>>, <<"p", "msg.request.headers.if_modified_since", 0>>>>>>,
    <<1124, <<<<"st", "304", 0>>, <<"p", "msg.request.method", 1>>, <<"m", "GET", 0>>, <<"m", "HEAD", 0>>, <<"st", "412", 0>>>>>>,
    <<1125, <<<<"p", "msg.status", 1>>>>>>,
    <<1127, <<<<"st", "304", 0>>, <<"p", "header", 1>>>>>>,
    <<1128, <<<<"p", "msg.request.method", 1>>, <<"st", "412", 0>>, <<"p", "msg.request.headers.if_modified_since", 0>>>>>>,
    <<1129, <<<<"p", "msg.request.method", 1>>, <<"st", "412", 0>>>>>>,
    <<1130, <<<<"p", "header", 1>>, <<"p", "msg.method", 2>>, <<"m", "CONNECT", 0>>, <<"m", "OPTIONS", 0>>, <<"m", "TRACE", 0>>>>>>,
    <<1131, <<<<"m", "HEAD", 0>>, <<"m", "GET", 0>>, <<"st", "304", 0>>, <<"st", "412", 0>>, <<"p", "header", 0>>>>>>,
    <<1132, <<<<"h", "range", 0>>, <<"p", "msg.method", 1>>, <<"m", "GET", 0>>>>>>,
    <<1133, <<<<"p", "place", 1>>>>>>,
    <<1134, <<<<"h", "if-range", 0>>, <<"h", "range", 0>>>>>>,
    <<1135, <<<<"h", "if-range", 0>>>>>>,
    <<1136, <<<<"st", "206", 0>>>>>>,
    <<1137, <<<<"st", "206", 0>>, <<"p", "msg.request.method", 1>>, <<"m", "GET", 0>>, <<"p", "msg.request.headers.range", 0>>>>>>,
    <<1138, <<<<"st", "206", 0>>, <<"h", "content-range", 0>>, <<"h", "content-type", 0>>>>>>,
    <<1139, <<<<"h", "content-type", 0>>>>>>,
    <<1140, <<<<"h", "content-type", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1141, <<<<"p", "part_num", 1>>, <<"p", "msg.displayable_body", 0>>, <<"p", "msg.headers.content_type", 0>>>>>>,
    <<1142, <<<<"p", "part_num", 1>>, <<"st", "200", 0>>, <<"p", "msg.displayable_body", 0>>, <<"p", "msg.headers.content_type", 0>>>>>>,
    <<1143, <<<<"h", "content-range", 0>>, <<"p", "msg.headers.content_type", 0>>>>>>,
    <<1144, <<<<"p", "msg.request.headers.range", 0>>, <<"p", "msg.headers.content_type", 0>>>>>>,
    <<1145, <<<<"st", "206", 0>>, <<"h", "etag", 0>>, <<"st", "200", 0>>, <<"p", "msg.request.headers.if_range", 0>>>>>>,
    <<1146, <<<<"p", "header", 1>>, <<"p", "msg.request.headers.if_range", 0>>>>>>,
    <<1147, <<<<"h", "content-range", 0>>, <<"p", "msg.status", 1>>, <<"st", "206", 0>>, <<"st", "416", 0>>>>>>,
    <<1148, <<<<"p", "place", 1>>>>>>,
    <<1149, <<<<"st", "416", 0>>>>>>,
    <<1150, <<<<"st", "416", 0>>, <<"h", "content-range", 0>>, <<"p", "msg.request.headers.range", 0>>>>>>,
    <<1151, <<<<"p", "place", 1>>>>>>,
    <<1152, <<<<"h", "cache-control", 0>>, <<"p", "directive", 1>>>>>>,
    <<1153, <<<<"h", "cache-control", 0>>, <<"p", "directive", 1>>>>>>,
    <<1154, <<<<"h", "cache-control", 0>>, <<"p", "directive", 1>>>>>>,
    <<1155, <<<<"h", "cache-control", 0>>, <<"p", "directive", 1>>>>>>,
    <<1156, <<<<"p", "entry", 1>>, <<"p", "name", 2>>>>>>,
    <<1157, <<<<"p", "entry", 1>>, <<"p", "name", 2>>>>>>,
    <<1158, <<<<"p", "place", 1>>, <<"p", "name", 2>>, <<"p", "value", 0>>>>>>,
    <<1159, <<<<"h", "cache-control", 0>>>>>>,
    <<1160, <<<<"h", "pragma", 0>>, <<"p", "pragma", 0>>>>>>,
    <<1161, <<<<"h", "cache-control", 0>>, <<"h", "pragma", 0>>>>>>,
    <<1162, <<<<"h", "pragma", 0>>>>>>,
    <<1163, <<<<"p", "code", 1>>, <<"h", "warning", 0>>>>>>,
    <<1164, <<<<"h", "warning", 0>>, <<"h", "date", 0>>, <<"p", "code", 0>>>>>>,
    <<1165, <<<<"h", "warning", 0>>, <<"p", "code", 1>>>>>>,
    <<1166, <<<<"h", "age", 0>>>>>>,
    <<1167, <<<<"p", "msg.status", 1>>>>>>,
    <<1168, <<<<"h", "age", 0>>>>>>,
    <<1169, <<<<"h", "warning", 0>>, <<"p", "code", 1>>>>>>,
    <<1170, <<<<"h", "age", 0>>, <<"p", "msg.headers.age.value", 0>>, <<"p", "msg.request.headers.cache_control.max_age", 0>>, <<"p", "msg.request.headers.cache_control", 0>>>>>>,
    <<1171, <<<<"h", "cache-control", 0>>, <<"p", "directive", 1>>, <<"p", "msg.method", 2>>>>>>,
    <<1172, <<<<"p", "msg.request.method", 1>>>>>>,
    <<1173, <<<<"p", "msg.request.headers.cache_control", 0>>>>>>,
    <<1174, <<<<"p", "msg.request.headers.pragma", 0>>>>>>,
    <<1175, <<<<"h", "cache-control", 0>>>>>>,
    <<1176, <<<<"h", "cache-control", 0>>>>>>,
    <<1177, <<<<"p", "msg.status", 1>>, <<"h", "expires", 0>>>>>>,
    <<1178, <<<<"h", "expires", 0>>>>>>,
    <<1179, <<<<"h", "warning", 0>>>>>>,
    <<1180, <<<<"h", "warning", 0>>, <<"p", "msg.headers.age", 0>>>>>>,
    <<1181, <<<<"h", "expires", 0>>>>>>,
    <<1182, <<<<"p", "msg.headers.cache_control", 0>>>>>>,
    <<1183, <<<<"h", "warning", 0>>, <<"p", "code", 1>>>>>>,
    <<1184, <<<<"h", "age", 0>>, <<"h", "cache-control", 0>>>>>>,
    <<1185, <<<<"h", "age", 0>>, <<"h", "expires", 0>>, <<"h", "date", 0>>>>>>,
    <<1187, <<<<"h", "cache-control", 0>>>>>>,
    <<1189, <<<<"h", "warning", 0>>>>>>,
    <<1190, <<<<"st", "203", 0>>>>>>,
    <<1192, <<<<"h", "cache-control", 0>>>>>>,
    <<1193, <<<<"h", "cache-control", 0>>, <<"p", "directive1", 1>>, <<"p", "directive2", 2>>>>>>,
    <<1194, <<<<"st", "401", 0>>, <<"h", "www-authenticate", 0>>>>>>,
    <<1195, <<<<"st", "407", 0>>, <<"h", "proxy-authenticate", 0>>>>>>,
    <<1196, <<<<"p", "place", 1>>>>>>,
    <<1197, <<<<"p", "header", 1>>>>>>,
    <<1198, <<<<"h", "connection", 0>>, <<"p", "msg.status", 1>>>>>>,
    <<1199, <<<<"h", "connection", 0>>, <<"p", "msg.status", 1>>, <<"m", "CONNECT", 0>>>>>>,
    <<1200, <<<<"st", "428", 0>>, <<"p", "header", 1>>>>>>,
    <<1201, <<<<"st", "428", 0>>>>>>,
    <<1202, <<<<"p", "msg.status", 1>>>>>>,
    <<1203, <<<<"st", "429", 0>>>>>>,
    <<1204, <<<<"st", "511", 0>>>>>>,
    <<1205, <<<<"st", "308", 0>>, <<"h", "location", 0>>>>>>,
    <<1206, <<<<"p", "header", 1>>>>>>,
    <<1207, <<<<"p", "header", 1>>, <<"p", "param", 2>>>>>>,
    <<1208, <<<<"p", "header", 1>>, <<"p", "charset", 2>>>>>>,
    <<1209, <<<<"p", "header", 1>>>>>>,
    <<1210, <<<<"p", "header", 1>>>>>>,
    <<1211, <<<<"p", "header", 1>>>>>>,
    <<1212, <<<<"p", "header", 1>>, <<"p", "char", 2>>>>>>,
    <<1213, <<<<"h", "content-type", 0>>, <<"p", "msg.headers.content_type.value", 1>>, <<"m", "PATCH", 0>>>>>>,
    <<1214, <<<<"p", "msg.request.headers.content_type.value", 1>>, <<"m", "PATCH", 0>>, <<"st", "415", 0>>, <<"p", "msg.request.headers.content_type", 0>>, <<"p", "msg.status", 0>>>>>>,
    <<1215, <<<<"st", "415", 0>>, <<"m", "PATCH", 0>>, <<"h", "accept-patch", 0>>>>>>,
    <<1216, <<<<"h", "accept-patch", 0>>, <<"h", "allow", 0>>, <<"m", "PATCH", 0>>, <<"m", "OPTIONS", 0>>>>>>,
    <<1217, <<<<"h", "accept-patch", 0>>, <<"h", "allow", 0>>>>>>,
    <<1218, <<<<"h", "strict-transport-security", 0>>>>>>,
    <<1219, <<<<"h", "strict-transport-security", 0>>>>>>,
    <<1220, <<<<"p", "directive", 1>>, <<"p", "msg.headers.strict_transport_security", 0>>>>>>,
    <<1221, <<<<"h", "strict-transport-security", 0>>>>>>,
    <<1222, <<<<"p", "place", 1>>, <<"p", "date", 0>>>>>>,
    <<1223, <<<<"p", "place", 1>>, <<"p", "time", 0>>>>>>,
    <<1224, <<<<"p", "place", 1>>>>>>,
    <<1225, <<<<"p", "name", 1>>, <<"p", "place", 2>>>>>>,
    <<1226, <<<<"p", "place", 1>>>>>>,
    <<1227, <<<<"p", "patch_type", 1>>, <<"h", "accept-patch", 0>>, <<"m", "PATCH", 0>>>>>>,
    <<1228, <<<<"h", "upgrade", 0>>>>>>,
    <<1230, <<<<"h", "http2-settings", 0>>, <<"h", "connection", 0>>>>>>,
    <<1231, <<<<"h", "upgrade", 0>>, <<"h", "http2-settings", 0>>>>>>,
    <<1232, <<<<"p", "msg.headers.upgrade", 0>>, <<"p", "msg.request.headers.http2_settings", 0>>>>>>,
    <<1233, <<<<"h", "upgrade", 0>>>>>>,
    <<1234, <<<<"h", "http2-settings", 0>>>>>>,
    <<1235, <<<<"h", "vary", 0>>>>>>,
    <<1236, <<<<"p", "msg.target", 0>>, <<"p", "msg.version", 0>>>>>>,
    <<1238, <<<<"h", "cache-control", 0>>, <<"p", "directive1", 1>>, <<"p", "directive2", 2>>>>>>,
    <<1239, <<<<"m", "HEAD", 0>>, <<"m", "GET", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1240, <<<<"st", "204", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1241, <<<<"h", "date", 0>>, <<"h", "age", 0>>>>>>,
    <<1242, <<<<"st", "451", 0>>>>>>,
    <<1243, <<<<"st", "451", 0>>, <<"h", "link", 0>>>>>>,
    <<1244, <<<<"p", "header", 1>>, <<"p", "msg.version", 0>>>>>>,
    <<1245, <<<<"h", "upgrade", 0>>, <<"p", "msg.version", 0>>>>>>,
    <<1246, <<<<"st", "101", 0>>, <<"p", "msg.version", 0>>>>>>,
    <<1247, <<<<"p", "param", 1>>, <<"h", "content-disposition", 0>>>>>>,
    <<1248, <<<<"h", "content-disposition", 0>>>>>>,
    <<1249, <<<<"h", "content-disposition", 0>>>>>>,
    <<1250, <<<<"h", "content-disposition", 0>>>>>>,
    <<1251, <<<<"h", "content-disposition", 0>>>>>>,
    <<1252, <<<<"h", "content-disposition", 0>>>>>>,
    <<1253, <<<<"p", "charset", 1>>, <<"p", "place", 2>>>>>>,
    <<1254, <<<<"p", "charset", 1>>, <<"p", "place", 2>>>>>>,
    <<1256, <<<<"h", "alt-svc", 0>>, <<"p", "actual", 0>>, <<"p", "correct", 0>>>>>>,
    <<1257, <<<<"h", "alt-svc", 0>>, <<"p", "authority", 0>>>>>>,
    <<1258, <<<<"h", "alt-svc", 0>>, <<"p", "msg.version", 0>>>>>>,
    <<1260, <<<<"st", "421", 0>>, <<"h", "alt-svc", 0>>>>>>,
    <<1261, <<<<"h", "authorization", 0>>>>>>,
    <<1262, <<<<"h", "authorization", 0>>>>>>,
    <<1263, <<<<"h", "www-authenticate", 0>>>>>>,
    <<1264, <<<<"h", "www-authenticate", 0>>>>>>,
    <<1265, <<<<"p", "param", 1>>, <<"h", "www-authenticate", 0>>>>>>,
    <<1266, <<<<"p", "param", 1>>, <<"h", "www-authenticate", 0>>, <<"p", "value", 0>>>>>>,
    <<1267, <<<<"p", "msg.request.headers.authorization", 0>>, <<"p", "msg.status", 0>>, <<"p", "msg.headers.www_authenticate", 0>>>>>>,
    <<1268, <<<<"p", "error_code", 1>>, <<"p", "expected_status", 2>>, <<"p", "msg.status", 0>>, <<"p", "msg.headers.www_authenticate", 0>>>>>>,
    <<1269, <<<<"p", "param", 1>>, <<"h", "www-authenticate", 0>>>>>>,
    <<1270, <<<<"p", "msg.target", 0>>>>>>,
    <<1271, <<<<"p", "where", 0>>>>>>,
    <<1272, <<<<"p", "msg.target", 0>>>>>>,
    <<1273, <<<<"p", "header", 1>>>>>>,
    <<1274, <<<<"p", "header", 1>>, <<"p", "header.value.item", 0>>>>>>,
    <<1275, <<<<"p", "msg.displayable_body", 0>>>>>>,
    <<1276, <<<<"p", "header", 1>>, <<"p", "wildcard", 2>>, <<"p", "value", 3>>>>>>,
    <<1277, <<<<"p", "headers", 0>>>>>>,
    <<1278, <<<<"p", "path", 0>>>>>>,
    <<1279, <<<<"p", "path1", 0>>, <<"p", "path2", 0>>>>>>,
    <<1280, <<<<"p", "header", 0>>>>>>,
    <<1281, <<<<"p", "msg.guessed_charset", 1>>, <<"p", "msg.headers.content_type", 0>>, <<"p", "msg.displayable_body", 0>>>>>>,
    <<1282, <<<<"p", "bad", 1>>, <<"p", "place", 2>>, <<"p", "good", 0>>>>>>,
    <<1283, <<<<"st", "421", 0>>, <<"p", "msg.request.method", 0>>, <<"h", "cache-control", 0>>>>>>,
    <<1284, <<<<"st", "202", 0>>>>>>,
    <<1285, <<<<"p", "name", 1>>, <<"h", "prefer", 0>>>>>>,
    <<1286, <<<<"h", "preference-applied", 0>>, <<"p", "name", 1>>, <<"p", "value", 2>>, <<"h", "prefer", 0>>, <<"p", "msg.request.headers.prefer", 0>>>>>>,
    <<1287, <<<<"p", "msg.method", 1>>, <<"h", "prefer", 0>>, <<"m", "POST", 0>>>>>>,
    <<1288, <<<<"m", "GET", 0>>, <<"h", "prefer", 0>>, <<"h", "accept", 0>>>>>>,
    <<1289, <<<<"h", "prefer", 0>>>>>>,
    <<1290, <<<<"h", "prefer", 0>>>>>>,
    <<1291, <<<<"h", "preference-applied", 0>>, <<"h", "vary", 0>>, <<"h", "prefer", 0>>, <<"p", "msg.request.headers.prefer", 0>>>>>>,
    <<1292, <<<<"p", "msg.method", 1>>>>>>,
    <<1293, <<<<"p", "header", 1>>>>>>,
    <<1294, <<<<"p", "msg.status", 0>>>>>>,
    <<1295, <<<<"p", "msg.method", 1>>, <<"p", "uppercase", 2>>>>>>,
    <<1296, <<<<"p", "param", 1>>, <<"p", "entry", 2>>>>>>,
    <<1297, <<<<"p", "entry", 1>>, <<"p", "n_elements", 0>>>>>>,
    <<1298, <<<<"p", "place", 0>>, <<"p", "size", 0>>, <<"p", "max_size", 0>>>>>>,
    <<1299, <<<<"p", "entry", 1>>>>>>,
    <<1300, <<<<"p", "entry", 1>>>>>>,
    <<1301, <<<<"h", "cache-control", 0>>, <<"h", "expires", 0>>>>>>,
    <<1302, <<<<"h", "cache-control", 0>>>>>>,
    <<1303, <<<<"h", "cache-control", 0>>>>>>,
    <<1304, <<<<"p", "msg.status", 1>>, <<"p", "previous.status", 2>>>>>>,
    <<1305, <<<<"st", "100", 0>>, <<"h", "expect", 0>>, <<"st", "101", 0>>, <<"p", "msg.request.headers.expect", 0>>>>>>,
    <<1306, <<<<"p", "msg.request.version", 1>>, <<"h", "transfer-encoding", 0>>>>>>,
    <<1307, <<<<"p", "place", 1>>>>>>,
    <<1308, <<<<"p", "place", 1>>>>>>,
    <<1309, <<<<"p", "place", 1>>>>>>,
    <<1310, <<<<"h", "accept-post", 0>>, <<"h", "allow", 0>>>>>>>>)
==============================================================================
