------------------------------ MODULE Numeric -------------------------------
(***************************************************************************)
(* Fixed point arithmetic on TLC's 32 bit integers.  One is S = 10^7.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

S == 10000000

Digits7(a) ==    \* the decimal digits of 0 <= a < 10^7, most significant first
  << (a \div 1000000) % 10, (a \div 100000) % 10, (a \div 10000) % 10, (a \div 1000) % 10,
     (a \div 100) % 10, (a \div 10) % 10, a % 10 >>

(* floor(a * S / b) for 0 <= a < 2 * 10^8, 0 < b < 2 * 10^8, a / b < 200     *)
FixDiv(a, b) ==
  LET step(acc, i) == LET t == (acc[2] * 10) IN <<acc[1] * 10 + t \div b, t % b>>
      r == FoldLeft(step, <<a \div b, a % b>>, <<1, 2, 3, 4, 5, 6, 7>>)
  IN r[1]

(* floor(a * b / S) up to one unit, for 0 <= a <= S and 0 <= b < 2 * 10^8    *)
MulFix(a, b) ==
  IF a >= S THEN b
  ELSE LET d == Digits7(a)
           step(acc, i) == (acc + d[i] * b) \div 10
       IN FoldLeft(step, 0, <<7, 6, 5, 4, 3, 2, 1>>)

(* <<q, r>> with q + r/c = a * b / c exactly, for 0 <= a < 10 S, 0 <= b <= c < 10^8 *)
MulDiv(a, b, c) ==
  LET d == <<(a \div S) % 10>> \o Digits7(a)
      step(acc, i) == LET t == acc[2] * 10 + d[i] * b IN <<acc[1] * 10 + t \div c, t % c>>
  IN FoldLeft(step, <<0, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8>>)

(* 2^r - 1 for the fixed point number 0 <= r <= S                            *)
Exp2m1(r) ==
  IF r = 0 THEN 0 ELSE IF r = S THEN S
  ELSE LET x == MulFix(r, 6931472)
           step(acc, k) == LET t == MulFix(acc[1], x) \div k IN <<t, acc[2] + t>>
       IN FoldLeft(step, <<x, x>>, <<2, 3, 4, 5, 6, 7, 8, 9, 10>>)[2]

(* Discount of rank i: 1 / log2(i + 1).                                      *)
Disc == <<
  10000000, 6309298, 5000000, 4306766, 3868528, 3562072, 3333333, 3154649, 3010300, 2890648,
  2789429, 2702382, 2626495, 2559580, 2500000, 2446505, 2398125, 2354089, 2313782, 2276702,
  2242438, 2210647, 2181043, 2153383, 2127461, 2103099, 2080146, 2058468, 2037950, 2018491,
  2000000, 1982399, 1965616, 1949590, 1934264, 1919587, 1905514, 1892004, 1879018, 1866524,
  1854490, 1842888, 1831693, 1820879, 1810426, 1800313, 1790522, 1781036, 1771838, 1762914,
  1754251, 1745834, 1737653, 1729697, 1721954, 1714416, 1707073, 1699916, 1692938, 1686131,
  1679488, 1673002, 1666667, 1660476, 1654426, 1648509, 1642720, 1637057, 1631512, 1626083,
  1620765, 1615555, 1610448, 1605441, 1600531, 1595714, 1590988, 1586350, 1581796, 1577324,
  1572932, 1568618, 1564378, 1560211, 1556114, 1552086, 1548124, 1544227, 1540392, 1536619,
  1532905, 1529249, 1525649, 1522103, 1518612, 1515172, 1511782, 1508442, 1505150, 1501905,
  1498705, 1495551, 1492439, 1489371, 1486343, 1483357, 1480410, 1477501, 1474631, 1471797,
  1468999, 1466237, 1463510, 1460816, 1458155, 1455527, 1452930, 1450365, 1447830, 1445324,
  1442848, 1440400, 1437981, 1435589, 1433223, 1430884, 1428571, 1426284, 1424021, 1421783,
  1419569, 1417378, 1415210, 1413065, 1410942, 1408841, 1406762, 1404703, 1402666, 1400648,
  1398651, 1396673, 1394715, 1392775, 1390855, 1388952, 1387068, 1385201, 1383352, 1381520,
  1379705, 1377906, 1376124, 1374358, 1372608, 1370873, 1369154, 1367450, 1365760, 1364086,
  1362426, 1360780, 1359148, 1357530, 1355925, 1354334, 1352756, 1351191, 1349639, 1348099,
  1346572, 1345057, 1343554, 1342064, 1340585, 1339117, 1337661, 1336217, 1334783, 1333361,
  1331949, 1330548, 1329158, 1327778, 1326408, 1325048, 1323699, 1322359, 1321029, 1319709,
  1318398, 1317097, 1315805, 1314522, 1313248, 1311983, 1310727, 1309479, 1308240, 1307010,
  1305788, 1304574, 1303369, 1302171, 1300982, 1299801, 1298627, 1297461, 1296303, 1295152,
  1294009, 1292873, 1291745, 1290624, 1289509, 1288402, 1287302, 1286209, 1285122, 1284043,
  1282970, 1281903, 1280844, 1279790, 1278743, 1277702, 1276668, 1275640, 1274618, 1273602,
  1272592, 1271587, 1270589, 1269597, 1268610, 1267629, 1266654, 1265684, 1264720, 1263761,
  1262808, 1261860, 1260917, 1259979, 1259047, 1258120, 1257198, 1256281, 1255369, 1254462,
  1253560, 1252663, 1251771, 1250883, 1250000, 1249122, 1248248, 1247379, 1246515, 1245655,
  1244799, 1243948, 1243102, 1242259, 1241421, 1240588, 1239758, 1238933, 1238112, 1237295,
  1236482, 1235673, 1234868, 1234067, 1233270, 1232477, 1231688, 1230902, 1230121, 1229343,
  1228569, 1227799, 1227032, 1226269, 1225510, 1224754, 1224001, 1223253, 1222507, 1221766,
  1221027, 1220292, 1219561, 1218833, 1218108, 1217386, 1216668, 1215953, 1215241, 1214533,
  1213827, 1213125, 1212426, 1211730, 1211037, 1210347, 1209660, 1208976, 1208295, 1207617,
  1206942, 1206270, 1205601, 1204934, 1204271, 1203610, 1202952, 1202297, 1201645, 1200995,
  1200348, 1199704, 1199062, 1198423, 1197787, 1197154, 1196523, 1195894, 1195268, 1194645,
  1194024, 1193406, 1192790, 1192177, 1191566, 1190958, 1190352, 1189748, 1189147, 1188548,
  1187951, 1187357, 1186765, 1186176, 1185589, 1185004, 1184421, 1183841, 1183262, 1182686,
  1182113, 1181541, 1180971, 1180404, 1179839, 1179276, 1178715, 1178156, 1177599, 1177045,
  1176492, 1175941, 1175393, 1174846, 1174302, 1173759, 1173218, 1172680, 1172143, 1171608,
  1171076, 1170545, 1170016, 1169488, 1168963, 1168440, 1167918, 1167399, 1166881, 1166365,
  1165851, 1165338, 1164827, 1164319, 1163811, 1163306, 1162802, 1162301, 1161800, 1161302,
  1160805, 1160310, 1159817, 1159325, 1158835, 1158347, 1157860, 1157375, 1156891, 1156409,
  1155929, 1155450, 1154973, 1154497, 1154023, 1153551, 1153080, 1152611, 1152143, 1151676,
  1151212, 1150748, 1150286, 1149826, 1149367, 1148910, 1148454, 1147999, 1147546, 1147095,
  1146644, 1146196, 1145748, 1145302, 1144858, 1144415, 1143973, 1143532, 1143093, 1142656,
  1142219, 1141784, 1141350, 1140918, 1140487, 1140057, 1139629, 1139202, 1138776, 1138351,
  1137928, 1137506, 1137085, 1136666, 1136247, 1135830, 1135415, 1135000, 1134587, 1134175,
  1133764, 1133354, 1132946, 1132538, 1132132, 1131727, 1131324, 1130921, 1130520, 1130119,
  1129720, 1129322, 1128925, 1128530, 1128135, 1127742, 1127349, 1126958, 1126568, 1126179,
  1125791, 1125404, 1125018, 1124634, 1124250, 1123868, 1123486, 1123106, 1122726, 1122348,
  1121971, 1121594, 1121219, 1120845, 1120472, 1120100, 1119728, 1119358, 1118989, 1118621,
  1118254, 1117888, 1117522, 1117158, 1116795, 1116433, 1116071, 1115711, 1115351, 1114993,
  1114635, 1114279, 1113923, 1113568, 1113215, 1112862, 1112510, 1112159, 1111809, 1111459,
  1111111, 1110764, 1110417, 1110072, 1109727, 1109383, 1109040, 1108698, 1108356, 1108016,
  1107677, 1107338, 1107000, 1106663, 1106327, 1105992, 1105657, 1105324, 1104991, 1104659,
  1104328, 1103997, 1103668, 1103339, 1103011, 1102684, 1102358, 1102033, 1101708, 1101384,
  1101061, 1100739, 1100417, 1100096, 1099776, 1099457, 1099139, 1098821, 1098504, 1098188,
  1097873, 1097558, 1097244, 1096931, 1096619, 1096307, 1095996, 1095686, 1095376, 1095068,
  1094760, 1094452, 1094146, 1093840, 1093535, 1093230, 1092926, 1092623, 1092321, 1092019,
  1091718, 1091418, 1091119, 1090820, 1090521, 1090224, 1089927, 1089631, 1089335, 1089041,
  1088746, 1088453, 1088160, 1087868, 1087576, 1087285, 1086995, 1086706, 1086417, 1086128,
  1085841, 1085554, 1085267, 1084982, 1084697, 1084412, 1084128, 1083845, 1083562, 1083280,
  1082999, 1082718, 1082438, 1082158, 1081879, 1081601, 1081323, 1081046, 1080770, 1080494,
  1080218, 1079944, 1079669, 1079396, 1079123, 1078850, 1078578, 1078307, 1078036, 1077766,
  1077497, 1077228, 1076959, 1076691, 1076424, 1076157, 1075891, 1075625, 1075360, 1075096,
  1074832, 1074568, 1074306, 1074043, 1073781, 1073520, 1073259, 1072999, 1072739, 1072480,
  1072222, 1071964, 1071706, 1071449, 1071192, 1070936, 1070681, 1070426, 1070172, 1069918,
  1069664, 1069411, 1069159, 1068907, 1068656, 1068405, 1068154, 1067904, 1067655, 1067406,
  1067158, 1066910, 1066662, 1066415, 1066169, 1065923, 1065677, 1065432, 1065188, 1064944,
  1064700, 1064457, 1064214, 1063972, 1063730, 1063489, 1063248, 1063008, 1062768, 1062529,
  1062290, 1062051, 1061813, 1061576, 1061338, 1061102, 1060866, 1060630, 1060394, 1060160,
  1059925, 1059691, 1059458, 1059225, 1058992, 1058760, 1058528, 1058296, 1058065, 1057835 >>

MaxRank == Len(Disc)

(* Sanity of the arithmetic: exact where the value is exact, and consistent. *)
ASSUME \A k \in 1..9 : Disc[2^k - 1] = (S + k \div 2) \div k
ASSUME \A i \in 1..MaxRank - 1 : Disc[i] > Disc[i + 1]
\* log2(ab) = log2 a + log2 b for the numbers whose logarithms are in the table
ASSUME \A a \in 2..20 : \A b \in 2..20 :
         LET u == FixDiv(S, Disc[a - 1])
             v == FixDiv(S, Disc[b - 1])
             w == FixDiv(S, Disc[a * b - 1])
             d == u + v - w
         IN d \in -200..200
ASSUME Exp2m1(S \div 2) \in 4142130..4142140       \* sqrt 2
ASSUME \A i \in 1..9 :                              \* 2^(a+b) = 2^a 2^b
         LET a == i * 1000000
             x == Exp2m1(a)
             y == Exp2m1(S - a)
             p == MulFix(x, y) + x + y             \* (1+x)(1+y) - 1 = 1
         IN p \in S - 30..S + 30
ASSUME FixDiv(1, 3) = 3333333 /\ FixDiv(7, 7) = S /\ MulFix(S, 5) = 5
ASSUME MulFix(3333333, 30000000) \in 9999998..10000000
ASSUME MulDiv(5000000, 3, 7) = <<2142857, 1>>
=============================================================================
