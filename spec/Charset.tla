------------------------------ MODULE Charset ------------------------------
(* Generated by tools/charset.py.  Code points of the bytes 128..255 (0: undefined). *)
EXTENDS Naturals, Sequences, Bytes

Single ==
   ("cp1251" :> << 1026, 1027, 8218, 1107, 8222, 8230, 8224, 8225, 8364, 8240, 1033, 8249, 1034, 1036, 1035, 1039, 1106, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 1113, 8250, 1114, 1116, 1115, 1119, 160, 1038, 1118, 1032, 164, 1168, 166, 167, 1025, 169, 1028, 171, 172, 173, 174, 1031, 176, 177, 1030, 1110, 1169, 181, 182, 183, 1105, 8470, 1108, 187, 1112, 1029, 1109, 1111, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103 >>) @@
   ("cp1250" :> << 8364, 0, 8218, 0, 8222, 8230, 8224, 8225, 0, 8240, 352, 8249, 346, 356, 381, 377, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 353, 8250, 347, 357, 382, 378, 160, 711, 728, 321, 164, 260, 166, 167, 168, 169, 350, 171, 172, 173, 174, 379, 176, 177, 731, 322, 180, 181, 182, 183, 184, 261, 351, 187, 317, 733, 318, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729 >>) @@
   ("koi8-r" :> << 9472, 9474, 9484, 9488, 9492, 9496, 9500, 9508, 9516, 9524, 9532, 9600, 9604, 9608, 9612, 9616, 9617, 9618, 9619, 8992, 9632, 8729, 8730, 8776, 8804, 8805, 160, 8993, 176, 178, 183, 247, 9552, 9553, 9554, 1105, 9555, 9556, 9557, 9558, 9559, 9560, 9561, 9562, 9563, 9564, 9565, 9566, 9567, 9568, 9569, 1025, 9570, 9571, 9572, 9573, 9574, 9575, 9576, 9577, 9578, 9579, 9580, 169, 1102, 1072, 1073, 1094, 1076, 1077, 1092, 1075, 1093, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1103, 1088, 1089, 1090, 1091, 1078, 1074, 1100, 1099, 1079, 1096, 1101, 1097, 1095, 1098, 1070, 1040, 1041, 1062, 1044, 1045, 1060, 1043, 1061, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1071, 1056, 1057, 1058, 1059, 1046, 1042, 1068, 1067, 1047, 1064, 1069, 1065, 1063, 1066 >>)

\* << code point, first byte, second byte >>
GbkTab == << <<20101, 129, 124>>, <<20055, 129, 92>>, <<20067, 129, 96>>, <<19970, 129, 64>>, <<20106, 129, 126>>, <<20100, 129, 123>>, <<20488, 130, 124>>, <<20435, 130, 92>>, <<20441, 130, 96>>, <<20388, 130, 64>>, <<20490, 130, 126>>, <<20487, 130, 123>>, <<21077, 132, 124>>, <<21011, 132, 92>>, <<21022, 132, 96>>, <<20952, 132, 64>>, <<21080, 132, 126>>, <<21075, 132, 123>>, <<20013, 214, 208>>, <<25991, 206, 196>>, <<32593, 205, 248>>, <<32476, 194, 231>>, <<29992, 211, 195>>, <<25143, 187, 167>>, <<20320, 196, 227>>, <<22909, 186, 195>>, <<19990, 202, 192>>, <<30028, 189, 231>> >>

Charsets == {"utf8", "gbk"} \cup DOMAIN Single
\* Besides these there is "strict", whose decoder and encoder return an error for everything beyond ASCII.

\* Bytes of the connection to UTF-8.  def says if the result is determined.
RECURSIVE GbkDec(_)
GbkDec(b) ==
  IF b = << >> THEN [def |-> TRUE, v |-> << >>]
  ELSE IF b[1] < 128
  THEN LET r == GbkDec(Tail(b)) IN [def |-> r.def, v |-> << b[1] >> \o r.v]
  ELSE LET I == {i \in DOMAIN GbkTab : Len(b) >= 2 /\ GbkTab[i][2] = b[1] /\ GbkTab[i][3] = b[2]} IN
       IF I = {} THEN [def |-> FALSE, v |-> << >>]
       ELSE LET r == GbkDec(From(b, 3)) IN
            [def |-> r.def, v |-> Utf8Enc(GbkTab[CHOOSE i \in I : TRUE][1]) \o r.v]

CsDecFails(cs, b) == cs = "strict" /\ \E i \in DOMAIN b : b[i] >= 128
CsDec(cs, b) ==
  CASE \A i \in DOMAIN b : b[i] < 128 -> [def |-> TRUE, v |-> b]
    [] cs = "utf8" -> [def |-> TRUE, v |-> b]
    [] cs = "gbk" -> GbkDec(b)
    [] OTHER ->
       LET tab == Single[cs] IN
       [def |-> \A i \in DOMAIN b : b[i] < 128 \/ tab[b[i] - 127] # 0,
        v |-> Flatten([i \in DOMAIN b |-> IF b[i] < 128 THEN << b[i] >> ELSE Utf8Enc(tab[b[i] - 127])])]

\* UTF-8 to the bytes of the connection.  ok says if the encoding can represent it;
\* without an encoding text is sent as it is.
CsEnc(cs, t) ==
  CASE cs = "utf8" -> [def |-> TRUE, ok |-> TRUE, v |-> t]
    [] \A i \in DOMAIN t : t[i] < 128 -> [def |-> TRUE, ok |-> TRUE, v |-> t]
    [] cs = "strict" \/ ~Utf8Valid(t) -> [def |-> TRUE, ok |-> FALSE, v |-> << >>]
    [] cs = "gbk" ->
       LET R == Runes(t)
           ix(r) == {i \in DOMAIN GbkTab : GbkTab[i][1] = r}
           enc(r) == IF r < 128 THEN << r >> ELSE LET i == CHOOSE i \in ix(r) : TRUE IN << GbkTab[i][2], GbkTab[i][3] >>
       IN IF \A i \in DOMAIN R : R[i] < 128 \/ ix(R[i]) # {}
          THEN [def |-> TRUE, ok |-> TRUE, v |-> Flatten([i \in DOMAIN R |-> enc(R[i])])]
          \* emoji are certainly not in GBK
          ELSE [def |-> \E i \in DOMAIN R : R[i] >= 65536, ok |-> FALSE, v |-> << >>]
    [] OTHER ->
       LET R == Runes(t) tab == Single[cs]
           ix(r) == {i \in 1..128 : tab[i] = r}
           enc(r) == IF r < 128 THEN << r >> ELSE << 127 + (CHOOSE i \in ix(r) : TRUE) >>
       IN IF \A i \in DOMAIN R : R[i] < 128 \/ ix(R[i]) # {}
          THEN [def |-> TRUE, ok |-> TRUE, v |-> Flatten([i \in DOMAIN R |-> enc(R[i])])]
          ELSE [def |-> TRUE, ok |-> FALSE, v |-> << >>]
=============================================================================
