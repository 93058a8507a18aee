--------------------------------- MODULE Cases ---------------------------------
(* Data cases: the documents the parsers and converters read, enumerated as    *)
(* edits of valid ones (member dropped, renamed, retyped, doubled up, cut),    *)
(* each with what the specification says of it (used to stratify; every        *)
(* recorded call is judged again by Conform on the real bytes).                *)
EXTENDS Conform, Json, IOUtils

Wanted == IF "FAMS" \in DOMAIN IOEnv THEN IOEnv.FAMS ELSE ""
On(fam) == HasSub(Ascii(Wanted), Ascii("," \o fam \o ","))
MapSeq(S, F(_)) == LET q == SetToSeq(S) IN Tup([i \in 1..Len(q) |-> F(q[i])])
P(fam, S, F(_)) == IF On(fam) THEN MapSeq(S, LAMBDA v : [fam |-> fam, v |-> v, k |-> F(v)]) ELSE <<>>

\* map edits: a map is a sequence of <<key, value>>
DropAt(m, i) == SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m))
Drop(m, key) == SelectSeq(m, LAMBDA p : ~KeyIs(p[1], key))
Put(m, key, v) == IF HasKey(m, key) THEN Tup([i \in 1..Len(m) |-> IF KeyIs(m[i][1], key) THEN <<key, v>> ELSE m[i]])
                  ELSE Append(m, <<key, v>>)
T(s) == VText(Ascii(s))
B(n) == VBytes(Tup([i \in 1..n |-> (7 * i) % 256]))
\* (sequences, not sets: TLC cannot order records of different shapes)
Vals == <<VNone, VBool(TRUE), VBool(FALSE), VInt(0), VInt(1), VInt(2), VInt(-1), VInt(-7), VInt(300), VText(<<>>), T("x"), T("1"), T("ES256"),
          VBytes(<<>>), B(1), B(32), B(33), VList(<<>>), VList(<<VNone>>), VList(<<VBytes(<<>>)>>), VList(<<B(3), B(2)>>),
          VList(<<B(3), T("x")>>), VList(<<T("a"), T("")>>), VList(<<VInt(1), VInt(2)>>), VList(<<VInt(1), VBool(TRUE)>>), VList(<<VList(<<>>)>>),
          VMap(<<>>), VMap(<<<<T("a"), VInt(1)>>>>), VFloat(<<63, 248, 0, 0, 0, 0, 0, 0>>)>>
NV == Len(Vals)
Misspell == <<"x", "Sig", "sig ", "alg ", "X5C", "x5c_", "ecdaaKeyID", "ecdaa_key_id", "Ver", "ver", "certinfo", "certInfo", "pubarea", "pubArea", "Response",
              "response", "sig", "alg", "x5c", "ecdaaKeyId", "authdata", "", "fmt", "attStmt", "authData">>
Seq2Set(s) == {s[i] : i \in 1..Len(s)}

(* every edit is a record of one shape: base number, and operations on it *)
\* op: <<"drop", i, 0>> <<"put", i, value number>> <<"add", name number, value number>> <<"ren", i, name number>>
EditsOf(n, names) == {<<"drop", i, 0>> : i \in 1..n} \cup {<<"put", i, w>> : i \in 1..n, w \in 1..NV}
                     \cup {<<"add", a, w>> : a \in 1..names, w \in {1, 5, 10, 11, 14, 15, 18, 21, 27}} \cup {<<"ren", i, a>> : i \in 1..n, a \in 1..names}
Apply(m, ed, names) ==
  CASE ed[1] = "drop" -> DropAt(m, ed[2])
    [] ed[1] = "put" -> [m EXCEPT ![ed[2]] = <<m[ed[2]][1], Vals[ed[3]]>>]
    [] ed[1] = "add" -> Put(m, T(names[ed[2]]), Vals[ed[3]])
    [] ed[1] = "ren" -> LET k == T(names[ed[3]]) IN
                        IF HasKey(m, k) THEN m ELSE [m EXCEPT ![ed[2]] = <<k, m[ed[2]][2]>>]
    [] ed[1] = "id" -> m

(* ---- COSE keys ---- *)
CKty == <<VInt(1), VInt(2), VInt(4), T("OKP"), T("EC2"), T("Symmetric"), VInt(0), VInt(3), VInt(5), T("ec2"), T("RSA"), VNone, VBytes(<<2>>), T("Ec2"), T("okp"), T("OKP "), T("2"), T("EC-2"), VFloat(FloatNat[CHOOSE i \in 1..Len(FloatNat) : FloatNat[i][1] = 2][2])>>
CAlg == <<VInt(-7), VInt(-35), VInt(-36), VInt(-8), T("ES256"), T("ES384"), T("ES512"), T("EdDSA"), VInt(-37), VInt(-257), VInt(7), VInt(0), T("EDDSA"), T("es256"), VNone, B(1), T("eddsa"), T("Es256"), T("ES-256"), T("ES256 "), T("ES256K"), T("-7"), VInt(-47), VInt(-6), VInt(-9), VInt(249)>>
CCrv == <<VInt(1), VInt(2), VInt(3), VInt(6), VInt(7), T("P-256"), T("P-384"), T("P-521"), T("Ed25519"), T("Ed448"), VInt(4), VInt(5), VInt(8), VInt(0), VInt(-1), T("P_256"), T("X25519"), VNone, B(1), T("p-256"), T("p-521"), T("P256"), T("P-256 "), T("ed25519"), T("ED25519"), T("ed448"), T("ED448"), T("Ed-25519"), T("secp256r1"), T("1"), T("6"), VInt(257), VInt(-2)>>
CLen == <<0, 1, 31, 32, 33, 47, 48, 49, 56, 57, 58, 64, 65, 66, 67>>
CoseMap(v) == << <<KI(1), CKty[v.kty]>>, <<KI(3), CAlg[v.alg]>>, <<KI(-1), CCrv[v.crv]>> >>
              \o (IF v.x = 0 THEN <<>> ELSE << <<KI(-2), B(CLen[v.x])>> >>) \o (IF v.y = 0 THEN <<>> ELSE << <<KI(-3), B(CLen[v.y])>> >>)
\* indices of lengths right for a curve
Fit == <<4, 7, 14, 4, 10, 4, 7, 14, 4, 10>>
CoseCore == {[kty |-> t, alg |-> a, crv |-> c, x |-> x, y |-> y] : t \in 1..5, a \in 1..8, c \in 1..10, x \in {0, 4, 7, 10, 14}, y \in {0, 4, 7, 14}}
CoseGood == {v \in CoseCore : v.x = Fit[v.crv] /\ (v.kty \in {2, 5} => v.y = Fit[v.crv])}
CoseEdge == UNION {{[v EXCEPT !.kty = t] : t \in 1..Len(CKty)} \cup {[v EXCEPT !.alg = a] : a \in 1..Len(CAlg)} \cup {[v EXCEPT !.crv = c] : c \in 1..Len(CCrv)}
                   \cup {[v EXCEPT !.x = l] : l \in 0..Len(CLen)} \cup {[v EXCEPT !.y = l] : l \in 0..Len(CLen)}
                   : v \in {[kty |-> 2, alg |-> 1, crv |-> 1, x |-> 4, y |-> 4], [kty |-> 2, alg |-> 2, crv |-> 2, x |-> 7, y |-> 7], [kty |-> 2, alg |-> 3, crv |-> 3, x |-> 14, y |-> 14],
                            [kty |-> 1, alg |-> 4, crv |-> 4, x |-> 4, y |-> 0], [kty |-> 1, alg |-> 4, crv |-> 5, x |-> 10, y |-> 0], [kty |-> 1, alg |-> 4, crv |-> 4, x |-> 4, y |-> 4]}}
\* optional members and retyped members on valid keys
CoseBases == <<CoseMap([kty |-> 2, alg |-> 1, crv |-> 1, x |-> 4, y |-> 4]), CoseMap([kty |-> 5, alg |-> 7, crv |-> 8, x |-> 14, y |-> 14]),
               CoseMap([kty |-> 1, alg |-> 4, crv |-> 4, x |-> 4, y |-> 0]), CoseMap([kty |-> 4, alg |-> 8, crv |-> 10, x |-> 10, y |-> 0])>>
COps == <<VNone, VList(<<>>), VList(<<VInt(1)>>), VList(<<VInt(2), VInt(1)>>), VList(<<T("sign"), VInt(2)>>), VList(<<T("derive bits")>>), VList(<<VInt(0)>>),
          VList(<<VInt(11)>>), VList(<<VInt(1), VInt(11)>>), VList(<<T("Sign")>>), VList(<<VInt(1), T("verify"), VNone>>), VList(<<VInt(1), VInt(1)>>), VInt(1), T("sign"), VBytes(<<1>>), VMap(<<>>),
          VList(<<VInt(1), VInt(2), VInt(3), VInt(4), VInt(5), VInt(6), VInt(7), VInt(8), VInt(9), VInt(10)>>), VList(<<VList(<<>>)>>),
          VList(<<T("sign"), T("verify"), T("encrypt"), T("decrypt"), T("wrap key"), T("unwrap key"), T("derive key"), T("derive bits"), T("MAC create"), T("MAC verify")>>)>>
CoseOpt == {[b |-> b, key |-> k, w |-> w] : b \in 1..4, k \in {2, 5, -2, -3, -1, 1, 3, -4, 6, 0}, w \in 1..NV}
           \cup {[b |-> b, key |-> 4, w |-> w] : b \in 1..4, w \in 1..Len(COps)}
CoseOptMap(v) == Put(CoseBases[v.b], KI(v.key), IF v.key = 4 THEN COps[v.w] ELSE Vals[v.w])
CoseOps == {[b |-> b, at |-> a, w |-> w, g |-> g] : b \in 1..4, a \in {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<3, 3>>}, w \in 1..NV, g \in {1, 2}}
AmongO(n, i, x, good) == VList(Tup([j \in 1..n |-> IF j = i THEN x ELSE good]))
CoseOpsMap(v) == Put(CoseBases[v.b], KI(4), AmongO(v.at[1], v.at[2], Vals[v.w], IF v.g = 1 THEN VInt(2) ELSE T("sign")))
CoseDrop == {[b |-> b, i |-> i] : b \in 1..4, i \in 1..4} \cup {[b |-> b, i |-> 5] : b \in 1..2}
\* members under labels of other types, those that equal the right one as numbers included
LabelNat(k) == CHOOSE n \in {1, 2, 3, 4, 5, -1, -2, -3} : VInt(n) = k
IntText(n) == Ascii(CHOOSE s \in {"1", "2", "3", "4", "5", "-1", "-2", "-3"} : s = ToString(n))
NumLabel(l) == IF l = 1 THEN <<VBool(TRUE)>> ELSE <<>>
OddLabels(l) == NumLabel(l) \o <<VFloat(FloatNat[CHOOSE i \in 1..Len(FloatNat) : FloatNat[i][1] = l][2]), VText(IntText(l)), VBytes(NatBe(IF l < 0 THEN -l ELSE l)), VNone, VBool(FALSE), VInt(l + 100)>>
CoseFull(b) == CoseBases[b] \o <<<<KI(2), B(4)>>, <<KI(4), COps[5]>>, <<KI(5), B(2)>> >>
CoseRelabel(b) == LET m == CoseFull(b) IN
  FlattenSeq([i \in 1..Len(m) |-> LET l == LabelNat(m[i][1]) o == OddLabels(l) IN Tup([j \in 1..Len(o) |-> [m EXCEPT ![i] = <<o[j], m[i][2]>>]])])
CoseMore(b) == LET o == <<VFloat(FloatNat[2][2]), VFloat(FloatNat[5][2]), VText(<<>>), T("kty"), VBytes(<<>>), VBytes(<<1>>), VNone, VBool(FALSE), VInt(100), VInt(-70000)>> IN
  Tup([j \in 1..Len(o) |-> Append(CoseBases[b], <<o[j], VInt(2)>>)])
LK(m) == IF ParseKey(m).k = "ok" THEN IF SupportedKey(m).k = "ok" THEN "ok" ELSE "unsupported" ELSE "bad"
G_cose == IF ~On("cose") THEN <<>> ELSE
          MapSeq(CoseCore \cup CoseEdge, LAMBDA v : [fam |-> "cose", m |-> CoseMap(v), k |-> LK(CoseMap(v))])
          \o MapSeq(CoseOpt, LAMBDA v : [fam |-> "cose", m |-> CoseOptMap(v), k |-> LK(CoseOptMap(v))])
          \o MapSeq(CoseOps, LAMBDA v : [fam |-> "cose", m |-> CoseOpsMap(v), k |-> LK(CoseOpsMap(v))])
          \o MapSeq(CoseDrop, LAMBDA v : [fam |-> "cose", m |-> DropAt(CoseBases[v.b], v.i), k |-> LK(DropAt(CoseBases[v.b], v.i))])
          \o FlattenSeq([b \in 1..4 |-> LET l == CoseRelabel(b) \o CoseMore(b) IN Tup([j \in 1..Len(l) |-> [fam |-> "cose", m |-> l[j], k |-> LK(l[j])]])])

(* ---- extension outputs ---- *)
ExtVals == Vals \o <<VMap(<<<<T("latitude"), VInt(1)>>, <<T("longitude"), VFloat(<<64, 9, 33, 251, 84, 68, 45, 24>>)>>>>),
   VMap(<<<<T("altitudeAccuracy"), VInt(-5)>>>>), VMap(<<<<T("altitude_accuracy"), VInt(5)>>>>), VMap(<<<<T("latitude"), T("1")>>>>),
   VMap(<<<<T("latitude"), VBool(TRUE)>>>>), VMap(<<<<T("speed"), VNone>>>>), VMap(<<<<T("speed"), VInt(1)>>, <<T("extra"), VInt(2)>>>>), VMap(<<<<VInt(1), VInt(2)>>>>),
   VMap(<<<<T("latitude"), VInt(1)>>, <<T("longitude"), VInt(2)>>, <<T("altitude"), VInt(3)>>, <<T("accuracy"), VInt(4)>>, <<T("altitudeAccuracy"), VInt(5)>>, <<T("heading"), VInt(6)>>, <<T("speed"), VInt(7)>>>>),
   VList(<<VList(<<VInt(1), VInt(2), VInt(3)>>), VList(<<VInt(4)>>)>>), VList(<<VList(<<VInt(1)>>), VList(<<T("x")>>)>>), VList(<<VList(<<VInt(1)>>), VInt(2)>>),
   VList(<<VList(<<VInt(1), VBool(FALSE)>>)>>), VList(<<VList(<<VInt(1)>>), VMap(<<>>)>>), VList(<<T("a"), B(1)>>), VList(<<T("a"), T("a")>>), VList(<<VList(<<VNone>>)>>),
   VList(<<VList(<<VInt(1), VFloat(<<63, 240, 0, 0, 0, 0, 0, 0>>)>>)>>)>>
ExtKeyNames == ExtNames \o <<"AppID", "appId", "tx_auth_simple", "txauthsimple", "credProps", "hmac-secret", "", "UVM", "biometricPerfBound", "authnSel ">>
XV == Len(ExtVals)
ExtOne == {<<a, w>> : a \in 1..Len(ExtKeyNames), w \in 1..XV}
\* a good value for each name, and two of them together
GoodFor == <<2, 11, 15, 3, 23, 14, 30, 39, 2>>
ExtTwo == {<<a, w, c>> : a \in 1..9, w \in {1, 2, 5, 11, 14, 15, 18, 23, 27, 30, 33, 39, 40}, c \in 1..9}
ExtM1(v) == <<<<T(ExtKeyNames[v[1]]), ExtVals[v[2]]>>>>
ExtM2(v) == Put(<<<<T(ExtKeyNames[v[3]]), ExtVals[GoodFor[v[3]]]>>>>, T(ExtKeyNames[v[1]]), ExtVals[v[2]])
ExtGood(S) == LET q == SetToSeq(S) IN Tup([i \in 1..Len(q) |-> <<T(ExtNames[q[i]]), ExtVals[GoodFor[q[i]]]>>])
LE(m) == ParseExt(m).k
\* parts of structured outputs: one coordinate (alone, before or after another), one item of a list, one of a list of lists
LocOdd == LocNames \o <<"altitude_accuracy", "Latitude", "lat", "", "altitudeaccuracy", "x">>
ExtLocM(v) == <<<<T("loc"), VMap(CASE v[3] = 1 -> <<<<T(LocOdd[v[1]]), Vals[v[2]]>>>>
                                   [] v[3] = 2 -> <<<<T(LocNames[(v[1] % 7) + 1]), VInt(5)>>, <<T(LocOdd[v[1]]), Vals[v[2]]>>>>
                                   [] v[3] = 3 -> <<<<T(LocOdd[v[1]]), Vals[v[2]]>>, <<T(LocNames[(v[1] % 7) + 1]), VInt(0)>>>>)>>>>
Among(n, i, x, good) == VList(Tup([j \in 1..n |-> IF j = i THEN x ELSE good]))
At == {<<n, i>> \in (1..3) \X (1..3) : i <= n}
ExtExtsM(v) == <<<<T("exts"), Among(v[1][1], v[1][2], Vals[v[2]], T("appid"))>>>>
ExtUvmM(v) == <<<<T("uvm"), Among(v[1][1], v[1][2], Vals[v[2]], VList(<<VInt(1), VInt(2), VInt(4)>>))>>>>
ExtUvmM2(v) == <<<<T("uvm"), Among(v[1][1], v[1][2], Among(v[3][1], v[3][2], Vals[v[2]], VInt(0)), VList(<<VInt(1), VInt(2), VInt(4)>>))>>>>
ExtC(m) == [fam |-> "ext", m |-> m, k |-> LE(m)]
G_ext == IF ~On("ext") THEN <<>> ELSE
         MapSeq(ExtOne, LAMBDA v : [fam |-> "ext", m |-> ExtM1(v), k |-> LE(ExtM1(v))])
         \o MapSeq(ExtTwo, LAMBDA v : [fam |-> "ext", m |-> ExtM2(v), k |-> LE(ExtM2(v))])
         \o MapSeq((1..Len(LocOdd)) \X (1..NV) \X (1..3), LAMBDA v : ExtC(ExtLocM(v)))
         \o MapSeq(At \X (1..NV), LAMBDA v : ExtC(ExtExtsM(v)))
         \o MapSeq(At \X (1..NV), LAMBDA v : ExtC(ExtUvmM(v)))
         \o MapSeq({<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 2>>} \X (1..NV) \X At, LAMBDA v : ExtC(ExtUvmM2(v)))
         \o MapSeq(SUBSET (1..9), LAMBDA S : [fam |-> "ext", m |-> ExtGood(S), k |-> LE(ExtGood(S))])
         \o <<[fam |-> "ext", m |-> <<<<VInt(1), VBool(TRUE)>>>>, k |-> "bad"], [fam |-> "ext", m |-> <<<<VBytes(Ascii("appid")), VBool(TRUE)>>>>, k |-> "bad"]>>

(* ---- attestation statements ---- *)
SA == <<K_alg, VInt(-7)>>  SS == <<K_sig, B(70)>>  SX == <<K_x5c, VList(<<B(40), B(41)>>)>>
SE == <<K_ecdaa, B(8)>>  SV == <<K_ver, T("2.0")>>  SC == <<K_cert, B(20)>>  SP == <<K_pub, B(21)>>  SR == <<K_resp, B(30)>>
StBases == << <<"PACKED", <<SA, SS>>>>, <<"PACKED", <<SA, SS, SX>>>>, <<"PACKED", <<SA, SS, SE>>>>,
              <<"TPM", <<SA, SS, SV, SC, SP>>>>, <<"TPM", <<SA, SS, SV, SC, SP, SX>>>>, <<"TPM", <<SA, SS, SV, SC, SP, SE>>>>,
              <<"ANDROID_KEY", <<SA, SS, SX>>>>, <<"ANDROID_SAFETYNET", <<SV, SR>>>>, <<"FIDO_U2F", <<SS, SX>>>>, <<"NONE", <<>>>>,
              <<"PACKED", <<SA, SS, SX, SE>>>>, <<"TPM", <<SA, SS, SV, SC, SP, SX, SE>>>> >>
StOne == {<<b, ed>> : b \in 1..Len(StBases), ed \in EditsOf(7, Len(Misspell)) \cup {<<"id", 0, 0>>}}
StOk(v) == LET m == StBases[v[1]][2] IN v[2][1] = "add" \/ v[2][1] = "id" \/ v[2][2] <= Len(m)
StMap(v) == Apply(StBases[v[1]][2], v[2], Misspell)
\* statements of one format given to another
StCross == {<<f, b>> : f \in 1..6, b \in 1..Len(StBases)}
\* every algorithm value for every format that has one
StAlg == {<<b, a>> : b \in 1..7, a \in 1..Len(CAlg)}
LS(fmt, m) == ParseStmt(fmt, m).k
\* one certificate of a chain
StX5c == {<<b, a, w>> : b \in {2, 6, 7, 9, 12}, a \in At, w \in 1..NV}
StXM(v) == Put(StBases[v[1]][2], K_x5c, Among(v[2][1], v[2][2], Vals[v[3]], B(9)))
G_stmt == IF ~On("stmt") THEN <<>> ELSE
          MapSeq({w \in StOne : StOk(w)}, LAMBDA v : [fam |-> "stmt", fmt |-> StBases[v[1]][1], m |-> StMap(v), k |-> LS(StBases[v[1]][1], StMap(v))])
          \o MapSeq(StCross, LAMBDA v : [fam |-> "stmt", fmt |-> FmtTable[v[1]][1], m |-> StBases[v[2]][2], k |-> LS(FmtTable[v[1]][1], StBases[v[2]][2])])
          \o MapSeq(StX5c, LAMBDA v : [fam |-> "stmt", fmt |-> StBases[v[1]][1], m |-> StXM(v), k |-> LS(StBases[v[1]][1], StXM(v))])
         \o MapSeq(StAlg, LAMBDA v : [fam |-> "stmt", fmt |-> StBases[v[1]][1], m |-> Put(StBases[v[1]][2], K_alg, CAlg[v[2]]), k |-> LS(StBases[v[1]][1], Put(StBases[v[1]][2], K_alg, CAlg[v[2]]))])

(* ---- authenticator data: flags, parts, cuts and surplus ---- *)
AdHead(fl) == Tup([i \in 1..32 |-> (3 * i) % 256]) \o <<fl>> \o <<1, 2, 3, 4>>
AdKeys == <<Enc(VMap(CoseBases[1])), Enc(VMap(CoseBases[3]))>>
AdAtt(idlen, k) == Tup([i \in 1..16 |-> i]) \o <<idlen \div 256, idlen % 256>> \o Tup([i \in 1..idlen |-> (i + 200) % 256]) \o AdKeys[k]
AdExts == <<Enc(VMap(<<>>)), Enc(VMap(<<<<T("appid"), VBool(FALSE)>>>>)), Enc(VMap(<<<<T("uvi"), B(3)>>, <<T("exts"), VList(<<T("a")>>)>>>>)), Enc(VList(<<>>)), Enc(VInt(0)), Enc(VMap(<<<<T("x"), VBool(TRUE)>>>>))>>
AdFlags == {0, 1, 4, 5, 64, 65, 69, 128, 129, 133, 192, 193, 197, 255, 63}
AdBody(v) == AdHead(v.fl) \o (IF v.id >= 0 THEN AdAtt(v.id, v.key) ELSE <<>>) \o (IF v.ext > 0 THEN AdExts[v.ext] ELSE <<>>) \o v.more
AdFull == {[fl |-> fl, id |-> i, key |-> k, ext |-> x, more |-> m] : fl \in AdFlags, i \in {-1, 0, 1, 16}, k \in {1, 2}, x \in 0..Len(AdExts), m \in {<<>>, <<0>>, <<160>>}}
AdCutBase == {[fl |-> 197, id |-> 5, key |-> 1, ext |-> 3, more |-> <<>>], [fl |-> 65, id |-> 16, key |-> 2, ext |-> 0, more |-> <<>>],
              [fl |-> 129, id |-> -1, key |-> 1, ext |-> 2, more |-> <<>>], [fl |-> 1, id |-> -1, key |-> 1, ext |-> 0, more |-> <<>>]}
AdCuts == UNION {{<<v, n>> : n \in 0..Len(AdBody(v))} : v \in AdCutBase}
\* a stated length that differs from the real one
AdLie(l) == LET b == AdBody([fl |-> 65, id |-> 16, key |-> 1, ext |-> 0, more |-> <<>>]) IN [b EXCEPT ![54] = l \div 256, ![55] = l % 256]
LA(b) == ParseAuthData(b).k
G_ad == IF ~On("ad") THEN <<>> ELSE
        MapSeq(AdFull, LAMBDA v : [fam |-> "ad", b |-> AdBody(v), k |-> LA(AdBody(v))])
        \o MapSeq(AdCuts, LAMBDA c : [fam |-> "ad", b |-> SubSeq(AdBody(c[1]), 1, c[2]), k |-> LA(SubSeq(AdBody(c[1]), 1, c[2]))])
        \o MapSeq((0..120) \cup {255, 256, 257, 1023, 1024, 65535, 4096}, LAMBDA l : [fam |-> "ad", b |-> AdLie(l), k |-> LA(AdLie(l))])

(* ---- attestation objects ---- *)
AoAd == VBytes(AdBody([fl |-> 65, id |-> 4, key |-> 1, ext |-> 0, more |-> <<>>]))
AoBases == Tup([i \in 1..Len(StBases) |-> << <<K_fmt, T(FmtTable[CHOOSE j \in 1..6 : FmtTable[j][1] = StBases[i][1]][2])>>, <<K_stmt, VMap(StBases[i][2])>>, <<K_auth, AoAd>> >>])
AoFmts == <<"packed", "tpm", "android-key", "android-safetynet", "fido-u2f", "none", "NONE", "None", "fido_u2f", "fido-u2f ", "androidkey", "android-key ", "apple", "compound", "", "null">>
AoOne == {<<b, ed>> : b \in 1..10, ed \in EditsOf(3, Len(Misspell)) \cup {<<"id", 0, 0>>}}
AoTop == <<VList(<<>>), VInt(1), VText(<<>>), VBytes(<<>>), VNone, VMap(<<>>), VList(<<VMap(AoBases[1])>>)>>
LO(b) == ParseAttObj(b).k
AoB(v) == Enc(VMap(Apply(AoBases[v[1]], v[2], Misspell)))
AoF(i, b) == Enc(VMap(Put(AoBases[b], K_fmt, T(AoFmts[i]))))
AoAll == {AoB(v) : v \in AoOne} \cup {AoF(i, b) : i \in 1..Len(AoFmts), b \in {1, 9, 10}} \cup {Enc(AoTop[i]) : i \in 1..Len(AoTop)}
         \cup {AoB(<<10, <<"id", 0, 0>>>>) \o <<0>>} \cup {SubSeq(AoB(<<10, <<"id", 0, 0>>>>), 1, n) : n \in 0..Len(AoB(<<10, <<"id", 0, 0>>>>))}
G_ao == P("ao", AoAll, LO)

(* ---- credential JSON ---- *)
\* base64 texts: every shape of small ones
B64T == {<<>>, Ascii("AA=="), Ascii("AAA="), Ascii("AAAA"), Ascii("/+8="), Ascii("_-8="), Ascii("AA="), Ascii("AA"), Ascii("A"), Ascii("AAA"), Ascii("A==="),
         Ascii("AAAAA"), Ascii("===="), Ascii("AB=="), Ascii("A*AA"), Ascii("AAAA===="), Ascii(" AAAA"), Ascii("AQIDBAUGBwgJ"), Ascii("AAAA="), Ascii("_-_-"), Ascii("AAA-BA"), Ascii("AAAA-_8="), Ascii("AAAA=AAAA"), Ascii("AA==AA=="), Ascii("A=AA"), Ascii("AQ==AQ"), Ascii("AQID,AQID"), Ascii("%41AA="), Ascii("0x0102"), Ascii("AQ=")} \cup {<<0>>, <<195, 169>>, <<65, 10, 65, 65>>}
JVals == <<VNone, VBool(TRUE), VInt(0), VInt(1), T("x"), VText(<<>>), T("AAAA"), VList(<<>>), VList(<<VInt(1), VInt(2)>>), VMap(<<>>), VFloat(<<63, 248, 0, 0, 0, 0, 0, 0>>), VMap(<<<<T("clientDataJSON"), T("AAAA")>>>>)>>
PkReg == << <<P_cd, T("e30=")>>, <<P_ao, T("oA==")>> >>
PkAuth == << <<P_cd, T("e30=")>>, <<P_ad, T("AAAA")>>, <<P_sig, T("MAA=")>>, <<P_uh, T("AQ==")>> >>
PkAuth0 == << <<P_cd, T("e30=")>>, <<P_ad, T("AAAA")>>, <<P_sig, T("MAA=")>> >>
PkBases == <<PkReg, PkAuth, PkAuth0, PkReg \o <<<<P_sig, T("AAAA")>>>>, PkReg \o PkAuth, PkAuth \o <<<<P_ao, VNone>>>> >>
PkNames == <<"id", "rawId", "raw_id", "rawID", "response", "type", "clientDataJSON", "clientDataJson", "client_data_JSON", "attestationObject", "attestationobject", "authenticatorData",
             "signature", "Signature", "userHandle", "userhandle", "user_handle", "getClientExtensionResults", "authenticatorAttachment", "x", "">>
Pk(resp) == << <<P_id, T("abc")>>, <<P_raw, T("AQID")>>, <<P_resp, VMap(resp)>>, <<P_type, T("public-key")>> >>
JApply(m, ed) ==
  CASE ed[1] = "drop" -> DropAt(m, ed[2]) [] ed[1] = "put" -> [m EXCEPT ![ed[2]] = <<m[ed[2]][1], JVals[ed[3]]>>]
    [] ed[1] = "add" -> Put(m, T(PkNames[ed[2]]), JVals[ed[3]])
    [] ed[1] = "ren" -> LET k == T(PkNames[ed[3]]) IN IF HasKey(m, k) THEN m ELSE [m EXCEPT ![ed[2]] = <<k, m[ed[2]][2]>>]
JEdits(n) == {<<"drop", i, 0>> : i \in 1..n} \cup {<<"put", i, w>> : i \in 1..n, w \in 1..Len(JVals)} \cup {<<"add", a, w>> : a \in 1..Len(PkNames), w \in {1, 5, 6, 7, 10}}
             \cup {<<"ren", i, a>> : i \in 1..n, a \in 1..Len(PkNames)}
LP(m) == ParsePkc(m).k
PkCase(m) == [fam |-> "pkc", m |-> m, k |-> LP(m)]
G_pkc == IF ~On("pkc") THEN <<>> ELSE
   MapSeq((1..3) \X JEdits(4), LAMBDA v : PkCase(JApply(Pk(PkBases[v[1]]), v[2])))
   \o MapSeq((1..2) \X JEdits(2), LAMBDA v : PkCase(Pk(JApply(PkBases[v[1]], v[2]))))
   \o MapSeq(JEdits(4), LAMBDA ed : PkCase(Pk(JApply(PkBases[2], ed))))
   \o MapSeq(1..Len(PkBases), LAMBDA b : PkCase(Pk(PkBases[b])))
   \o MapSeq((1..2) \X B64T, LAMBDA v : PkCase(Put(Pk(PkBases[v[1]]), P_raw, VText(v[2]))))
   \o MapSeq((1..2) \X (1..2) \X B64T, LAMBDA v : PkCase(Pk(Put(PkBases[v[1]], PkBases[v[1]][v[2]][1], VText(v[3])))))
   \o MapSeq((3..4) \X B64T, LAMBDA v : PkCase(Pk(Put(PkBases[2], PkBases[2][v[1]][1], VText(v[2])))))
   \o MapSeq((1..2) \X B64T \X {<<>>, Ascii("public-key"), Ascii("x")}, LAMBDA v : PkCase(Put(Put(Pk(PkBases[v[1]]), P_id, VText(v[2])), P_type, VText(v[3]))))

(* ---- client data ---- *)
CdB == << <<T("type"), T("webauthn.get")>>, <<T("challenge"), T("AAAA")>>, <<T("origin"), T("https://a.example")>> >>
CdTbVals == <<VNone, VBool(FALSE), VInt(0), T("present"), VText(<<>>), VList(<<>>), VMap(<<>>), VMap(<<<<T("status"), T("present")>>>>), VMap(<<<<T("status"), T("supported")>>>>),
   VMap(<<<<T("status"), T("present")>>, <<T("id"), T("x")>>>>), VMap(<<<<T("status"), T("present")>>, <<T("id"), VText(<<>>)>>>>), VMap(<<<<T("status"), T("present")>>, <<T("id"), VNone>>>>),
   VMap(<<<<T("status"), T("supported")>>, <<T("id"), T("x")>>>>), VMap(<<<<T("status"), T("supported")>>, <<T("id"), VNone>>>>), VMap(<<<<T("status"), T("Present")>>, <<T("id"), T("x")>>>>),
   VMap(<<<<T("status"), T("PRESENT")>>, <<T("id"), T("x")>>>>), VMap(<<<<T("status"), T("not-supported")>>, <<T("id"), T("x")>>>>), VMap(<<<<T("status"), VText(<<>>)>>>>), VMap(<<<<T("status"), VNone>>, <<T("id"), T("x")>>>>),
   VMap(<<<<T("status"), VInt(1)>>, <<T("id"), T("x")>>>>), VMap(<<<<T("status"), VList(<<>>)>>>>), VMap(<<<<T("status"), VMap(<<>>)>>>>), VMap(<<<<T("id"), T("x")>>>>), VMap(<<<<T("Status"), T("supported")>>>>),
   VMap(<<<<T("status"), T("supported")>>, <<T("id"), VInt(3)>>>>), VMap(<<<<T("status"), T("supported")>>, <<T("extra"), VInt(3)>>>>), VList(<<VMap(<<<<T("status"), T("supported")>>>>)>>),
   VMap(<<<<T("status"), VBool(TRUE)>>, <<T("id"), T("x")>>>>), VMap(<<<<T("status"), T("supported ")>>>>)>>
CdNames == <<"type", "challenge", "origin", "tokenBinding", "Type", "token_binding", "tokenbinding", "crossOrigin", "id", "status", "", "x">>
CdApply(m, ed) ==
  CASE ed[1] = "drop" -> DropAt(m, ed[2]) [] ed[1] = "put" -> [m EXCEPT ![ed[2]] = <<m[ed[2]][1], JVals[ed[3]]>>]
    [] ed[1] = "add" -> Put(m, T(CdNames[ed[2]]), JVals[ed[3]])
    [] ed[1] = "ren" -> LET k == T(CdNames[ed[3]]) IN IF HasKey(m, k) THEN m ELSE [m EXCEPT ![ed[2]] = <<k, m[ed[2]][2]>>]
CdEdits == {<<"drop", i, 0>> : i \in 1..3} \cup {<<"put", i, w>> : i \in 1..3, w \in 1..Len(JVals)} \cup {<<"add", a, w>> : a \in 1..Len(CdNames), w \in 1..Len(JVals)}
           \cup {<<"ren", i, a>> : i \in 1..3, a \in 1..Len(CdNames)}
CdCase(v) == [fam |-> "cd", j |-> v, k |-> "?"]
G_cd == IF ~On("cd") THEN <<>> ELSE
   MapSeq(CdEdits, LAMBDA ed : CdCase(VMap(CdApply(CdB, ed))))
   \o MapSeq(1..Len(CdTbVals), LAMBDA i : CdCase(VMap(Append(CdB, <<T("tokenBinding"), CdTbVals[i]>>))))
   \o MapSeq({9, 10, 15, 20} \X {e \in CdEdits : e[1] \in {"drop", "put"}}, LAMBDA v : CdCase(VMap(CdApply(Append(CdB, <<T("tokenBinding"), CdTbVals[v[1]]>>), v[2]))))
   \o Tup([i \in 1..Len(JVals) |-> CdCase(JVals[i])]) \o <<CdCase(VMap(CdB)), CdCase(VList(<<VMap(CdB)>>))>>

(* ---- origins ---- *)
OSch == {"https://", "http://", "HTTPS://", "Http://", "ftp://", "ws://", "://", "//", "https:/", "https:", "", "https", "chrome-extension://", "httpsx://", "file:///", "javascript://"}
OHst == {"a.example", "A.Example", "localhost", "127.0.0.1", "", "a", "xn--bcher-kva.example", "a.example.", "-a-", "under_score", "10.0.0.1", "user@a.example", "user:pw@a.example", "a.example,b.example",
         "1", "0x7f.1", "a b", "a..b", "[::1]", "[::1", "::1", "[1:2:3:4:5:6:7:8]", "[a::f:1]", "[::1.2.3.4]", "[::1]x", "x[::1]", "a.example@b", "a.example:443@b", "a@b@c", "@a", "a@", ":@a", "u:p@[::1]", "[::1]@b"}
OPrt == {"", ":", ":0", ":1", ":80", ":443", ":0443", ":8443", ":65535", ":65536", ":-1", ":+80", ":8 0", ":x", ":99999999999999999999", ":443:443", ":4_43", ":80a", ": 80"}
OTl == {"", "/", "/p", "?q", "#f", ";p", "/;p", "?", "#", "//", " ", "\\p"}
OCases == {Ascii(s \o h \o p) : s \in OSch, h \in OHst, p \in {"", ":443", ":8443"}} \cup {Ascii(s \o h \o p) : s \in {"https://", "http://"}, h \in {"a.example", "localhost", ""}, p \in OPrt}
          \cup {Ascii(s \o h \o p \o t) : s \in {"https://", "http://"}, h \in {"a.example", "localhost"}, p \in {"", ":443", ":8443", ":x"}, t \in OTl}
LOr(b) == ParseOrigin(b).k
G_origin == P("origin", OCases, LOr)

(* ---- key objects ---- *)
KObj == {[crv |-> c, alg |-> a, kid |-> k, ops |-> o, iv |-> i, named |-> n, pt |-> p] :
           c \in {"P_256", "P_384", "P_521", "ED25519", "ED448"}, a \in {"ES256", "ES384", "ES512", "EDDSA"}, k \in {0, 1, 2}, o \in {0, 1, 2, 3}, i \in {0, 1, 2}, n \in {0, 1, 2}, p \in {"on"}}
        \cup {[crv |-> c, alg |-> a, kid |-> 0, ops |-> 0, iv |-> 0, named |-> n, pt |-> p] :
           c \in {"P_256", "P_384", "P_521"}, a \in {"ES256", "ES384", "ES512"}, n \in {0, 1}, p \in {"flip_y", "flip_x", "zero", "max", "neg_y", "swap", "prime", "y0"}}
LKo(v) == IF v.pt # "on" THEN "point" ELSE IF (v.crv \in {"ED25519", "ED448"}) = (v.alg = "EDDSA") THEN "ok" ELSE "mixed"
G_keyobj == P("keyobj", KObj, LKo)

(* ---- names and base64 ---- *)
NameChars == <<97, 98, 90, 95, 49>>
Strs(S, n) == UNION {[1..k -> S] : k \in 0..n}
NameStrs == {Tup(s) : s \in Strs({97, 98, 90, 95, 49}, 5)}
LN(s) == IF SnakeDomain(s) /\ CamelDomain(s) THEN "both" ELSE IF SnakeDomain(s) THEN "snake" ELSE IF CamelDomain(s) THEN "camel" ELSE "out"
G_names == P("names", NameStrs, LN)
B64In == {Tup(s) : s \in Strs({0, 62, 63, 191, 251, 255}, 3)} \cup {Tup([i \in 1..n |-> (37 * i) % 256]) : n \in 4..70} \cup {<<n>> : n \in Byte} \cup {<<n \div 256, n % 256>> : n \in {k * 61 : k \in 0..1000}}
G_b64 == P("b64", B64In, LAMBDA s : "ok")

(* ---- values for JSON conversion ---- *)
\* tags: the harness makes the Python value; "obj" and "enum" leaves are made by it
JLeaf == {"none", "true", "false", "int", "neg", "big", "float", "text", "empty", "bytes", "nobytes", "long", "enum", "enumneg"}
JBad == {"set", "complex", "bytearray", "frozenset", "range", "decimal", "class", "iter", "memory", "date"}
JWrap == {"leaf", "list", "tuple", "dict", "list2", "obj", "dictlist", "objlist", "nested", "intkey", "nonekey", "snakekey", "byteskey", "emptylist", "emptydict", "second", "enumkey", "tuplekey", "boolkey"}
G_json == P("json", {[leaf |-> l, wrap |-> w, conv |-> c] : l \in JLeaf \cup JBad, w \in JWrap, c \in BOOLEAN},
            LAMBDA v : IF v.leaf \in JBad \/ v.wrap \in {"intkey", "nonekey", "byteskey", "enumkey", "tuplekey", "boolkey"} THEN "bad" ELSE "ok")
=============================================================================
