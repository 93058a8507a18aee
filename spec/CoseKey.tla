------------------------------- MODULE CoseKey -------------------------------
(* COSE credential public keys: which maps denote a key, which key, and      *)
(* which keys the library supports (RFC 8152 13.1, 13.2; WebAuthn 6.4.1).    *)
EXTENDS Cbor

KI(n) == VInt(n)                         \* integer map key

\* identifier tables: <<member name, number, text name>>
KtyTable == << <<"OKP", 1, "OKP">>, <<"EC2", 2, "EC2">>, <<"SYMMETRIC", 4, "Symmetric">> >>
AlgTable == << <<"ES256", -7, "ES256">>, <<"ES384", -35, "ES384">>, <<"ES512", -36, "ES512">>,
               <<"EDDSA", -8, "EdDSA">> >>
Ec2CrvTable == << <<"P_256", 1, "P-256">>, <<"P_384", 2, "P-384">>, <<"P_521", 3, "P-521">> >>
OkpCrvTable == << <<"ED25519", 6, "Ed25519">>, <<"ED448", 7, "Ed448">> >>
OpTable == << <<"SIGN", 1, "sign">>, <<"VERIFY", 2, "verify">>, <<"ENCRYPT", 3, "encrypt">>,
              <<"DECRYPT", 4, "decrypt">>, <<"WRAP_KEY", 5, "wrap key">>,
              <<"UNWRAP_KEY", 6, "unwrap key">>, <<"DERIVE_KEY", 7, "derive key">>,
              <<"DERIVE_BITS", 8, "derive bits">>, <<"MAC_CREATE", 9, "MAC create">>,
              <<"MAC_VERIFY", 10, "MAC verify">> >>
CrvLen == [P_256 |-> 32, P_384 |-> 48, P_521 |-> 66, ED25519 |-> 32, ED448 |-> 57]

\* the enumeration member an integer or text value denotes in a table, or VNone
Lookup(enum, table, v) ==
  IF v.t = "int" THEN
     LET S == {i \in 1..Len(table) : VInt(table[i][2]) = v} IN
     IF S = {} THEN VNone ELSE VEnum(enum \o ".Value", table[CHOOSE i \in S : TRUE][1])
  ELSE IF v.t = "text" THEN
     LET S == {i \in 1..Len(table) : Ascii(table[i][3]) = v.u} IN
     IF S = {} THEN VNone ELSE VEnum(enum \o ".Name", table[CHOOSE i \in S : TRUE][1])
  ELSE VNone
KtyOf(v) == Lookup("COSEKeyType", KtyTable, v)
AlgOf(v) == Lookup("COSEAlgorithmIdentifier", AlgTable, v)
Ec2CrvOf(v) == Lookup("EC2Curve", Ec2CrvTable, v)
OkpCrvOf(v) == Lookup("OKPCurve", OkpCrvTable, v)
OpOf(v) == Lookup("COSEKeyOperation", OpTable, v)

OptBytesOk(v) == v.t = "none" \/ v.t = "bytes"
OpsOk(v) == v.t = "none" \/ (v.t = "list" /\ Len(v.l) > 0 /\
                             \A i \in 1..Len(v.l) : OpOf(v.l[i]).t = "enum")
OpsVal(v) == IF v.t = "none" THEN VNone ELSE VList(Tup([i \in 1..Len(v.l) |-> OpOf(v.l[i])]))

\* labels are integers or text strings
LabelsOk(m) == \A i \in 1..Len(m) : m[i][1].t \in {"int", "text"}
\* the key a map denotes: Ok(object) | Bad
ParseKey(m) ==
  LET kty == KtyOf(Get(m, KI(1)))
      kid == Get(m, KI(2))
      alg == AlgOf(Get(m, KI(3)))
      ops == Get(m, KI(4))
      iv == Get(m, KI(5))
      crv == Get(m, KI(-1))
      x == Get(m, KI(-2))
      y == Get(m, KI(-3))
      common == alg.t = "enum" /\ OptBytesOk(kid) /\ OpsOk(ops) /\ OptBytesOk(iv) /\ x.t = "bytes"
  IN IF kty.t # "enum" \/ ~common \/ ~LabelsOk(m) THEN Bad("key")
     ELSE IF kty.n = "EC2" THEN
       LET c == Ec2CrvOf(crv) IN
       IF c.t = "enum" /\ y.t = "bytes" /\ Len(x.b) = CrvLen[c.n] /\ Len(y.b) = CrvLen[c.n]
       THEN Ok(VObj("EC2CredentialPublicKey",
               [kty |-> kty, kid |-> kid, alg |-> alg, key_ops |-> OpsVal(ops), base_IV |-> iv,
                crv |-> c, x |-> x, y |-> y]))
       ELSE Bad("key")
     ELSE IF kty.n = "OKP" THEN
       LET c == OkpCrvOf(crv) IN
       IF c.t = "enum" /\ Len(x.b) = CrvLen[c.n]
       THEN Ok(VObj("OKPCredentialPublicKey",
               [kty |-> kty, kid |-> kid, alg |-> alg, key_ops |-> OpsVal(ops), base_IV |-> iv,
                crv |-> c, x |-> x]))
       ELSE Bad("key")
     ELSE Bad("key")

IsEc2(key) == key.c = "EC2CredentialPublicKey"
\* curve and algorithm belong to the key type
ValidKey(key) ==
  IF IsEc2(key) THEN key.f.alg.t = "enum" /\ key.f.alg.n \in {"ES256", "ES384", "ES512"}
                     /\ key.f.crv.n \in {"P_256", "P_384", "P_521"}
  ELSE key.f.alg.t = "enum" /\ key.f.alg.n = "EDDSA" /\ key.f.crv.n \in {"ED25519", "ED448"}
SupportedKey(m) == LET r == ParseKey(m) IN
                   IF r.k = "ok" /\ ~ValidKey(r.v) THEN Bad("key") ELSE r

(* ---- encoding: the map of a key object (C17) ---- *)
RECURSIVE NumberIn(_, _, _), NameIn(_, _, _)
NumberIn(table, n, i) == IF table[i][1] = n THEN table[i][2] ELSE NumberIn(table, n, i + 1)
NameIn(table, n, i) == IF table[i][1] = n THEN table[i][3] ELSE NameIn(table, n, i + 1)
Unlookup(table, e) ==
  IF e.e \in {"COSEKeyType.Value", "COSEAlgorithmIdentifier.Value", "EC2Curve.Value",
              "OKPCurve.Value", "COSEKeyOperation.Value"}
  THEN VInt(NumberIn(table, e.n, 1)) ELSE TextKey(NameIn(table, e.n, 1))
\* the exact set of members, as a sequence of <<key, value>> pairs
KeyMap(key) ==
  LET f == key.f IN
  << <<KI(1), Unlookup(KtyTable, f.kty)>> >>
  \o (IF f.kid.t = "none" THEN <<>> ELSE << <<KI(2), f.kid>> >>)
  \o << <<KI(3), Unlookup(AlgTable, f.alg)>> >>
  \o (IF f.key_ops.t = "none" THEN <<>>
      ELSE << <<KI(4), VList([i \in 1..Len(f.key_ops.l) |-> Unlookup(OpTable, f.key_ops.l[i])])>> >>)
  \o (IF f.base_IV.t = "none" THEN <<>> ELSE << <<KI(5), f.base_IV>> >>)
  \o << <<KI(-1), Unlookup(IF IsEc2(key) THEN Ec2CrvTable ELSE OkpCrvTable, f.crv)>>,
        <<KI(-2), f.x>> >>
  \o (IF IsEc2(key) THEN << <<KI(-3), f.y>> >> ELSE <<>>)
\* same pairs in any order
SameMap(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) :
                    KeyIs(a[i][1], b[j][1]) /\ a[i][2].t = b[j][2].t /\ a[i][2] = b[j][2]
=============================================================================
