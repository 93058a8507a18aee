-------------------------------- MODULE Laws --------------------------------
(* The byte-level operators of the specification against each other: what is *)
(* encoded decodes to itself and nothing shorter or longer does, what should *)
(* not matter does not, equivalences are equivalences, and a stricter option *)
(* never removes a fault.  One family of cases at a time; TLC goes through   *)
(* all of them (in buckets, so that every worker has something to do).       *)
EXTENDS Cases

CONSTANT Fam
VARIABLE l_i

Rev(s) == Tup([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Same2(a, b) == a.k = b.k /\ (a.k = "ok" => Same(a.v, b.v))
Shorter(b) == {SubSeq(b, 1, n) : n \in 0..(Len(b) - 1)}
SubsSeq(n) == SetToSeq(SUBSET (1..n))

(* ---- CBOR ---- *)
Leaf == <<VNone, VBool(TRUE), VBool(FALSE), VInt(0), VInt(1), VInt(23), VInt(24), VInt(255), VInt(256), VInt(65535), VInt(65536), VInt(2147483647), VUInt(<<255, 255, 255, 255>>),
          VUInt(<<1, 0, 0, 0, 0>>), VUInt(<<255, 255, 255, 255, 255, 255, 255, 255>>), VInt(-1), VInt(-24), VInt(-25), VInt(-256), VInt(-257), VInt(-65537),
          [t |-> "int", neg |-> TRUE, mag |-> <<1, 0, 0, 0, 0>>], VBytes(<<>>), B(1), B(23), B(24), B(255), B(256), B(300), VText(<<>>), T("a"), VText(<<195, 169>>), VText(<<240, 159, 152, 128>>),
          VText(<<0>>), T("abcdefghijklmnopqrstuvwxyz"), VFloat(<<63, 248, 0, 0, 0, 0, 0, 0>>), VFloat(<<128, 0, 0, 0, 0, 0, 0, 0>>), VList(<<>>), VMap(<<>>)>>
Nest1(x) == <<VList(<<x>>), VMap(<<<<KI(1), x>>>>), VMap(<<<<T("k"), x>>, <<VBytes(<<1>>), x>>>>), VList(<<x, VNone, x>>)>>
NestAll(q) == FoldSeq(LAMBDA x, acc : acc \o Nest1(x), <<>>, q)
Nest_1(d_) == NestAll(Leaf)
Nest_2(d_) == NestAll(Nest_1(0))
PairUp(d_) == FoldSeq(LAMBDA x, acc : acc \o FoldSeq(LAMBDA y, a : Append(a, IF KeyOk(x) THEN VMap(<<<<x, y>>>>) ELSE VList(<<x, y>>)), <<>>, Leaf), <<>>, Leaf)
Q_cbor(d_) == Leaf \o Nest_1(0) \o Nest_2(0) \o PairUp(0)
L_cbor(v) ==
  With(Enc(v), LAMBDA e :
     /\ LET r == Dec(e, 1) IN r.k = "ok" /\ r.n = Len(e) + 1 /\ r.v = v
     /\ \A p \in Shorter(e) : Dec(p, 1).k = "bad"
     /\ \A s \in {<<0>>, <<255>>, e} : LET r == Dec(e \o s, 1) IN r.k = "ok" /\ r.n = Len(e) + 1 /\ r.v = v
     /\ LET r == Dec(<<99, 0>> \o e, 3) IN r.k = "ok" /\ r.n = Len(e) + 3 /\ r.v = v)
\* every string of at most two bytes, and some of three
Q_raw(d_) == SetToSeq({<<a>> : a \in Byte} \cup {<<a, b>> : a \in Byte, b \in Byte} \cup {<<a, b, c>> : a \in {24, 25, 66, 97, 98, 130, 161, 162, 249}, b \in Byte, c \in {0, 97, 246}})
Q_rawdeep(d_) == SetToSeq({<<a, b, c>> : a \in {24, 25, 26, 56, 57, 66, 67, 88, 89, 97, 98, 99, 120, 129, 130, 131, 152, 161, 162, 163, 184, 192, 216, 248, 249, 250}, b \in Byte, c \in {0, 1, 23, 24, 25, 64, 65, 95, 96, 97, 127, 128, 129, 160, 161, 191, 192, 245, 246, 247, 248, 255}})
L_raw(b) == LET r == Dec(b, 1) IN
            /\ r.k \in {"ok", "bad", "unk"}
            /\ r.k = "ok" => /\ r.n \in 2..(Len(b) + 1)
                             /\ LET q == Dec(Enc(r.v), 1) IN q.k = "ok" /\ q.v = r.v
                             /\ \A n \in 0..(r.n - 2) : Dec(SubSeq(b, 1, n), 1).k = "bad"
                             /\ Dec(SubSeq(b, 1, r.n - 1) \o <<0, 0>>, 1) = r

(* ---- keys ---- *)
Q_key(d_) == LET S == CoseCore \cup CoseEdge IN
         MapSeq(S, CoseMap) \o MapSeq(CoseOpt, CoseOptMap) \o MapSeq(CoseDrop, LAMBDA v : DropAt(CoseBases[v.b], v.i))
\* the members a key is made of
KnownPart(m, ec2) == SelectSeq(m, LAMBDA p : p[2].t # "none" /\ \E k \in {1, 2, 3, 4, 5, -1, -2, -3} : KeyIs(p[1], KI(k)) /\ (k = -3 => ec2))
L_key(m) ==
  With(ParseKey(m), LAMBDA r :
    /\ Same2(ParseKey(Rev(m)), r)
    /\ Same2(ParseKey(Append(m, <<KI(-7), VInt(1)>>)), r) /\ Same2(ParseKey(<<<<T("kty"), VInt(1)>>>> \o m), r)
    /\ LET d == Dec(Enc(VMap(m)), 1) IN d.k = "ok" /\ d.v.m = m
    /\ r.k = "ok" =>
         With(KeyMap(r.v), LAMBDA k :
           /\ SameMap(k, KnownPart(m, IsEc2(r.v)))
           /\ Same2(ParseKey(k), r)
           /\ \A i \in 1..Len(k) : KeyIs(k[i][1], KI(2)) \/ KeyIs(k[i][1], KI(4)) \/ KeyIs(k[i][1], KI(5)) \/ ParseKey(DropAt(k, i)).k = "bad")
    /\ SupportedKey(m).k = "ok" => r.k = "ok" /\ ValidKey(r.v)
    /\ (r.k = "ok" /\ ValidKey(r.v)) => SupportedKey(m).k = "ok")

(* ---- extension outputs ---- *)
Q_ext(d_) == MapSeq(ExtOne, ExtM1) \o MapSeq(ExtTwo, ExtM2) \o MapSeq(SUBSET (1..9), ExtGood)
ExtMap(x) == SelectSeq(Tup([i \in 1..Len(ExtNames) |-> <<ExtKeys[i], IF ExtNames[i] = "loc" /\ x.f.loc.t = "obj" THEN VMap(SelectSeq(
                << <<LocKeys[1], x.f.loc.f.latitude>>, <<LocKeys[2], x.f.loc.f.longitude>>, <<LocKeys[3], x.f.loc.f.altitude>>, <<LocKeys[4], x.f.loc.f.accuracy>>,
                   <<LocKeys[5], x.f.loc.f.altitude_accuracy>>, <<LocKeys[6], x.f.loc.f.heading>>, <<LocKeys[7], x.f.loc.f.speed>> >>, LAMBDA p : p[2].t # "none"))
                ELSE x.f[ExtAttr[ExtNames[i]]]>>]), LAMBDA p : p[2].t # "none")
L_ext(m) ==
  With(ParseExt(m), LAMBDA r :
    /\ Same2(ParseExt(Rev(m)), r)
    \* outputs are judged one by one
    /\ (r.k = "ok") = (\A i \in 1..Len(m) : ParseExt(<<m[i]>>).k = "ok")
    /\ ParseExt(Append(m, <<T("unknown"), VBool(TRUE)>>)).k = "bad"
    /\ r.k = "ok" =>
         /\ Same2(ParseExt(ExtMap(r.v)), r)
         /\ SameMap(ExtMap(r.v), SelectSeq(m, LAMBDA p : p[2].t # "none"))
         \* what is required is what is there
         /\ \A n \in 1..9 : ExtJudge([k |-> "some", l |-> <<ExtNames[n]>>], r.v) = (IF Get(m, ExtKeys[n]).t = "none" THEN {"ext"} ELSE {}))

(* ---- authenticator data ---- *)
Q_ad(d_) == MapSeq(AdFull, AdBody) \o MapSeq(AdCuts, LAMBDA c : SubSeq(AdBody(c[1]), 1, c[2])) \o MapSeq((0..120) \cup {255, 256, 257, 65535}, AdLie)
AttBytes(a) == a.f.aaguid.b \o <<Len(a.f.credential_id.b) \div 256, Len(a.f.credential_id.b) % 256>> \o a.f.credential_id.b \o Enc(VMap(KeyMap(a.f.credential_public_key)))
Toggle(b, k) == [b EXCEPT ![33] = IF Bit(@, k) THEN @ - 2^k ELSE @ + 2^k]
L_ad(b) ==
  With(ParseAuthData(b), LAMBDA r :
    /\ r.k = "ok" =>
       LET v == r.v.f
           att == IF v.attested_credential_data.t = "none" THEN <<>> ELSE AttBytes(v.attested_credential_data)
           rest == SubSeq(b, 38 + Len(att), Len(b))
       IN /\ SubSeq(b, 1, 37 + Len(att)) = v.rp_id_hash.b \o <<BeNat(v.flags.mag)>> \o Zeros(4 - Len(v.sign_count.mag)) \o v.sign_count.mag \o att
          /\ Len(v.rp_id_hash.b) = 32
          /\ (v.attested_credential_data.t = "obj") = Bit(b[33], FlagAT) /\ (v.extensions.t = "obj") = Bit(b[33], FlagED)
          /\ IF v.extensions.t = "none" THEN rest = <<>>
             ELSE LET d == Dec(rest, 1) IN d.k = "ok" /\ d.n = Len(rest) + 1 /\ SameMap(d.v.m, ExtMap(v.extensions))
          /\ \A p \in Shorter(b) : ParseAuthData(p).k # "ok"
          /\ \A x \in {0, 160, 246, 255} : ParseAuthData(Append(b, x)).k = "bad"
    \* the other flags and the head do not matter to the layout, these two do
    /\ Len(b) >= 37 =>
         /\ \A k \in 0..5 : LET q == ParseAuthData(Toggle(b, k)) IN
              /\ q.k = r.k
              /\ q.k = "ok" => [q.v.f EXCEPT !.flags = r.v.f.flags] = r.v.f
         /\ LET q == ParseAuthData([b EXCEPT ![1] = 255 - @, ![34] = 255 - @]) IN
              q.k = r.k /\ (q.k = "ok" => /\ [q.v.f EXCEPT !.rp_id_hash = r.v.f.rp_id_hash, !.sign_count = r.v.f.sign_count] = r.v.f
                                          /\ q.v.f.rp_id_hash # r.v.f.rp_id_hash /\ q.v.f.sign_count # r.v.f.sign_count)
         /\ r.k = "ok" => \A k \in {6, 7} : ParseAuthData(Toggle(b, k)).k # "ok")

(* ---- statements and attestation objects ---- *)
Q_stmt(d_) == MapSeq({w \in StOne : StOk(w)}, LAMBDA v : <<StBases[v[1]][1], StMap(v)>>) \o MapSeq(StCross, LAMBDA v : <<FmtTable[v[1]][1], StBases[v[2]][2]>>)
          \o MapSeq(StAlg, LAMBDA v : <<StBases[v[1]][1], Put(StBases[v[1]][2], K_alg, CAlg[v[2]])>>)
Variants == {K_x5c, K_ecdaa}
L_stmt(c) ==
  LET fmt == c[1] m == c[2] IN
  With(ParseStmt(fmt, m), LAMBDA r :
    /\ Same2(ParseStmt(fmt, Rev(m)), r)
    /\ r.k = "ok" =>
         /\ \A n \in {"x", "extra", "Sig"} : ParseStmt(fmt, Append(m, <<T(n), VInt(0)>>)).k = "bad"
         /\ \A i \in 1..Len(m) : LET q == ParseStmt(fmt, DropAt(m, i)) IN
              IF fmt \in {"PACKED", "TPM"} /\ \E k \in Variants : KeyIs(m[i][1], k) THEN q.k = "ok" /\ q.v.c # r.v.c ELSE q.k = "bad"
         /\ (fmt = "NONE") = (m = <<>>)
         /\ \A i \in 1..Len(m) : LET key == m[i][1] val == m[i][2] IN
              CASE KeyIs(key, K_sig) -> r.v.f.sig = val [] KeyIs(key, K_x5c) -> r.v.f.x5c = val [] KeyIs(key, K_alg) -> r.v.f.alg = AlgOf(val)
                [] KeyIs(key, K_ecdaa) -> r.v.f.ecdaa_key_id = val [] KeyIs(key, K_ver) -> r.v.f.ver = val [] KeyIs(key, K_cert) -> r.v.f.cert_info = val
                [] KeyIs(key, K_pub) -> r.v.f.pub_area = val [] KeyIs(key, K_resp) -> r.v.f.response = val [] OTHER -> FALSE
    \* no statement is one of two formats, but for Android key and packed with certificates (same members)
    /\ \A i \in 1..6 : LET f == FmtTable[i][1] IN
         (r.k = "ok" /\ f # fmt /\ ParseStmt(f, m).k = "ok") => {f, fmt} = {"PACKED", "ANDROID_KEY"} /\ Get(m, K_x5c).t = "list")
Q_ao(d_) == SetToSeq(AoAll)
L_ao(b) ==
  With(ParseAttObj(b), LAMBDA r :
    r.k = "ok" =>
      LET d == Dec(b, 1) IN
      /\ \A p \in Shorter(b) : ParseAttObj(p).k = "bad"
      /\ \A x \in {0, 246} : ParseAttObj(Append(b, x)).k # "ok"
      /\ Same2(ParseAttObj(Enc(VMap(Rev(d.v.m)))), r)
      /\ Same(r.v.f.auth_data, ParseAuthData(r.raw).v)
      /\ Enc(VMap(r.map)) = b
      /\ \A k \in {K_fmt, K_stmt, K_auth} : ParseAttObj(Enc(VMap(Drop(d.v.m, k)))).k = "bad")

(* ---- key descriptions ---- *)
DLen(n) == IF n < 128 THEN <<n>> ELSE IF n < 256 THEN <<129, n>> ELSE <<130, n \div 256, n % 256>>
D_(tag, c) == <<tag>> \o DLen(Len(c)) \o c
DTag(n) == IF n < 31 THEN <<160 + n>> ELSE IF n < 128 THEN <<191, n>> ELSE <<191, 128 + n \div 128, n % 128>>
DExp(n, c) == DTag(n) \o DLen(Len(c)) \o c
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
DSeq(q) == D_(48, Cat(q))
\* entries as <<tag, contents>>
KdEnt == << <<1, D_(49, <<>>)>>, <<1, D_(49, D_(2, <<2>>))>>, <<1, D_(49, D_(2, <<3>>) \o D_(2, <<2>>))>>, <<1, D_(49, D_(2, <<3>>))>>, <<2, D_(2, <<3>>)>>, <<600, D_(5, <<>>)>>,
            <<702, D_(2, <<0>>)>>, <<702, D_(2, <<1>>)>>, <<702, D_(2, <<255>>)>>, <<702, D_(2, <<0, 128>>)>>, <<705, D_(2, <<1, 0, 0, 0>>)>>, <<709, D_(4, <<1, 2>>)>> >>
\* lists: at most one entry per tag, in order
KdSets == LET ok(S) == \A i, j \in S : i < j => KdEnt[i][1] # KdEnt[j][1] IN {S \in SUBSET ({1, 2, 3, 4, 6, 7, 8, 9, 10}) : ok(S)}
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SeqOfSet(S \ {x})
KdL(S) == With(SeqOfSet(S), LAMBDA q : Tup([i \in 1..Len(q) |-> KdEnt[q[i]]]))
KdDer(ch, sw, tee) == DSeq(<<D_(2, <<3>>), D_(10, <<1>>), D_(2, <<4>>), D_(10, <<1>>), D_(4, ch), D_(4, <<>>),
                            DSeq(Tup([i \in 1..Len(sw) |-> DExp(sw[i][1], sw[i][2])])), DSeq(Tup([i \in 1..Len(tee) |-> DExp(tee[i][1], tee[i][2])]))>>)
Q_kd(d_) == SetToSeq(KdSets \X KdSets)
KdWant(sw, tee) ==
  If(6 \in sw \/ 6 \in tee, "kd_allapps") \cup If(7 \notin tee, "kd_origin") \cup If(2 \notin tee /\ 3 \notin tee, "kd_purpose")
L_kd(c) ==
  LET sw == c[1] tee == c[2] ch == <<1, 2, 3>> IN
  With(KdDer(ch, KdL(sw), KdL(tee)), LAMBDA d :
   With(ParseKD(d), LAMBDA r :
    /\ r.k = "ok" /\ r.v.challenge = ch /\ Len(r.v.sw) = Cardinality(sw) /\ Len(r.v.tee) = Cardinality(tee)
    /\ KDFaults(r.v, ch) = KdWant(sw, tee)
    /\ KDFaults(r.v, <<1, 2>>) = KdWant(sw, tee) \cup {"kd_challenge"}
    \* what software says never helps
    /\ KDFaults([r.v EXCEPT !.sw = <<>>], ch) \subseteq KDFaults(r.v, ch)
    /\ (Cardinality(sw) + Cardinality(tee) < 4) => \A p \in Shorter(d) : ParseKD(p).k = "bad"
    /\ ParseKD(Append(d, 0)).k # "ok"))

(* ---- JSON texts and client data ---- *)
RECURSIVE Render(_, _), RenderItems(_, _), RenderMembers(_, _), EscStr(_, _)
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
\* how: 0 plain, 1 with white space, 2 with every ASCII character escaped
EscStr(u, how) ==
  IF u = <<>> THEN <<>>
  ELSE LET c == u[1] IN
       (IF (how = 2 /\ c < 128) \/ c < 32 THEN <<92, 117, 48, 48, HexD(c \div 16), HexD(c % 16)>>
        ELSE IF c \in {34, 92} THEN <<92, c>> ELSE <<c>>) \o EscStr(Tail(u), how)
Sp(how) == IF how = 1 THEN <<32, 10>> ELSE <<>>
RECURSIVE DecText(_)
DecText(n) == IF n < 10 THEN <<48 + n>> ELSE DecText(n \div 10) \o <<48 + (n % 10)>>
Render(v, how) ==
  CASE v.t = "text" -> <<34>> \o EscStr(v.u, how) \o <<34>>
    [] v.t = "none" -> W_null [] v.t = "bool" -> IF v.v THEN W_true ELSE W_false
    [] v.t = "int" -> (IF v.neg THEN <<45>> ELSE <<>>) \o DecText(BeNat(v.mag))
    [] v.t = "float" -> Ascii("1.5e0")
    [] v.t = "list" -> <<91>> \o Sp(how) \o RenderItems(v.l, how) \o Sp(how) \o <<93>>
    [] v.t = "map" -> <<123>> \o Sp(how) \o RenderMembers(v.m, how) \o Sp(how) \o <<125>>
RenderItems(l, how) == IF l = <<>> THEN <<>> ELSE Render(l[1], how) \o (IF Len(l) = 1 THEN <<>> ELSE Sp(how) \o <<44>> \o Sp(how) \o RenderItems(Tail(l), how))
RenderMembers(m, how) == IF m = <<>> THEN <<>> ELSE Render(m[1][1], how) \o Sp(how) \o <<58>> \o Sp(how) \o Render(m[1][2], how)
                         \o (IF Len(m) = 1 THEN <<>> ELSE Sp(how) \o <<44>> \o Sp(how) \o RenderMembers(Tail(m), how))
\* the value parsed from a rendered one
RECURSIVE Parsed(_)
Parsed(v) == CASE v.t = "map" -> [t |-> "object", m |-> Tup([i \in 1..Len(v.m) |-> <<v.m[i][1].u, Parsed(v.m[i][2])>>])]
               [] v.t = "list" -> VList(Tup([i \in 1..Len(v.l) |-> Parsed(v.l[i])]))
               [] v.t \in {"int", "float"} -> [t |-> "num", s |-> Render(v, 0)] [] OTHER -> v
G_cd1(d_) == MapSeq(CdEdits, LAMBDA ed : CdApply(CdB, ed)) \o MapSeq(1..Len(CdTbVals), LAMBDA i : Append(CdB, <<T("tokenBinding"), CdTbVals[i]>>))
         \o MapSeq({9, 10, 15, 20} \X {e \in CdEdits : e[1] \in {"drop", "put"}}, LAMBDA v : CdApply(Append(CdB, <<T("tokenBinding"), CdTbVals[v[1]]>>), v[2]))
Q_cd(d_) == G_cd1(0)
L_cd(m) ==
  With(Render(VMap(m), 0), LAMBDA b :
   With(ParseClientData(b), LAMBDA r :
    /\ \A how \in 0..2 : LET q == ParseJson(Render(VMap(m), how)) IN q.k = "ok" /\ q.v = Parsed(VMap(m))
    /\ \A p \in Shorter(b) : ParseJson(p).k = "bad" /\ ParseClientData(p).k = "bad"
    /\ \A x \in {48, 44, 125, 123} : ParseJson(Append(b, x)).k = "bad"
    /\ ParseClientData(b \o <<32, 9, 10, 13>>) = r
    /\ Same2(ParseClientData(Render(VMap(Rev(m)), 0)), r) /\ Same2(ParseClientData(Render(VMap(m), 1)), r) /\ Same2(ParseClientData(Render(VMap(m), 2)), r)
    \* other members do not matter; of doubled members the last counts
    /\ Same2(ParseClientData(Render(VMap(Append(m, <<T("other"), VList(<<VNone>>)>>)), 0)), r)
    /\ Same2(ParseClientData(Render(VMap(<<<<T("origin"), VNone>>, <<T("type"), VNone>>, <<T("challenge"), VNone>>>> \o m), 0)),
             IF \A k \in {"origin", "type", "challenge"} : HasKey(m, T(k)) THEN r ELSE Bad("cd"))
    /\ ParseClientData(<<239, 187, 191>> \o b).k = "bad" /\ ParseClientData(b \o <<255>>).k = "bad"
    /\ r.k = "ok" => /\ r.v.f.type = Get(m, T("type")) /\ r.v.f.challenge = Get(m, T("challenge")) /\ r.v.f.origin = Get(m, T("origin"))
                     /\ (r.v.f.token_binding.t = "none") = (Get(m, T("tokenBinding")).t = "none")
                     /\ \A k \in {"origin", "type", "challenge"} : ParseClientData(Render(VMap(Drop(m, T(k))), 0)).k = "bad"))

(* ---- credential JSON ---- *)
Q_pkc(d_) == MapSeq((1..3) \X JEdits(4), LAMBDA v : JApply(Pk(PkBases[v[1]]), v[2])) \o MapSeq((1..2) \X JEdits(2), LAMBDA v : Pk(JApply(PkBases[v[1]], v[2])))
         \o MapSeq(1..Len(PkBases), LAMBDA b : Pk(PkBases[b])) \o MapSeq((1..2) \X B64T, LAMBDA v : Put(Pk(PkBases[v[1]]), P_raw, VText(v[2])))
         \o MapSeq((3..4) \X B64T, LAMBDA v : Pk(Put(PkBases[2], PkBases[2][v[1]][1], VText(v[2]))))
\* a credential as the JSON conversion sees it
ObjL(o) == [t |-> "objl", c |-> o.c,
            m |-> << <<Ascii("id"), o.f.id>>, <<Ascii("raw_id"), o.f.raw_id>>, <<Ascii("type"), o.f.type>>,
                     <<Ascii("response"), LET r == o.f.response IN [t |-> "objl", c |-> r.c,
                        m |-> << <<Ascii("client_data_JSON"), r.f.client_data_JSON>> >>
                              \o (IF r.c = "AuthenticatorAttestationResponse" THEN << <<Ascii("attestation_object"), r.f.attestation_object>> >>
                                  ELSE << <<Ascii("authenticator_data"), r.f.authenticator_data>>, <<Ascii("signature"), r.f.signature>>, <<Ascii("user_handle"), r.f.user_handle>> >>)]>> >>]
L_pkc(m) ==
  With(ParsePkc(m), LAMBDA r :
    /\ Same2(ParsePkc(Rev(m)), r)
    /\ \A n \in {"x", "raw_id", "getClientExtensionResults"} : ~HasKey(m, T(n)) => ParsePkc(Append(m, <<T(n), T("AAAA")>>)).k = "bad"
    /\ r.k = "ok" =>
         /\ LET j == Jsonify(ObjL(r.v), TRUE) IN j.k = "ok" /\ Same2(ParsePkc(j.v.m), r)
         /\ \A i \in 1..Len(m) : ParsePkc(DropAt(m, i)).k = "bad"
         /\ LET resp == Get(m, P_resp).m IN
              \A i \in 1..Len(resp) : ParsePkc(Put(m, P_resp, VMap(DropAt(resp, i)))).k = (IF KeyIs(resp[i][1], P_uh) THEN "ok" ELSE "bad")
         /\ StdB64(r.v.f.raw_id.b) = Get(m, P_raw).u)

(* ---- origins ---- *)
OSome == SetToSeq({Ascii(s \o h \o p) : s \in {"https://", "http://", "HTTPS://", "ftp://"}, h \in {"a.example", "A.Example", "b.example", "[::1]", "[0:0:0::0.0.0.1]", "[::1:1]", "", "u@a.example", "a.example@u"},
                                          p \in {"", ":443", ":80", ":0443", ":8443", ":x", ":65536", ":443/", ":65535"}})
OParsed == Tup([i \in 1..Len(OSome) |-> ParseOrigin(OSome[i])])
Q_origin(d_) == SetToSeq((1..Len(OSome)) \X (1..Len(OSome)))
OJ(a, b) == OriginJudge(<<a>>, b)
L_origin(c) ==
  LET a == OParsed[c[1]] b == OParsed[c[2]] y == SameOrigin(a, b) IN
  /\ y = SameOrigin(b, a)
  /\ c[1] = c[2] => (y = "yes") = (a.k = "ok")
  /\ y = "yes" => /\ a.scheme = b.scheme /\ a.port = b.port /\ a.host = b.host
                  /\ \A k \in 1..Len(OSome) : SameOrigin(a, OParsed[k]) = SameOrigin(b, OParsed[k])
  /\ (a.k = "bad" \/ b.k = "bad") => y = "no"
  \* an origin denotes itself, and what it denotes is one of the things it may denote
  /\ a.k = "ok" => Cardinality(a.den) = 1
  /\ (a.k = "ok" /\ b.k = "ok" /\ a.den = b.den) => y # "no"
  /\ (a.k = "unk" /\ ~a.any) => a.den # {}
  /\ (y = "no") = ("origin" \in OJ(a, b).f)
  \* more expected origins: nothing that was right becomes wrong, unless one of them is malformed
  /\ \A k \in {1, 7, 50, 100} : LET q == OriginJudge(<<a, OParsed[k]>>, b) IN
       /\ (q.f \cap {"origin"}) \subseteq OJ(a, b).f
       /\ q.f = OriginJudge(<<OParsed[k], a>>, b).f /\ ("exporigin" \in q.f) = (a.k = "bad" \/ OParsed[k].k = "bad")
  \* the default port goes without saying
  /\ (a.k = "ok" /\ ~SeqHas(SubSeq(OSome[c[1]], 8, Len(OSome[c[1]])), 58)) =>
       SameOrigin(a, ParseOrigin(OSome[c[1]] \o (IF a.scheme = O_http THEN Ascii(":80") ELSE Ascii(":443")))) = "yes"

(* ---- base64 and challenges ---- *)
Q_b64(d_) == SetToSeq({Tup(s) : s \in Strs({0, 1, 62, 63, 64, 128, 191, 251, 255}, 3)} \cup {Tup([i \in 1..n |-> (37 * i) % 256]) : n \in 4..70} \cup {<<n, m>> : n \in Byte, m \in {0, 15, 16, 240, 255}})
Near(b) == {b, Append(b, 0), Append(b, 255), <<0>> \o b} \cup (IF b = <<>> THEN {} ELSE {Tail(b), SubSeq(b, 1, Len(b) - 1), [b EXCEPT ![1] = 255 - @], [b EXCEPT ![Len(b)] = IF @ = 0 THEN 1 ELSE @ - 1]})
L_b64(b) ==
  /\ LET d == DecodeStd(StdB64(b)) IN d.k = "ok" /\ d.v = b
  /\ DecodeDigits(UrlB64NoPad(b)) = b /\ BeforePad(UrlB64(b)) = UrlB64NoPad(b) /\ Len(UrlB64(b)) % 4 = 0
  /\ \A c \in Near(b) : /\ ChallengeDenotes(UrlB64NoPad(b), c) = (IF b = c THEN "yes" ELSE "no")
                        /\ ChallengeDenotes(UrlB64(b), c) = (IF b = c THEN "yes" ELSE "no")
                        /\ (StdB64(b) = StdB64(c)) = (b = c) /\ (UrlB64NoPad(b) = UrlB64NoPad(c)) = (b = c)
  /\ \A i \in 1..Len(UrlB64NoPad(b)) : UrlB64NoPad(b)[i] \in UrlSet
  \* one text never denotes two challenges
  /\ \A x \in {65, 45, 43, 61} : \A c \in Near(b) : \A d \in Near(b) :
       (ChallengeDenotes(Append(UrlB64NoPad(b), x), c) = "yes" /\ ChallengeDenotes(Append(UrlB64NoPad(b), x), d) = "yes") => c = d

(* ---- names ---- *)
Q_names(d_) == SetToSeq(NameStrs)
L_names(s) ==
  /\ CamelDomain(s) => (s # <<>> /\ IsLower(s[1]) => SnakeDomain(ToSnake(s))) /\ ToCamel(ToSnake(s)) = s
  /\ SnakeDomain(s) => CamelDomain(ToCamel(s)) /\ ToSnake(ToCamel(s)) = s
  /\ (CamelDomain(s) /\ SnakeDomain(s)) => ToCamel(s) = s /\ ToSnake(s) = s

(* ---- JSON conversion ---- *)
JL == <<VNone, VBool(TRUE), VInt(-3), VText(<<>>), T("a_b"), VBytes(<<>>), VBytes(<<251, 255>>), VFloat(<<63, 248, 0, 0, 0, 0, 0, 0>>), VList(<<>>), VMap(<<>>),
        [t |-> "enumv", v |-> T("public-key")], [t |-> "enumv", v |-> VInt(-7)], [t |-> "objl", c |-> "X", m |-> <<>>], [t |-> "other"], [t |-> "open"]>>
JN(x) == <<x, VList(<<x>>), VList(<<T("q"), x, x>>), VMap(<<<<T("some_name"), x>>>>), VMap(<<<<T("a_b"), x>>, <<T("aB"), x>>>>), VMap(<<<<VInt(1), x>>>>),
            [t |-> "objl", c |-> "Y", m |-> <<<<Ascii("first_one"), x>>, <<Ascii("second"), T("z")>>>>]>>
Q_json(d_) == LET one == FoldSeq(LAMBDA x, acc : acc \o JN(x), <<>>, JL) IN one \o FoldSeq(LAMBDA x, acc : acc \o JN(x), <<>>, one)
RECURSIVE NoName(_), Leaves(_)
\* nothing in it is converted by name
NoName(v) == CASE v.t = "map" -> \A i \in 1..Len(v.m) : NoName(v.m[i][2]) [] v.t = "list" -> \A i \in 1..Len(v.l) : NoName(v.l[i]) [] OTHER -> v.t \notin {"objl", "enumv", "bytes"}
Leaves(v) == CASE v.t \in {"map", "objl"} -> FoldSeq(LAMBDA p, n : n + (IF p[2].t = "none" THEN 0 ELSE Leaves(p[2])), 0, v.m)
               [] v.t = "list" -> FoldSeq(LAMBDA x, n : n + Leaves(x), 0, v.l) [] OTHER -> 1
L_json(v) ==
  With2(Jsonify(v, FALSE), Jsonify(v, TRUE), LAMBDA r, q :
    /\ r.k = "ok" => /\ NoName(r.v) /\ Leaves(r.v) = Leaves(v)
                     /\ LET again == Jsonify(r.v, FALSE) IN again.k = "ok" /\ Same(again.v, r.v)
    /\ q.k = "ok" => /\ r.k = "ok" /\ Leaves(q.v) = Leaves(v)
                     /\ LET again == Jsonify(q.v, TRUE) IN again.k = "ok" /\ Same(again.v, q.v)
                     /\ LET conv == Jsonify(r.v, TRUE) IN conv.k = "ok" /\ Same(conv.v, q.v)
    /\ (r.k = "bad") = (q.k = "bad"))

(* ---- options: counters, flags, bindings, extensions ---- *)
CtB == SetToSeq({Tup(s) : s \in UNION {[1..n -> {0, 1, 127, 128, 255}] : n \in 0..2}} \cup {Tup(s) : s \in [1..4 -> {0, 128, 255}]})
Q_count(d_) == SetToSeq((1..Len(CtB)) \X (1..Len(CtB)))
Some1(b) == [k |-> "some", b |-> b]
L_count(c) ==
  LET a == CtB[c[1]] b == CtB[c[2]] IN
  /\ Cardinality({x \in {1, 2, 3} : CASE x = 1 -> BeLess(a, b) [] x = 2 -> BeLess(b, a) [] x = 3 -> BeEq(a, b)}) = 1
  /\ BeLess(a, b) = BeLess(Zeros(2) \o a, b) /\ BeLess(a, b) => ~BeEq(a, <<0>> \o b)
  /\ \A k \in {1, 5, 20, Len(CtB)} : (BeLess(a, b) /\ BeLess(b, CtB[k])) => BeLess(a, CtB[k])
  /\ (CountJudge(Some1(a), b, FALSE) = {}) = BeLess(a, b)
  /\ CountJudge(Some1(a), b, TRUE) = {} /\ CountJudge([k |-> "none"], b, FALSE) = {}
  /\ ~(CountJudge(Some1(a), b, FALSE) = {} /\ CountJudge(Some1(b), a, FALSE) = {})
  /\ BeSmall(a) => StripZeros(a) = NatBe(BeNat(a)) /\ BeDec(BeInc(a)) = StripZeros(a)
  /\ (BeSmall(a) /\ BeSmall(b)) => (BeLess(a, b) = (BeNat(a) < BeNat(b)))
ExtPick == {1, 6, 7}
ExtSome(S) == VObj("AuthenticationExtensionsClientOutputs", [a \in {ExtAttr[n] : n \in DOMAIN ExtAttr} |-> IF \E i \in S : ExtAttr[ExtNames[i]] = a THEN VBool(FALSE) ELSE VNone])
TbAll == <<[k |-> "none"]>> \o FoldSeq(LAMBDA s, acc : acc \o <<[k |-> "some", status |-> s, id |-> VNone], [k |-> "some", status |-> s, id |-> T("")], [k |-> "some", status |-> s, id |-> T("x")], [k |-> "some", status |-> s, id |-> T("xy")]>>, <<>>, <<"PRESENT", "SUPPORTED">>)
TbObj(w) == IF w.k = "none" THEN VNone ELSE VObj("TokenBinding", [status |-> VEnum("TokenBindingStatus", w.status), id |-> w.id])
Q_opts(d_) == SetToSeq(Byte \X (SUBSET ExtPick)) 
L_opts(c) ==
  LET fl == c[1] S == c[2] IN
  /\ FlagJudge(fl, FALSE) \subseteq FlagJudge(fl, TRUE)
  /\ (FlagJudge(fl, TRUE) = {}) = ((fl % 2 = 1) /\ ((fl \div 4) % 2 = 1))
  /\ (FlagJudge(fl, FALSE) = {}) = (fl % 2 = 1)
  /\ \A R \in SUBSET ExtPick : \A R2 \in SUBSET R :
       LET j(Q) == ExtJudge([k |-> "some", l |-> Tup([i \in 1..Cardinality(Q) |-> ExtNames[SeqOfSet(Q)[i]]])], ExtSome(S)) IN
       /\ j(R2) \subseteq j(R) /\ (j(R) = {}) = (R \subseteq S)
  \* each received binding satisfies exactly one expectation
  /\ LET got == TbObj(TbAll[(fl % Len(TbAll)) + 1]) IN
       {i \in 1..Len(TbAll) : TbJudge(TbAll[i], got) = {}} = {(fl % Len(TbAll)) + 1}

(* ---- resolution of credential, user and relying party ---- *)
OI == <<[k |-> "none"], [k |-> "some", id |-> <<>>, b |-> <<>>], [k |-> "some", id |-> <<1>>, b |-> <<1>>], [k |-> "some", id |-> <<2>>, b |-> <<2>>]>>
Q_res(d_) == SetToSeq((1..4) \X (1..4) \X (1..4) \X (0..4) \X (0..3))
L_res(c) ==
  LET user == OI[c[1]] uh == OI[c[2]] rp == OI[c[3]]
      store == IF c[4] = 0 THEN [k |-> "none"] ELSE [k |-> "some", user |-> <<1>>, rp |-> OI[c[4]]]
      allow == IF c[5] = 0 THEN [k |-> "none"] ELSE [k |-> "some", l |-> SubSeq(<<<<7>>, <<8>>>>, 1, c[5] - 1)]
      f == ResolveJudge(<<8>>, allow, store, user, uh, rp)
  IN /\ (f = {}) = (/\ allow.k = "none" \/ \E i \in 1..Len(allow.l) : allow.l[i] = <<8>>
                    /\ store.k = "some" /\ (user.k = "some" \/ uh.k = "some")
                    /\ (user.k = "some" => user.id = store.user) /\ (uh.k = "some" => uh.b = store.user)
                    /\ (rp.k = "some" \/ store.rp.k = "some") /\ ((rp.k = "some" /\ store.rp.k = "some") => rp.id = store.rp.id))
     \* naming the right user, party or an allow list that has the credential never hurts
     /\ f = {} => /\ ResolveJudge(<<8>>, [k |-> "some", l |-> <<<<8>>>>], store, OI[3], uh, rp) = {}
                  /\ RpInForce(store, rp).k = "some"
                  /\ ResolveJudge(<<8>>, allow, store, user, uh, [k |-> "some", id |-> RpInForce(store, rp).id]) = {}
     \* parts are judged by themselves
     /\ f \cap {"notallowed"} = ResolveJudge(<<8>>, allow, [k |-> "some", user |-> <<1>>, rp |-> [k |-> "none"]], OI[3], OI[3], OI[3])

Q == CASE Fam = "cbor" -> Q_cbor(0) [] Fam = "raw" -> Q_raw(0) [] Fam = "rawdeep" -> Q_rawdeep(0) [] Fam = "key" -> Q_key(0) [] Fam = "ext" -> Q_ext(0) [] Fam = "ad" -> Q_ad(0) [] Fam = "stmt" -> Q_stmt(0) [] Fam = "ao" -> Q_ao(0)
       [] Fam = "kd" -> Q_kd(0) [] Fam = "cd" -> Q_cd(0) [] Fam = "pkc" -> Q_pkc(0) [] Fam = "origin" -> Q_origin(0) [] Fam = "b64" -> Q_b64(0) [] Fam = "names" -> Q_names(0)
       [] Fam = "json" -> Q_json(0) [] Fam = "count" -> Q_count(0) [] Fam = "opts" -> Q_opts(0) [] Fam = "res" -> Q_res(0)
Law(v) == CASE Fam = "cbor" -> L_cbor(v) [] Fam \in {"raw", "rawdeep"} -> L_raw(v) [] Fam = "key" -> L_key(v) [] Fam = "ext" -> L_ext(v) [] Fam = "ad" -> L_ad(v) [] Fam = "stmt" -> L_stmt(v) [] Fam = "ao" -> L_ao(v)
       [] Fam = "kd" -> L_kd(v) [] Fam = "cd" -> L_cd(v) [] Fam = "pkc" -> L_pkc(v) [] Fam = "origin" -> L_origin(v) [] Fam = "b64" -> L_b64(v) [] Fam = "names" -> L_names(v)
       [] Fam = "json" -> L_json(v) [] Fam = "count" -> L_count(v) [] Fam = "opts" -> L_opts(v) [] Fam = "res" -> L_res(v)

\* -b: bucket b; n: case n
Buckets == 16
Init == l_i \in {0 - b : b \in 1..Buckets}
Next == l_i < 0 /\ \E n \in {m \in 1..Len(Q) : m % Buckets = (0 - l_i) - 1} : l_i' = n
Spec == Init /\ [][Next]_l_i
Lawful == l_i > 0 => Law(Q[l_i])
=============================================================================
