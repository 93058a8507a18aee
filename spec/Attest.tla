------------------------------- MODULE Attest -------------------------------
(* Attestation verification (WebAuthn 8.4, 8.6, 8.7) over facts about        *)
(* certificates and signatures that the harness created itself.              *)
EXTENDS AttObj

(* ---- DER ---- *)
\* tag number in high form starting at i: [tag, n]
RECURSIVE HighTag(_, _, _)
HighTag(b, i, acc) == IF i > Len(b) \/ acc > 100000 THEN [tag |-> -1, n |-> i]
                      ELSE IF b[i] >= 128 THEN HighTag(b, i + 1, acc * 128 + (b[i] - 128))
                      ELSE [tag |-> acc * 128 + b[i], n |-> i + 1]
Tlv(b, i) ==
  IF i > Len(b) THEN [k |-> "bad"]
  ELSE LET low == b[i] % 32
           th == IF low = 31 THEN HighTag(b, i + 1, 0) ELSE [tag |-> low, n |-> i + 1]
       IN IF th.tag < 0 \/ th.n > Len(b) THEN [k |-> "bad"]
          ELSE LET l == b[th.n]
                   nb == IF l < 128 THEN 0 ELSE l - 128
                   raw == SubSeq(b, th.n + 1, th.n + nb)
               IN IF l = 128 \/ th.n + nb > Len(b) \/ ~BeSmall(raw) THEN [k |-> "bad"]
                  ELSE LET len == IF l < 128 THEN l ELSE BeNat(raw)
                           s == th.n + nb + 1
                       IN IF s + len - 1 > Len(b) THEN [k |-> "bad"]
                          ELSE [k |-> "ok", cls |-> b[i] \div 64, cons |-> (b[i] \div 32) % 2 = 1,
                                tag |-> th.tag, c |-> Slice(b, s, len), n |-> s + len]
RECURSIVE Tlvs(_, _, _)
Tlvs(b, i, acc) == IF i = Len(b) + 1 THEN [k |-> "ok", l |-> acc]
                   ELSE LET r == Tlv(b, i) IN IF r.k # "ok" THEN [k |-> "bad"]
                        ELSE Tlvs(b, r.n, Append(acc, r))
IsPrim(t, tag) == t.cls = 0 /\ ~t.cons /\ t.tag = tag
IsCons(t, tag) == t.cls = 0 /\ t.cons /\ t.tag = tag
IntOk(t) == IsPrim(t, 2) /\ Len(t.c) > 0

\* Keymaster authorization tags and their content types
AuthTags == << <<1, "set">>, <<2, "int">>, <<3, "int">>, <<5, "set">>, <<6, "set">>, <<10, "int">>,
  <<200, "int">>, <<303, "null">>, <<400, "int">>, <<401, "int">>, <<402, "int">>, <<503, "null">>,
  <<504, "int">>, <<505, "int">>, <<506, "null">>, <<507, "null">>, <<508, "null">>, <<509, "null">>,
  <<600, "null">>, <<601, "oct">>, <<701, "int">>, <<702, "int">>, <<703, "null">>, <<704, "rot">>,
  <<705, "int">>, <<706, "int">>, <<709, "oct">>, <<710, "oct">>, <<711, "oct">>, <<712, "oct">>,
  <<713, "oct">>, <<714, "oct">>, <<715, "oct">>, <<716, "oct">>, <<717, "oct">>, <<718, "int">>,
  <<719, "int">> >>
TagType(n) == LET S == {i \in 1..Len(AuthTags) : AuthTags[i][1] = n} IN
              IF S = {} THEN "none" ELSE AuthTags[CHOOSE i \in S : TRUE][2]
EntryOk(t) ==
  t.cls = 2 /\ t.cons /\
  LET in == Tlvs(t.c, 1, <<>>) ty == TagType(t.tag) IN
  in.k = "ok" /\ Len(in.l) = 1 /\
  LET v == in.l[1] IN
  CASE ty = "int" -> IntOk(v)
    [] ty = "null" -> IsPrim(v, 5) /\ v.c = <<>>
    [] ty = "oct" -> IsPrim(v, 4)
    [] ty = "set" -> IsCons(v, 17) /\ LET q == Tlvs(v.c, 1, <<>>) IN
                       q.k = "ok" /\ \A i \in 1..Len(q.l) : IntOk(q.l[i])
    [] ty = "rot" -> IsCons(v, 16) /\ LET q == Tlvs(v.c, 1, <<>>) IN
                       q.k = "ok" /\ Len(q.l) = 4 /\ IsPrim(q.l[1], 4) /\ IsPrim(q.l[2], 1) /\ Len(q.l[2].c) = 1
                       /\ IsPrim(q.l[3], 10) /\ Len(q.l[3].c) = 1 /\ IsPrim(q.l[4], 4)
    [] OTHER -> FALSE
ListOk(t) == IsCons(t, 16) /\
  LET q == Tlvs(t.c, 1, <<>>) IN
  q.k = "ok" /\ (\A i \in 1..Len(q.l) : EntryOk(q.l[i]))
  /\ \A i \in 1..(Len(q.l) - 1) : q.l[i].tag < q.l[i+1].tag
Entries(t) == Tlvs(t.c, 1, <<>>).l
HasEntry(es, n) == \E i \in 1..Len(es) : es[i].tag = n
EntryTlv(es, n) == Tlv(es[CHOOSE i \in 1..Len(es) : es[i].tag = n].c, 1)

\* key description: Ok([challenge, sw, tee]) | Bad | Unk (not in the fragment)
ParseKD(b) ==
  LET top == Tlv(b, 1) IN
  IF top.k # "ok" THEN Bad("kd")
  ELSE IF ~IsCons(top, 16) THEN Bad("kd")
  ELSE IF top.n # Len(b) + 1 THEN Unk
  ELSE LET q == Tlvs(top.c, 1, <<>>) IN
    IF q.k # "ok" \/ Len(q.l) # 8 THEN (IF q.k = "ok" /\ Len(q.l) < 8 THEN Bad("kd") ELSE Unk)
    ELSE LET l == q.l IN
      IF IntOk(l[1]) /\ IsPrim(l[2], 10) /\ Len(l[2].c) = 1 /\ l[2].c[1] < 3 /\ IntOk(l[3]) /\ IsPrim(l[4], 10)
         /\ Len(l[4].c) = 1 /\ l[4].c[1] < 3 /\ IsPrim(l[5], 4) /\ IsPrim(l[6], 4) /\ ListOk(l[7]) /\ ListOk(l[8])
      THEN Ok([challenge |-> l[5].c, sw |-> Entries(l[7]), tee |-> Entries(l[8])])
      ELSE Unk

T_purpose == 1  T_allApps == 600  T_origin == 702
OriginGenerated == 0  PurposeSign == 2
IntIs(t, n) == Len(t.c) > 0 /\ t.c[1] < 128 /\ StripZeros(t.c) = NatBe(n)
PurposeHas(t, n) == \E i \in 1..Len(Tlvs(t.c, 1, <<>>).l) : IntIs(Tlvs(t.c, 1, <<>>).l[i], n)
\* what is wrong with a decoded key description
KDFaults(kd, cdh) ==
  (IF kd.challenge # cdh THEN {"kd_challenge"} ELSE {})
  \cup (IF HasEntry(kd.sw, T_allApps) \/ HasEntry(kd.tee, T_allApps) THEN {"kd_allapps"} ELSE {})
  \cup (IF ~HasEntry(kd.tee, T_origin) \/ ~IntIs(EntryTlv(kd.tee, T_origin), OriginGenerated)
        THEN {"kd_origin"} ELSE {})
  \cup (IF ~HasEntry(kd.tee, T_purpose) \/ ~PurposeHas(EntryTlv(kd.tee, T_purpose), PurposeSign)
        THEN {"kd_purpose"} ELSE {})

(* ---- facts ---- *)
\* sigs: sequence of [crv, x, y, h, msg, sig] signatures that exist; y = <<>> for EdDSA
SigFact(sigs, crv, x, y, h, msg, sig) ==
  \E i \in 1..Len(sigs) : sigs[i].crv = crv /\ sigs[i].h = h /\ sigs[i].sig = sig
                          /\ sigs[i].x = x /\ sigs[i].y = y /\ sigs[i].msg = msg
\* certs: sequence of [der, ok, kind, crv, x, y, ext], ext = [k |-> "none"] or [k |-> "some", b]
HasCert(certs, der) == \E i \in 1..Len(certs) : certs[i].der = der
CertOf(certs, der) == certs[CHOOSE i \in 1..Len(certs) : certs[i].der = der]
\* points: sequence of [crv, x, y, on]: is the point on the curve?  OKP coordinates always decode
PointBad(points, key) == IsEc2(key) /\ \E i \in 1..Len(points) :
    points[i].crv = key.f.crv.n /\ points[i].x = key.f.x.b /\ points[i].y = key.f.y.b /\ ~points[i].on
\* nobody said whether it is on the curve
PointOpen(points, key) == IsEc2(key) /\ ~\E i \in 1..Len(points) :
    points[i].crv = key.f.crv.n /\ points[i].x = key.f.x.b /\ points[i].y = key.f.y.b

\* verdict: [f |-> definite faults, u |-> undecided ones, type, path]
AttRes(f, u, type, path) == [f |-> f, u |-> u, type |-> type, path |-> path]

U2F(stmt, ad, cdh, sigs, certs) ==
  LET x5c == stmt.f.x5c.l
      key == ad.f.attested_credential_data.f.credential_public_key
      keyOk == IsEc2(key) /\ key.f.crv.n = "P_256"
  IN IF Len(x5c) # 1 THEN AttRes({"u2f_x5c"}, {}, "", <<>>)
     ELSE LET der == x5c[1].b IN
       IF ~HasCert(certs, der) THEN AttRes(IF keyOk THEN {} ELSE {"u2f_key"}, {"u2f_cert"}, "BASIC", <<der>>)
       ELSE LET c == CertOf(certs, der)
                certOk == c.ok /\ c.kind = "ec" /\ c.crv = "P_256"
                msg == <<0>> \o ad.f.rp_id_hash.b \o cdh \o ad.f.attested_credential_data.f.credential_id.b
                       \o <<4>> \o key.f.x.b \o (IF IsEc2(key) THEN key.f.y.b ELSE <<>>)
            IN AttRes((IF certOk THEN {} ELSE {"u2f_cert"})
                      \cup (IF keyOk THEN {} ELSE {"u2f_key"})
                      \cup (IF certOk /\ ~SigFact(sigs, "P_256", c.x, c.y, "ES256", msg, stmt.f.sig.b)
                            THEN {"u2f_sig"} ELSE {}),
                      {}, "BASIC", <<der>>)

AndroidKey(stmt, ad, raw, cdh, sigs, certs, points) ==
  LET x5c == stmt.f.x5c.l
      key == ad.f.attested_credential_data.f.credential_public_key
      alg == stmt.f.alg.n
      pb == IF PointBad(points, key) THEN {"ak_point"} ELSE {}
      pu == IF PointOpen(points, key) THEN {"ak_point"} ELSE {}
  IN IF Len(x5c) = 0 THEN AttRes({"ak_x5c"} \cup pb, pu, "", <<>>)
     ELSE LET der == x5c[1].b IN
       IF ~HasCert(certs, der) THEN AttRes(pb, {"ak_cert"} \cup pu, "BASIC", <<der>>)
       ELSE LET c == CertOf(certs, der) IN
         IF ~c.ok \/ c.kind \notin {"ec", "ed"} THEN AttRes({"ak_cert"} \cup pb, pu, "", <<>>)
         ELSE LET msg == raw \o cdh
                  same == key.f.crv.n = c.crv /\ key.f.x.b = c.x /\ (IsEc2(key) => key.f.y.b = c.y)
                  h == IF c.kind = "ed" THEN "EDDSA" ELSE alg
                  sigOk == SigFact(sigs, c.crv, c.x, c.y, h, msg, stmt.f.sig.b)
                  kd == IF c.ext.k = "none" THEN Bad("kd") ELSE ParseKD(c.ext.b)
              IN AttRes(pb \cup (IF same THEN {} ELSE {"ak_key"})
                        \cup (IF sigOk THEN {} ELSE {"ak_sig"})
                        \cup (IF c.ext.k = "none" THEN {"ak_ext"} ELSE IF kd.k = "bad" THEN {"kd_der"}
                              ELSE IF kd.k = "ok" THEN KDFaults(kd.v, cdh) ELSE {}),
                        pu \cup (IF c.kind = "ed" /\ alg # "EDDSA" THEN {"ak_sig"} ELSE {})
                        \cup (IF c.ext.k = "some" /\ kd.k = "unk" THEN {"kd_der"} ELSE {}),
                        "BASIC", <<der>>)

Attestation(fmt, stmt, ad, raw, cdh, sigs, certs, points) ==
  IF ad.f.attested_credential_data.t = "none" THEN AttRes({"noattcred"}, {}, "", <<>>)
  ELSE CASE fmt = "NONE" -> AttRes({}, {}, "NONE", <<>>)
    [] fmt = "FIDO_U2F" -> U2F(stmt, ad, cdh, sigs, certs)
    [] fmt = "ANDROID_KEY" -> AndroidKey(stmt, ad, raw, cdh, sigs, certs, points)
    [] OTHER -> AttRes({"fmt_unsupported"}, {}, "", <<>>)
=============================================================================
