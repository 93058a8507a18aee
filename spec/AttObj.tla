------------------------------- MODULE AttObj -------------------------------
(* Attestation objects and statements (WebAuthn 6.4, 8).                     *)
EXTENDS AuthData

FmtTable == << <<"PACKED", "packed">>, <<"TPM", "tpm">>, <<"ANDROID_KEY", "android-key">>,
               <<"ANDROID_SAFETYNET", "android-safetynet">>, <<"FIDO_U2F", "fido-u2f">>,
               <<"NONE", "none">> >>
FmtOf(v) == IF v.t # "text" THEN VNone
            ELSE LET S == {i \in 1..Len(FmtTable) : Ascii(FmtTable[i][2]) = v.u} IN
                 IF S = {} THEN VNone
                 ELSE VEnum("AttestationStatementFormatIdentifier", FmtTable[CHOOSE i \in S : TRUE][1])

K_alg == TextKey("alg")  K_sig == TextKey("sig")  K_x5c == TextKey("x5c")
K_ecdaa == TextKey("ecdaaKeyId")  K_ver == TextKey("ver")  K_cert == TextKey("certInfo")
K_pub == TextKey("pubArea")  K_resp == TextKey("response")
K_auth == TextKey("authData")  K_fmt == TextKey("fmt")  K_stmt == TextKey("attStmt")

IsBytes(v) == v.t = "bytes"
X5cOk(v) == ListOf(v, IsBytes)
StmtBad == Bad("stmt")

ParseStmt(fmt, m) ==
  LET alg == AlgOf(Get(m, K_alg))
      sig == Get(m, K_sig)
      x5c == Get(m, K_x5c)
      ecd == Get(m, K_ecdaa)
      ver == Get(m, K_ver)
      cert == Get(m, K_cert)
      pub == Get(m, K_pub)
      resp == Get(m, K_resp)
      algsig == alg.t = "enum" /\ sig.t = "bytes"
      hasX == HasKey(m, K_x5c)
      hasE == HasKey(m, K_ecdaa)
  IN
  CASE fmt = "PACKED" ->
        IF ~algsig THEN StmtBad
        ELSE IF hasX THEN IF OnlyKeys(m, <<K_alg, K_sig, K_x5c>>) /\ X5cOk(x5c)
                          THEN Ok(VObj("PackedX509AttestationStatement", [alg |-> alg, sig |-> sig, x5c |-> x5c]))
                          ELSE StmtBad
        ELSE IF hasE THEN IF OnlyKeys(m, <<K_alg, K_sig, K_ecdaa>>) /\ ecd.t = "bytes"
                          THEN Ok(VObj("PackedECDAAAttestationStatement", [alg |-> alg, sig |-> sig, ecdaa_key_id |-> ecd]))
                          ELSE StmtBad
        ELSE IF OnlyKeys(m, <<K_alg, K_sig>>)
             THEN Ok(VObj("PackedAttestationStatement", [alg |-> alg, sig |-> sig])) ELSE StmtBad
    [] fmt = "TPM" ->
        IF ~algsig \/ ver.t # "text" \/ cert.t # "bytes" \/ pub.t # "bytes" THEN StmtBad
        ELSE IF hasX THEN IF OnlyKeys(m, <<K_alg, K_sig, K_ver, K_cert, K_pub, K_x5c>>) /\ X5cOk(x5c)
                          THEN Ok(VObj("TPMX509AttestationStatement",
                                [alg |-> alg, sig |-> sig, ver |-> ver, cert_info |-> cert, pub_area |-> pub, x5c |-> x5c]))
                          ELSE StmtBad
        ELSE IF hasE THEN IF OnlyKeys(m, <<K_alg, K_sig, K_ver, K_cert, K_pub, K_ecdaa>>) /\ ecd.t = "bytes"
                          THEN Ok(VObj("TPMECDAAAttestationStatement",
                                [alg |-> alg, sig |-> sig, ver |-> ver, cert_info |-> cert, pub_area |-> pub, ecdaa_key_id |-> ecd]))
                          ELSE StmtBad
        ELSE IF OnlyKeys(m, <<K_alg, K_sig, K_ver, K_cert, K_pub>>)
             THEN Ok(VObj("TPMAttestationStatement",
                  [alg |-> alg, sig |-> sig, ver |-> ver, cert_info |-> cert, pub_area |-> pub]))
             ELSE StmtBad
    [] fmt = "ANDROID_KEY" ->
        IF algsig /\ X5cOk(x5c) /\ OnlyKeys(m, <<K_alg, K_sig, K_x5c>>)
        THEN Ok(VObj("AndroidKeyAttestationStatement", [alg |-> alg, sig |-> sig, x5c |-> x5c])) ELSE StmtBad
    [] fmt = "ANDROID_SAFETYNET" ->
        IF ver.t = "text" /\ resp.t = "bytes" /\ OnlyKeys(m, <<K_ver, K_resp>>)
        THEN Ok(VObj("AndroidSafetyNetAttestationStatement",
             [alg |-> VNone, sig |-> VNone, ver |-> ver, response |-> resp])) ELSE StmtBad
    [] fmt = "FIDO_U2F" ->
        IF sig.t = "bytes" /\ X5cOk(x5c) /\ OnlyKeys(m, <<K_sig, K_x5c>>)
        THEN Ok(VObj("FIDOU2FAttestationStatement", [alg |-> VNone, sig |-> sig, x5c |-> x5c])) ELSE StmtBad
    [] fmt = "NONE" ->
        IF m = <<>> THEN Ok(VObj("NoneAttestationStatement", [alg |-> VNone, sig |-> VNone])) ELSE StmtBad

\* Ok(object) with raw authenticator data and raw map | Bad(why) | Unk
ParseAttObj(b) ==
  LET r == Dec(b, 1) IN
  IF r.k = "bad" THEN Bad("objcbor") ELSE IF r.k = "unk" THEN Unk
  ELSE IF r.v.t # "map" THEN Bad("obj")
  ELSE LET m == r.v.m
           fmt == FmtOf(Get(m, K_fmt))
           ad == Get(m, K_auth)
           st == Get(m, K_stmt)
       IN IF fmt.t # "enum" THEN Bad("fmt")
          ELSE IF ad.t # "bytes" \/ st.t # "map" THEN Bad("obj")
          ELSE LET a == ParseAuthData(ad.b)
                   s == ParseStmt(fmt.n, st.m)
               IN IF a.k = "bad" THEN a
                  ELSE IF s.k = "bad" THEN s
                  ELSE IF a.k = "unk" \/ r.n # Len(b) + 1 THEN Unk
                  ELSE [k |-> "ok", raw |-> ad.b, map |-> m,
                        v |-> VObj("AttestationObject",
                              [auth_data |-> a.v, fmt |-> fmt, att_stmt |-> s.v])]
=============================================================================
