------------------------------ MODULE AuthData ------------------------------
(* Authenticator data (WebAuthn 6.1) and extension outputs (10).             *)
EXTENDS CoseKey

ExtNames == <<"appid", "txAuthSimple", "txAuthGeneric", "authnSel", "exts", "uvi", "loc", "uvm",
              "biometricPerfBounds">>
LocNames == <<"latitude", "longitude", "altitude", "accuracy", "altitudeAccuracy", "heading", "speed">>
ExtKeys == Tup([i \in 1..Len(ExtNames) |-> TextKey(ExtNames[i])])
LocKeys == Tup([i \in 1..Len(LocNames) |-> TextKey(LocNames[i])])

ListOf(v, P(_)) == v.t = "list" /\ \A i \in 1..Len(v.l) : P(v.l[i])
IsT(v, ty) == v.t = "none" \/ v.t = ty
IsInt(v) == v.t = "int"
IsText(v) == v.t = "text"
IsIntList(v) == ListOf(v, IsInt)
LocOk(v) == v.t = "map" /\ OnlyKeys(v.m, LocKeys)
            /\ \A i \in 1..Len(v.m) : v.m[i][2].t \in {"int", "float"}
LocVal(v) == VObj("Coordinates",
   [latitude |-> Get(v.m, LocKeys[1]), longitude |-> Get(v.m, LocKeys[2]),
    altitude |-> Get(v.m, LocKeys[3]), accuracy |-> Get(v.m, LocKeys[4]),
    altitude_accuracy |-> Get(v.m, LocKeys[5]), heading |-> Get(v.m, LocKeys[6]),
    speed |-> Get(v.m, LocKeys[7])])

ParseExt(m) ==
  LET g(i) == Get(m, ExtKeys[i])
      okAll == /\ OnlyKeys(m, ExtKeys)
               /\ IsT(g(1), "bool") /\ IsT(g(2), "text") /\ IsT(g(3), "bytes") /\ IsT(g(4), "bool")
               /\ (g(5).t = "none" \/ ListOf(g(5), IsText))
               /\ IsT(g(6), "bytes")
               /\ (g(7).t = "none" \/ LocOk(g(7)))
               /\ (g(8).t = "none" \/ ListOf(g(8), IsIntList))
               /\ IsT(g(9), "bool")
  IN IF okAll
     THEN Ok(VObj("AuthenticationExtensionsClientOutputs",
          [appid |-> g(1), tx_auth_simple |-> g(2), tx_auth_generic |-> g(3), authn_sel |-> g(4),
           exts |-> g(5), uvi |-> g(6), loc |-> IF g(7).t = "none" THEN VNone ELSE LocVal(g(7)),
           uvm |-> g(8), biometric_perf_bounds |-> g(9)]))
     ELSE Bad("ext")

FlagUP == 0  FlagUV == 2  FlagAT == 6  FlagED == 7      \* bit numbers

\* attested credential data starting at byte 38: Ok with v and n (next index)
ParseAttested(b) ==
  IF Len(b) < 37 + 18 THEN Bad("layout")
  ELSE LET idlen == b[54] * 256 + b[55] IN
    IF Len(b) < 55 + idlen THEN Bad("layout")
    ELSE LET r == Dec(b, 56 + idlen) IN
      IF r.k = "bad" THEN Bad("keycbor")
      ELSE IF r.k = "unk" THEN Unk
      ELSE IF r.v.t # "map" THEN Bad("key")
      ELSE LET key == SupportedKey(r.v.m) IN
        IF key.k # "ok" THEN key
        ELSE [k |-> "ok", n |-> r.n,
              v |-> VObj("AttestedCredentialData",
                    [aaguid |-> VBytes(Slice(b, 38, 16)), credential_id_length |-> VNat(idlen),
                     credential_id |-> VBytes(Slice(b, 56, idlen)),
                     credential_public_key |-> key.v])]

ParseAuthData(b) ==
  IF Len(b) < 37 THEN Bad("layout")
  ELSE LET flags == b[33]
           at == IF Bit(flags, FlagAT) THEN ParseAttested(b)
                 ELSE [k |-> "ok", v |-> VNone, n |-> 38]
       IN IF at.k # "ok" THEN at
          ELSE LET ed == IF Bit(flags, FlagED)
                         THEN LET r == Dec(b, at.n) IN
                              IF r.k = "bad" THEN Bad("extcbor")
                              ELSE IF r.k = "unk" THEN Unk
                              ELSE IF r.v.t # "map" THEN Bad("ext")
                              ELSE LET x == ParseExt(r.v.m) IN
                                   IF x.k # "ok" THEN x ELSE [k |-> "ok", v |-> x.v, n |-> r.n]
                         ELSE [k |-> "ok", v |-> VNone, n |-> at.n]
               IN IF ed.k # "ok" THEN ed
                  ELSE IF ed.n # Len(b) + 1 THEN Bad("layout")
                  ELSE Ok(VObj("AuthenticatorData",
                       [rp_id_hash |-> VBytes(SubSeq(b, 1, 32)), flags |-> VNat(flags),
                        sign_count |-> VUInt(SubSeq(b, 34, 37)),
                        attested_credential_data |-> at.v, extensions |-> ed.v]))
=============================================================================
