-------------------------------- MODULE Data --------------------------------
(* The remaining data mappings: credential JSON (5.1), JSON conversion of    *)
(* options and credentials, names.                                           *)
EXTENDS Ceremony

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
Up(c) == IF IsLower(c) THEN c - 32 ELSE c
Low(c) == IF IsUpper(c) THEN c + 32 ELSE c
Underscore == 95

\* snake_case -> camelCase: runs of underscores vanish, the letter after one is raised
RECURSIVE Snake2Camel(_, _, _, _)
Snake2Camel(s, i, raise, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = Underscore THEN Snake2Camel(s, i + 1, acc # <<>>, acc)
  ELSE Snake2Camel(s, i + 1, FALSE, Append(acc, IF raise THEN Up(s[i]) ELSE s[i]))
ToCamel(s) == Snake2Camel(s, 1, FALSE, <<>>)
RECURSIVE Camel2Snake(_, _, _)
Camel2Snake(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE Camel2Snake(s, i + 1, IF IsUpper(s[i]) THEN acc \o <<Underscore, Low(s[i])>> ELSE Append(acc, s[i]))
ToSnake(s) == Camel2Snake(s, 1, <<>>)
AsciiAll(s) == \A i \in 1..Len(s) : s[i] < 128
\* lower camel: letters and digits, first not a capital
CamelDomain(s) == /\ \A i \in 1..Len(s) : IsUpper(s[i]) \/ IsLower(s[i]) \/ (s[i] >= 48 /\ s[i] <= 57)
                  /\ (s # <<>> => ~IsUpper(s[1]))
\* names of letters, digits and underscores: all of them convert to camel case
NameDomain(s) == \A i \in 1..Len(s) : IsUpper(s[i]) \/ IsLower(s[i]) \/ (s[i] >= 48 /\ s[i] <= 57) \/ s[i] = Underscore
\* canonical snake names: lower-case words, each but the first starting with a letter
SnakeDomain(s) == /\ \A i \in 1..Len(s) : IsLower(s[i]) \/ (s[i] >= 48 /\ s[i] <= 57) \/ s[i] = Underscore
                  /\ (s # <<>> => IsLower(s[1]))
                  /\ \A i \in 1..Len(s) : s[i] = Underscore => i < Len(s) /\ IsLower(s[i+1])

(* ---- credential JSON ---- *)
P_id == TextKey("id") P_raw == TextKey("rawId") P_resp == TextKey("response") P_type == TextKey("type")
P_cd == TextKey("clientDataJSON") P_ao == TextKey("attestationObject")
P_ad == TextKey("authenticatorData") P_sig == TextKey("signature") P_uh == TextKey("userHandle")

B64Field(v) == IF v.t # "text" THEN Bad("pkc") ELSE DecodeStd(v.u)
\* the bytes read, or one of several
B64Value(r) == IF r.k = "ok" THEN VBytes(r.v) ELSE [t |-> "alt", s |-> r.s]
\* Ok | Bad | [k |-> "may", v]: refused, or v where texts that are no proper base64 leave alternatives
ParsePkc(m) ==
  LET id == Get(m, P_id) ty == Get(m, P_type) resp == Get(m, P_resp)
      raw == B64Field(Get(m, P_raw))
      res(S, c, f) ==
        LET v == VObj("PublicKeyCredential", [id |-> id, type |-> ty, raw_id |-> B64Value(raw), response |-> VObj(c, f)])
        IN IF \A x \in S : x.k = "ok" THEN Ok(v) ELSE [k |-> "may", v |-> v]
  IN IF ~OnlyKeys(m, <<P_id, P_raw, P_resp, P_type>>) \/ id.t # "text" \/ ty.t # "text"
        \/ resp.t # "map" \/ raw.k = "bad" THEN Bad("pkc")
     ELSE LET r == resp.m
              cd == B64Field(Get(r, P_cd))
          IN IF cd.k = "bad" THEN Bad("pkc")
             ELSE IF HasKey(r, P_ao) THEN
               LET ao == B64Field(Get(r, P_ao)) IN
               IF ao.k = "bad" \/ ~OnlyKeys(r, <<P_cd, P_ao>>) THEN Bad("pkc")
               ELSE res({raw, cd, ao}, "AuthenticatorAttestationResponse", [client_data_JSON |-> B64Value(cd), attestation_object |-> B64Value(ao)])
             ELSE
               LET ad == B64Field(Get(r, P_ad)) sg == B64Field(Get(r, P_sig))
                   uhv == Get(r, P_uh)
                   uh == IF uhv.t = "none" THEN Ok(<<>>) ELSE B64Field(uhv)
               IN IF ad.k = "bad" \/ sg.k = "bad" \/ uh.k = "bad" \/ ~OnlyKeys(r, <<P_cd, P_ad, P_sig, P_uh>>)
                  THEN Bad("pkc")
                  ELSE res({raw, cd, ad, sg, uh}, "AuthenticatorAssertionResponse",
                           [client_data_JSON |-> B64Value(cd), authenticator_data |-> B64Value(ad), signature |-> B64Value(sg),
                            user_handle |-> IF uhv.t = "none" THEN VNone ELSE B64Value(uh)])

(* ---- JSON conversion ---- *)
\* v is a tagged value in which objects are [t |-> "objl", c, m |-> <<<<attr name bytes, value>>..>>]
\* and enumerations [t |-> "enumv", v |-> value].  Result: Ok(JSON value) | Bad.
RECURSIVE Jsonify(_, _), JsonifyList(_, _, _, _), JsonifyMembers(_, _, _, _)
Jsonify(v, conv) ==
  CASE v.t = "enumv" -> Jsonify(v.v, conv)
    [] v.t = "objl" -> JsonifyMembers(v.m, 1, conv, <<>>)
    [] v.t = "map" -> IF \E i \in 1..Len(v.m) : v.m[i][1].t # "text" THEN Bad("jsonkey")
                      ELSE JsonifyMembers(Tup([i \in 1..Len(v.m) |-> <<v.m[i][1].u, v.m[i][2]>>]), 1, conv, <<>>)
    [] v.t = "bytes" -> Ok(VText(StdB64(v.b)))
    [] v.t = "list" -> JsonifyList(v.l, 1, conv, <<>>)
    [] v.t \in {"text", "int", "float", "bool", "none"} -> Ok(v)
    [] v.t = "open" -> Unk
    [] OTHER -> Bad("json")
JsonifyList(l, i, conv, acc) ==
  IF i > Len(l) THEN Ok(VList(acc))
  ELSE LET r == Jsonify(l[i], conv) IN
       IF r.k = "ok" THEN JsonifyList(l, i + 1, conv, Append(acc, r.v))
       ELSE IF r.k = "unk" /\ \E j \in (i + 1)..Len(l) : Jsonify(l[j], conv).k = "bad" THEN Bad("json") ELSE r
\* members: names are unique by construction; if two names convert to one the case makes no claim
JsonifyMembers(m, i, conv, acc) ==
  IF i > Len(m) THEN Ok(VMap(acc))
  ELSE IF m[i][2].t = "none" THEN JsonifyMembers(m, i + 1, conv, acc)
  ELSE LET r == Jsonify(m[i][2], conv)
           name == VText(IF conv THEN ToCamel(m[i][1]) ELSE m[i][1])
       IN IF r.k # "ok" THEN r
          ELSE IF HasKey(acc, name) THEN Unk
          ELSE JsonifyMembers(m, i + 1, conv, Append(acc, <<name, r.v>>))

\* equality of tagged values up to the order of map members
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.t = b.t \/ (a.t = "alt" /\ b.t = "bytes")
  /\ CASE a.t = "alt" -> b.b \in a.s
       [] a.t = "map" -> /\ Len(a.m) = Len(b.m)
                         /\ \A i \in 1..Len(a.m) : \E j \in 1..Len(b.m) :
                               KeyIs(a.m[i][1], b.m[j][1]) /\ Same(a.m[i][2], b.m[j][2])
       [] a.t = "list" -> Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : Same(a.l[i], b.l[i])
       [] a.t = "obj" -> /\ a.c = b.c
                         /\ \A k \in DOMAIN a.f : k \in DOMAIN b.f /\ Same(a.f[k], b.f[k])
       [] OTHER -> a = b
=============================================================================
