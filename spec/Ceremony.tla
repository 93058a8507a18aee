------------------------------ MODULE Ceremony ------------------------------
(* The two ceremonies as verdicts: which faults a submitted credential has   *)
(* against the expectations in force.  A ceremony is accepted iff it has no  *)
(* fault (and storage agrees); every fault has owning properties and the     *)
(* error classes that truthfully report it.  The judgements take decoded     *)
(* views so that the protocol model (WebAuthnRP) and the byte-level traces   *)
(* share them.                                                               *)
EXTENDS Attest, JsonText, Origin

PE == {"ParserError", "DecodingError", "ValidationError"}
Fault(l) ==
  CASE l = "exporigin" -> [own |-> {"C02"}, cls |-> {"OriginError"}]
    [] l = "origin" -> [own |-> {"C02"}, cls |-> {"OriginError"}]
    [] l = "type" -> [own |-> {"C01"}, cls |-> {"ClientDataTypeError"}]
    [] l = "chal" -> [own |-> {"C01"}, cls |-> {"ChallengeError", "DecodingError"}]
    [] l = "tb" -> [own |-> {"C03"}, cls |-> {"TokenBindingError"}]
    [] l = "cd" -> [own |-> {"C18"}, cls |-> PE]
    [] l = "rphash" -> [own |-> {"C04"}, cls |-> {"RPIDHashError"}]
    [] l = "up" -> [own |-> {"C04"}, cls |-> {"UserPresenceError"}]
    [] l = "uv" -> [own |-> {"C04"}, cls |-> {"UserVerificationError"}]
    [] l = "ext" -> [own |-> {"C05"}, cls |-> {"ExtensionError"}]
    [] l = "layout" -> [own |-> {"C15"}, cls |-> PE]
    [] l = "key" -> [own |-> {"C16"}, cls |-> PE]
    [] l = "keycbor" -> [own |-> {"C15", "C16"}, cls |-> PE]
    [] l = "adext" -> [own |-> {"C21"}, cls |-> PE]
    [] l = "extcbor" -> [own |-> {"C15", "C21"}, cls |-> PE]
    [] l = "stmt" -> [own |-> {"C14", "C20"}, cls |-> PE]
    [] l = "fmt" -> [own |-> {"C14", "C20"}, cls |-> PE]
    [] l = "obj" -> [own |-> {"C20"}, cls |-> PE]
    [] l = "objcbor" -> [own |-> {"C20"}, cls |-> PE]
    [] l = "noattcred" -> [own |-> {"C15"}, cls |-> PE \cup {"AttestationError", "InternalError"}]
    [] l = "fmt_unsupported" -> [own |-> {"C14"}, cls |-> {"UnimplementedError", "AttestationError"}]
    [] l \in {"u2f_x5c", "u2f_cert", "u2f_key", "u2f_sig"} ->
          [own |-> {"C12"}, cls |-> {"AttestationError"}]
    [] l \in {"ak_x5c", "ak_key", "ak_ext", "kd_der", "kd_challenge", "kd_allapps", "kd_origin", "kd_purpose"} ->
          [own |-> {"C13"}, cls |-> {"AttestationError"}]
    [] l \in {"ak_cert", "ak_sig"} -> [own |-> {"C13"}, cls |-> {"AttestationError", "InternalError"}]
    [] l = "ak_point" -> [own |-> {"C13", "C17"}, cls |-> {"AttestationError", "PublicKeyConversionError"}]
    [] l = "notallowed" -> [own |-> {"C08"}, cls |-> {"CredentialNotAllowedError"}]
    [] l = "getraise" -> [own |-> {"C09"}, cls |-> {"RegistrationError"}]
    [] l = "nocred" -> [own |-> {"C08"}, cls |-> {"CredentialDataError"}]
    [] l = "userid" -> [own |-> {"C08"}, cls |-> {"UserIDError"}]
    [] l = "nouh" -> [own |-> {"C08"}, cls |-> {"UserHandleError"}]
    [] l = "uh" -> [own |-> {"C08"}, cls |-> {"UserHandleError"}]
    [] l = "norp" -> [own |-> {"C08"}, cls |-> {"RPNotFoundError"}]
    [] l = "rpid" -> [own |-> {"C08"}, cls |-> {"RPIDError"}]
    [] l = "sig" -> [own |-> {"C06"}, cls |-> {"VerificationError"}]
    [] l = "sigpoint" -> [own |-> {"C06", "C17"}, cls |-> {"VerificationError", "PublicKeyConversionError"}]
    [] l = "sigalg" -> [own |-> {"C06"}, cls |-> {"VerificationError", "InternalError", "ValidationError", "UnimplementedError"}]
    [] l = "count" -> [own |-> {"C07"}, cls |-> {"SignatureCountError"}]
    [] l = "rsp" -> [own |-> {"C09"}, cls |-> {"RegistrationError"}]
    \* only ever open: nothing says that the outer id of a registration is the attested one
    [] l = "rawid" -> [own |-> {}, cls |-> PE \cup {"AttestationError", "CredentialDataError", "CredentialNotAllowedError", "RegistrationError", "VerificationError"}]
Classes(S) == UNION {Fault(l).cls : l \in S}
Owners(S) == UNION {Fault(l).own : l \in S}

\* properties that own an unexplained refusal with a given error class
ClassOwner(c) ==
  CASE c = "OriginError" -> {"C02"}
    [] c \in {"ClientDataTypeError", "ChallengeError"} -> {"C01"}
    [] c = "TokenBindingError" -> {"C03"}
    [] c \in {"RPIDHashError", "UserPresenceError", "UserVerificationError"} -> {"C04"}
    [] c = "ExtensionError" -> {"C05"}
    [] c \in {"VerificationError", "PublicKeyConversionError"} -> {"C06"}
    [] c = "SignatureCountError" -> {"C07"}
    [] c \in {"CredentialNotAllowedError", "CredentialDataError", "UserIDError", "UserHandleError",
              "RPNotFoundError", "RPIDError"} -> {"C08"}
    [] c = "RegistrationError" -> {"C09"}
    [] c = "AttestationError" -> {"C12", "C13"}
    [] c = "UnimplementedError" -> {"C14"}
    [] OTHER -> {}

If(c, l) == IF c THEN {l} ELSE {}

(* ---- judgements on views ---- *)
\* allowed: sequence of parsed expected origins; o: parsed client origin
OriginJudge(allowed, o) ==
  LET expBad == Len(allowed) = 0 \/ \E i \in 1..Len(allowed) : allowed[i].k = "bad"
      expUnk == \E i \in 1..Len(allowed) : allowed[i].k = "unk"
      yes == \E i \in 1..Len(allowed) : SameOrigin(allowed[i], o) = "yes"
      unk == \E i \in 1..Len(allowed) : SameOrigin(allowed[i], o) = "unk"
  IN [f |-> If(expBad, "exporigin") \cup If(~yes /\ ~unk, "origin"),
      u |-> If(expUnk, "exporigin") \cup If((~yes /\ unk) \/ o.k = "unk", "origin")]

\* want: [k |-> "none"] or [k |-> "some", status, id]; got: decoded token binding or VNone
TbJudge(want, got) ==
  IF want.k = "none" THEN If(got.t # "none", "tb")
  ELSE IF got.t = "none" THEN {"tb"}
  ELSE If(got.f.status.n # want.status \/ got.f.id.t # want.id.t \/ got.f.id # want.id, "tb")

\* req: [k |-> "none"] or [k |-> "some", l] names; exts: decoded extension object or VNone
ExtAttr == [appid |-> "appid", txAuthSimple |-> "tx_auth_simple", txAuthGeneric |-> "tx_auth_generic",
            authnSel |-> "authn_sel", exts |-> "exts", uvi |-> "uvi", loc |-> "loc", uvm |-> "uvm",
            biometricPerfBounds |-> "biometric_perf_bounds"]
ExtJudge(req, exts) ==
  IF req.k = "none" \/ Len(req.l) = 0 THEN {}
  ELSE IF exts.t = "none" THEN {"ext"}
  ELSE If(\E i \in 1..Len(req.l) : exts.f[ExtAttr[req.l[i]]].t = "none", "ext")

\* flags as a number, uv required or not
FlagJudge(flags, uvreq) == If(~Bit(flags, FlagUP), "up") \cup If(uvreq /\ ~Bit(flags, FlagUV), "uv")

\* stored: [k |-> "none"] or [k |-> "some", b]; got: bytes
CountJudge(stored, got, ignore) ==
  If(stored.k = "some" /\ ~BeLess(stored.b, got) /\ ~ignore, "count")

\* allow/user/handle/rp resolution; store: [k |-> "raise" | "none" | "some", user, rp]
ResolveJudge(raw, allow, store, user, uh, rp) ==
  If(allow.k = "some" /\ ~\E i \in 1..Len(allow.l) : allow.l[i] = raw, "notallowed")
  \cup If(store.k = "raise", "getraise")
  \cup If(store.k = "none", "nocred")
  \cup (IF store.k # "some" THEN {}
        ELSE If(user.k = "some" /\ user.id # store.user, "userid")
             \cup If(user.k = "none" /\ uh.k = "none", "nouh")
             \cup If(uh.k = "some" /\ uh.b # store.user, "uh")
             \cup If(store.rp.k = "none" /\ rp.k = "none", "norp")
             \cup If(store.rp.k = "some" /\ rp.k = "some" /\ rp.id # store.rp.id, "rpid"))
RpInForce(store, rp) == IF rp.k = "some" THEN rp
                        ELSE IF store.k = "some" THEN store.rp ELSE [k |-> "none"]

\* is sig a signature by key over msg with the key's algorithm?
SigJudge(key, sigs, points, msg, sig) ==
  IF key.f.alg.t = "none" THEN
    IF IsEc2(key) THEN {"sigalg"} ELSE If(~SigFact(sigs, key.f.crv.n, key.f.x.b, <<>>, "EDDSA", msg, sig), "sig")
  ELSE IF PointBad(points, key) THEN {"sigpoint"}
  ELSE IF IsEc2(key) /\ key.f.alg.n = "EDDSA" THEN {"sigalg"}
  ELSE LET h == IF IsEc2(key) THEN key.f.alg.n ELSE "EDDSA"
           y == IF IsEc2(key) THEN key.f.y.b ELSE <<>>
       IN If(~SigFact(sigs, key.f.crv.n, key.f.x.b, y, h, msg, sig), "sig")

(* ---- byte-level ceremonies ---- *)
RECURSIVE HashIn(_, _, _)
HashIn(tab, x, i) == IF i > Len(tab) THEN <<>> ELSE IF tab[i][1] = x THEN tab[i][2] ELSE HashIn(tab, x, i + 1)
HashOf(e, x) == HashIn(e.hash, x, 1)

Why(r) == IF r.why = "ext" THEN "adext" ELSE IF r.why \in {"cd", "cdjson", "utf8", "json"} THEN "cd" ELSE r.why
Allowed(cfg) == Tup([i \in 1..Len(cfg.origins) |-> ParseOrigin(cfg.origins[i])])

CdJudge(e, cd, wanted) ==
  LET allowed == Allowed(e.cfg)
      exp == [f |-> If(Len(allowed) = 0 \/ \E i \in 1..Len(allowed) : allowed[i].k = "bad", "exporigin"),
              u |-> If(\E i \in 1..Len(allowed) : allowed[i].k = "unk", "exporigin")]
  IN IF cd.k = "bad" THEN [f |-> {"cd"} \cup exp.f, u |-> exp.u]
     ELSE IF cd.k = "unk" THEN [f |-> exp.f, u |-> {"cd", "type", "chal", "origin", "tb"} \cup exp.u]
     ELSE LET o == OriginJudge(allowed, ParseOrigin(cd.v.f.origin.u))
              ch == ChallengeDenotes(cd.v.f.challenge.u, e.cfg.chal)
          IN [f |-> o.f \cup If(cd.v.f.type.u # wanted, "type") \cup If(ch = "no", "chal")
                    \cup TbJudge(e.cfg.tb, cd.v.f.token_binding),
              u |-> o.u \cup If(ch = "unk", "chal")]

W_create == Ascii("webauthn.create")
W_get == Ascii("webauthn.get")

AdJudge(e, ad, rp) ==
  If(rp.k = "some" /\ ad.f.rp_id_hash.b # HashOf(e, rp.id), "rphash")
  \cup FlagJudge(BeNat(ad.f.flags.mag), e.cfg.uv)
  \cup ExtJudge(e.cfg.ext, ad.f.extensions)

RegVerdictOf(e, cd, ao) ==
  LET c == CdJudge(e, cd, W_create)
      cdh == HashOf(e, e.cred.cd)
      adf == IF ao.k = "ok" THEN AdJudge(e, ao.v.f.auth_data, e.cfg.rp) ELSE {}
      att == IF ao.k = "ok"
             THEN Attestation(ao.v.f.fmt.n, ao.v.f.att_stmt, ao.v.f.auth_data, ao.raw, cdh, e.sigs, e.certs, e.points)
             ELSE AttRes({}, {}, "", <<>>)
      f == c.f \cup adf \cup att.f \cup (IF ao.k = "bad" THEN {Why(ao)} ELSE {})
      rawid == ao.k = "ok" /\ ao.v.f.auth_data.f.attested_credential_data.t # "none"
               /\ ao.v.f.auth_data.f.attested_credential_data.f.credential_id.b # e.cred.raw
      u == c.u \cup att.u \cup If(rawid, "rawid")
           \cup (IF ao.k = "unk" THEN {"obj", "objcbor", "layout", "key", "keycbor", "adext", "extcbor", "stmt", "fmt",
                                       "rphash", "up", "uv", "ext", "noattcred", "fmt_unsupported",
                                       "u2f_x5c", "ak_cert", "ak_point"} ELSE {})
  IN [f |-> f, u |-> u, ao |-> ao, type |-> att.type, path |-> att.path]
RegVerdict(e) == With2(ParseClientData(e.cred.cd), ParseAttObj(e.cred.ao), LAMBDA cd, ao : RegVerdictOf(e, cd, ao))

AuthVerdictOf(e, cd, ad) ==
  LET c == CdJudge(e, cd, W_get)
      store == e.store
      res == ResolveJudge(e.cred.raw, e.cfg.allow, store, e.cfg.user, e.cred.uh, e.cfg.rp)
      rp == RpInForce(store, e.cfg.rp)
      adf == IF ad.k = "ok" THEN AdJudge(e, ad.v, rp) ELSE {}
      cnt == IF ad.k = "ok" /\ store.k = "some"
             THEN CountJudge(store.count, ad.v.f.sign_count.mag, e.cfg.ignore) ELSE {}
      msg == e.cred.ad \o HashOf(e, e.cred.cd)
      sg == IF store.k = "some" THEN SigJudge(store.key, e.sigs, e.points, msg, e.cred.sig) ELSE {}
      f == c.f \cup res \cup adf \cup cnt \cup sg \cup (IF ad.k = "bad" THEN {Why(ad)} ELSE {})
      u == c.u \cup (IF ad.k = "unk" THEN {"layout", "key", "keycbor", "adext", "extcbor", "rphash", "up", "uv", "ext", "count"}
                     ELSE {})
  IN [f |-> f, u |-> u, ad |-> ad, rp |-> rp]
AuthVerdict(e) == With2(ParseClientData(e.cred.cd), ParseAuthData(e.cred.ad), LAMBDA cd, ad : AuthVerdictOf(e, cd, ad))
=============================================================================
