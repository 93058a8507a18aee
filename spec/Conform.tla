------------------------------- MODULE Conform -------------------------------
(* The conformance judgement of one recorded call of the implementation.     *)
(* Judge(e) is total: it yields the set of broken clauses, each with the     *)
(* properties that own it.                                                   *)
EXTENDS Data

V(own, clause) == {[own |-> own, clause |-> clause]}
NoV == {}
Req(cond, own, clause) == IF cond THEN NoV ELSE V(own, clause)

IsRet(e) == e.out.k = "ret"
IsErr(e) == e.out.k = "err"
LibErr(e) == e.out.k = "err" /\ e.out.lib

\* every call: it ends, raises only library errors, and leaves its arguments alone
Helper(e) == e.op \in {"b64enc", "b64dec", "camel", "snake", "extkeys"}
\* direct calls outside what the library promises anything about
Outside(e) == \/ Helper(e)
              \/ e.op = "verify" /\ (IF e.in.f.alg.t = "none" THEN TRUE ELSE IsEc2(e.in) /\ e.in.f.alg.n = "EDDSA")
              \/ e.op = "attest" /\ e.ad.f.attested_credential_data.t = "none"
\* a ceremony that changes what it was given checks the next one against something else
ArgOwn(a) == CASE a = "expected_challenge" -> {"C01"} [] a = "expected_origin" -> {"C02"} [] a = "token_binding" -> {"C03"}
               [] a = "expected_extensions" -> {"C05"} [] a \in {"user", "rp", "allow_credentials"} -> {"C08"} [] a = "store" -> {"C07", "C08"}
               [] a = "credential" -> {"C09"} [] OTHER -> {}
ChangedOwn(e) == IF e.op = "jsonify" THEN {"C23"} ELSE IF e.op = "parse_extensions" THEN {"C21"} ELSE IF e.op = "parse_stmt" THEN {"C20"}
                 ELSE IF e.op = "parse_cose_key" THEN {"C16"} ELSE IF e.op = "parse_pkc" THEN {"C19"}
                 ELSE IF e.op \in {"validate", "cose_key", "crypto_key", "cose_roundtrip"} THEN {"C17"}
                 ELSE IF "mod" \in DOMAIN e THEN UNION {ArgOwn(e.mod[i]) : i \in 1..Len(e.mod)} ELSE {}
Common(e) == Req(IsRet(e) \/ LibErr(e) \/ (IsErr(e) /\ Outside(e)), {"C11"}, "escape:" \o (IF IsErr(e) THEN e.out.cls ELSE e.out.k))
             \cup Req(e.pure, {"C24"} \cup ChangedOwn(e), "argument modified")

(* ---- calls with a three-valued specification ---- *)
\* res: Ok/Bad/Unk; own: owners; classes: truthful error classes for Bad
Functional(e, res, own, classes) ==
  CASE res.k = "ok" -> IF IsRet(e)
                       THEN Req(e.out.v.t = res.v.t /\ Same(res.v, e.out.v), own, "wrong result")
                       ELSE V(own, "refused a valid input: " \o (IF IsErr(e) THEN e.out.cls ELSE e.out.k))
    [] res.k = "bad" -> IF IsRet(e) THEN V(own, "accepted an invalid input: " \o res.why)
                        ELSE IF LibErr(e) THEN Req(e.out.cls \in classes, own \cup {"C11"}, "untruthful error " \o e.out.cls)
                        ELSE V(own, "escape")
    [] res.k = "may" -> IF IsRet(e) THEN Req(Same(res.v, e.out.v), own, "wrong result")
                        ELSE IF LibErr(e) THEN Req(e.out.cls \in classes, own \cup {"C11"}, "untruthful error " \o e.out.cls)
                        ELSE V(own, "escape")
    [] OTHER -> NoV

ParserCls == PE \cup {"UnimplementedError"}
WhyOwn(res, dflt) ==
  IF res.k # "bad" THEN dflt
  ELSE IF res.why \in {"layout", "key", "keycbor", "ext", "extcbor", "stmt", "fmt", "obj", "objcbor", "cd", "cdjson"}
       THEN dflt \cup Fault(Why(res)).own ELSE dflt

J_parse_client_data(e) == Functional(e, ParseClientData(e.in), {"C18"}, ParserCls)
J_parse_authenticator_data(e) ==
  LET r == ParseAuthData(e.in) IN Functional(e, r, WhyOwn(r, {"C15"}), ParserCls)
J_parse_cose_key(e) ==
  LET r == IF e.form = "bytes"
           THEN LET d == Dec(e.in, 1) IN
                IF d.k = "bad" THEN Bad("key") ELSE IF d.k = "unk" THEN Unk
                ELSE IF d.v.t # "map" THEN Bad("key")
                ELSE LET q == ParseKey(d.v.m) IN IF q.k = "ok" /\ d.n # Len(e.in) + 1 THEN Unk ELSE q
           ELSE ParseKey(e.in.m)
  IN Functional(e, r, {"C16"}, ParserCls)
J_parse_extensions(e) == Functional(e, ParseExt(e.in.m), {"C21"}, ParserCls)
J_parse_stmt(e) == Functional(e, ParseStmt(e.fmt, e.in.m), {"C20"}, ParserCls)
J_parse_attestation_object(e) ==
  LET r == ParseAttObj(e.in)
      own == WhyOwn(r, {"C20"})
  IN IF r.k = "ok" /\ IsRet(e)
     THEN IF e.out.v.t = "list" /\ Len(e.out.v.l) = 2 /\ e.out.v.l[2].t = "map"
          THEN Req(Same(r.v, e.out.v.l[1]), {"C20"}, "wrong object")
               \cup Req(Same(VMap(r.map), e.out.v.l[2]), {"C20"}, "wrong raw map")
          ELSE V({"C20"}, "wrong result shape")
     ELSE Functional(e, IF r.k = "ok" THEN Ok(r.v) ELSE r, own, ParserCls)
J_parse_pkc(e) == Functional(e, ParsePkc(e.in.m), {"C19"}, ParserCls)
\* decode, convert to JSON, decode again: equal
J_pkc_roundtrip(e) ==
  LET r == ParsePkc(e.in.m) IN
  IF r.k # "ok" THEN NoV
  ELSE IF IsRet(e) THEN Req(Same(r.v, e.out.v), {"C19"}, "round trip changed the credential")
  ELSE V({"C19"}, "round trip failed")
J_parse_origin(e) ==
  LET r == ParseOrigin(e.in)
      v == e.out.v.f
      host == v.hostname.u
  IN IF r.k # "bad" /\ ~r.any /\ IsRet(e)
     THEN Req(/\ e.out.v.t = "obj" /\ e.out.v.c = "Origin"
              /\ v.scheme.t = "text" /\ v.hostname.t = "text" /\ v.port.t = VNat(0).t
              /\ \E x \in r.den : v.scheme = VText(x[1]) /\ v.port = VNat(x[3])
                   /\ x[2] \in {CanonAuthority(SelectSeq(host, LAMBDA c : c > 32 /\ c < 127)), Lower(SelectSeq(host, LAMBDA c : c > 32 /\ c < 127))}
              /\ r.k = "ok" => Lower(host) = Lower(r.host),
              {"C02"}, "wrong origin")
     ELSE Functional(e, IF r.k = "ok" THEN Ok(VNone) ELSE r, {"C02"}, {"OriginError"})

(* ---- keys ---- *)
J_cose_key(e) ==       \* out: the bytes; decoded by the specification
  IF ~IsRet(e) THEN V({"C17"}, "encoding failed")
  ELSE IF e.out.v.t # "bytes" THEN V({"C17"}, "encoding is no byte string")
  ELSE LET d == Dec(e.out.v.b, 1) IN
       IF d.k # "ok" THEN V({"C17"}, "encoding is not plain CBOR")
       ELSE Req(d.n = Len(e.out.v.b) + 1 /\ d.v.t = "map" /\ SameMap(KeyMap(e.in), d.v.m), {"C17"}, "wrong encoding")
J_cose_roundtrip(e) ==
  IF ~IsRet(e) THEN V({"C17"}, "round trip failed") ELSE Req(Same(e.in, e.out.v), {"C17"}, "round trip changed the key")
J_crypto_key(e) ==     \* out: [crv, x, y] of the resulting key as byte strings (y = <<>> for EdDSA)
  IF PointBad(e.points, e.in)
  THEN IF IsRet(e) THEN V({"C17"}, "accepted a point off the curve")
       ELSE Req(LibErr(e) /\ e.out.cls = "PublicKeyConversionError", {"C17", "C11"}, "untruthful error")
  ELSE IF ~IsRet(e) THEN V({"C17"}, "conversion of a valid key failed")
  ELSE Req(e.out.v.c = e.in.f.crv.n /\ BeEq(e.out.v.x, e.in.f.x.b)
           /\ (IsEc2(e.in) => BeEq(e.out.v.y, e.in.f.y.b)), {"C17"}, "wrong point")
J_validate(e) == Functional(e, IF ValidKey(e.in) THEN Ok(VNone) ELSE Bad("key"), {"C16"}, {"ValidationError"})
J_verify(e) ==
  LET j == SigJudge(e.in, e.sigs, e.points, e.data, e.sig) IN
  IF j = {} THEN IF IsRet(e) THEN Req(e.out.v.t = "none", {"C06"}, "verification returned a value")
                 ELSE V({"C06"}, "refused a valid signature")
  ELSE IF IsRet(e) THEN V({"C06"}, "accepted an invalid signature")
  ELSE IF "sigalg" \in j THEN NoV        \* outside the supported keys: any refusal
  ELSE Req(LibErr(e) /\ e.out.cls \in Classes(j), {"C06", "C11"}, "untruthful error")
J_attest(e) ==
  LET r == Attestation(e.fmt, e.stmt, e.ad, e.raw, e.cdh, e.sigs, e.certs, e.points)
      own == IF e.fmt = "FIDO_U2F" THEN {"C12"} ELSE IF e.fmt = "ANDROID_KEY" THEN {"C13"} ELSE {"C14"}
  IN IF Outside(e) THEN NoV
     ELSE IF IsRet(e)
     THEN IF r.f # {} THEN {[own |-> Owners(r.f), clause |-> "attested: " \o l] : l \in r.f}
          ELSE IF r.u # {} THEN NoV
          ELSE Req(/\ e.out.v.t = "list" /\ Len(e.out.v.l) = 2
                   /\ e.out.v.l[1] = VEnum("AttestationType", r.type)
                   /\ IF r.type = "NONE" THEN e.out.v.l[2].t = "none"
                      ELSE e.out.v.l[2].t = "list" /\ Same(e.out.v.l[2], VList([i \in 1..Len(r.path) |-> [t |-> "cert", b |-> r.path[i]]])),
                   own, "wrong attestation result")
     ELSE IF r.f = {} /\ r.u = {} THEN V(own, "refused a valid attestation")
     ELSE NoV

(* ---- helpers ---- *)
J_b64enc(e) == IF ~IsRet(e) THEN V({"C25"}, "failed")
               ELSE Req(e.out.v.t \in {"bytes", "text"}
                        /\ LET o == IF e.out.v.t = "bytes" THEN e.out.v.b ELSE e.out.v.u
                           IN o = UrlB64(e.in) \/ o = UrlB64NoPad(e.in), {"C25"}, "wrong base64url")
J_b64dec(e) ==
  LET d == BeforePad(e.in)
      v == DecodeDigits(d)
      exact == (\A i \in 1..Len(d) : d[i] \in UrlSet) /\ Len(d) % 4 # 1
               /\ (e.in = UrlB64(v) \/ e.in = UrlB64NoPad(v))
  IN IF exact THEN IF IsRet(e) THEN Req(e.out.v.t = "bytes" /\ e.out.v = VBytes(v), {"C25"}, "wrong decoding")
                   ELSE V({"C25"}, "refused a valid text")
     ELSE NoV
J_camel(e) == IF NameDomain(e.in) THEN IF IsRet(e) THEN Req(e.out.v.t = "text" /\ e.out.v = VText(ToCamel(e.in)), {"C25"}, "wrong name")
                                        ELSE V({"C25"}, "failed") ELSE NoV
J_snake(e) == IF CamelDomain(e.in) THEN IF IsRet(e) THEN Req(e.out.v.t = "text" /\ e.out.v = VText(ToSnake(e.in)), {"C25"}, "wrong name")
                                        ELSE V({"C25"}, "failed") ELSE NoV
J_extkeys(e) ==        \* out: list of <<identifier value, attribute name>>
  Req(IsRet(e) /\ Len(e.out.v.l) = Len(ExtNames)
      /\ \A i \in 1..Len(e.out.v.l) : LET q == e.out.v.l[i].l IN
            (\E j \in 1..Len(ExtNames) : Ascii(ExtNames[j]) = q[1].u) /\ q[2].u = ToSnake(q[1].u) /\ ToCamel(q[2].u) = q[1].u,
      {"C25", "C05"}, "extension attribute name")
J_jsonify(e) ==
  LET r == Jsonify(e.in, e.conv) IN
  Functional(e, r, {"C23"}, {"JSONConversionError", "UnimplementedError"})
  \cup (IF r.k = "ok" /\ IsRet(e) THEN Req(e.serial, {"C23"}, "not serialisable") ELSE NoV)

(* ---- ceremonies ---- *)
\* given or stored entity: the same entity, value for value
OneOf(v, given, stored) == (given.t = "obj" /\ Same(v, given)) \/ (stored.t = "obj" /\ Same(v, stored))
CountFn(e, fn) == Cardinality({i \in 1..Len(e.calls) : e.calls[i].fn = fn})
CallOf(e, fn) == e.calls[CHOOSE i \in 1..Len(e.calls) : e.calls[i].fn = fn]

Ceremony(e, sys, v, fn, argsOk) ==
  LET accepted == IsRet(e)
      rsp == If(e.rsp.k # "none", "rsp")
      f == v.f
      n == CountFn(e, fn)
      other == IF fn = "att" THEN CountFn(e, "asr") + CountFn(e, "get") ELSE CountFn(e, "att")
  IN \* soundness
     (IF accepted THEN {[own |-> Fault(l).own \cup {sys}, clause |-> "accepted with fault " \o l] : l \in f} ELSE NoV)
     \cup (IF accepted THEN Req(rsp = {}, {"C09"}, "accepted although storage answered otherwise") ELSE NoV)
     \cup (IF accepted THEN Req(e.out.v.t = "none", {"C10"}, "returned a value") ELSE NoV)
     \* completeness
     \cup (IF ~accepted /\ f = {} /\ v.u = {} /\ rsp = {}
           THEN V({"C10"} \cup (IF IsErr(e) THEN ClassOwner(e.out.cls) ELSE {})
                  \cup (IF IsErr(e) /\ e.out.cls # "InternalError" THEN {"C11"} ELSE {}),
                  "refused a valid ceremony: " \o (IF IsErr(e) THEN e.out.cls ELSE e.out.k)) ELSE NoV)
     \* truthfulness
     \cup (IF LibErr(e) /\ ~(f = {} /\ v.u = {} /\ rsp = {})
           THEN Req(e.out.cls \in Classes(f \cup v.u \cup rsp), {"C11"}, "untruthful error " \o e.out.cls) ELSE NoV)
     \* storage
     \cup Req(n <= 1, {"C09"}, "storage asked more than once")
     \cup Req(other = 0, {"C09"}, "unexpected storage call")
     \cup (IF f # {} THEN Req(n = 0, {"C09"} \cup Owners(f) \cup {sys}, "storage asked although a check failed") ELSE NoV)
     \cup (IF accepted THEN Req(n = 1, {"C09"}, "accepted without asking storage") ELSE NoV)
     \cup (IF LibErr(e) /\ f = {} /\ v.u = {} /\ rsp # {}
           THEN Req(n = 1, {"C09"}, "storage not asked")
                \cup Req(e.out.cls = "RegistrationError", {"C09", "C11"}, "storage failure reported as " \o e.out.cls) ELSE NoV)
     \cup (IF LibErr(e) /\ f = {"getraise"} /\ v.u = {}
           THEN Req(e.out.cls = "RegistrationError", {"C09", "C11"}, "storage failure reported as " \o e.out.cls) ELSE NoV)
     \cup (IF n = 1 /\ f = {} /\ v.u \subseteq {"origin", "exporigin", "chal", "rawid"} THEN argsOk ELSE NoV)

J_reg(e, v) ==
  LET a == IF CountFn(e, "att") = 1 THEN CallOf(e, "att") ELSE [fn |-> ""]
      own == {"C09", "S02"}
  IN Ceremony(e, "S02", v, "att",
       IF v.ao.k # "ok" \/ a.fn = "" THEN NoV ELSE
       Req(a.same_cred, own, "another credential handed to storage")
       \cup Req(Same(v.ao.v, a.att), own \cup {"C20"}, "wrong attestation object handed to storage")
       \cup Req(a.att_type = VEnum("AttestationType", v.type), own \cup {"C12", "C13", "C14"}, "wrong attestation type")
       \cup Req(IF v.type = "NONE" THEN a.path.t = "none"
                ELSE a.path.t = "list" /\ Same(a.path, VList([i \in 1..Len(v.path) |-> [t |-> "cert", b |-> v.path[i]]])),
                own \cup {"C12", "C13", "C14"}, "wrong trusted path")
       \cup Req(OneOf(a.user, e.ent.user, VNone), own, "another user handed to storage")
       \cup Req(OneOf(a.rp, e.ent.rp, VNone), own, "another relying party handed to storage"))

\* the same call with the other answer to clone warnings (e.twin): they decide about the counter alone
J_twin(e, v) ==
  LET lax == IF e.cfg.ignore THEN e.out ELSE e.twin
      strict == IF e.cfg.ignore THEN e.twin ELSE e.out
      behind == v.ad.k # "ok" \/ e.store.k # "some" \/ CountJudge(e.store.count, v.ad.v.f.sign_count.mag, FALSE) # {}
  IN Req(strict.k = "ret" => lax.k = "ret", {"C07"}, "ignoring clone warnings makes a ceremony fail")
     \cup (IF behind THEN NoV
           ELSE Req(lax.k = "ret" => strict.k = "ret", {"C07"}, "ignoring clone warnings relaxes something else"))

J_auth(e, v) ==
  LET a == IF CountFn(e, "asr") = 1 THEN CallOf(e, "asr") ELSE [fn |-> ""]
      own == {"C09", "S01"}
  IN Ceremony(e, "S01", v, "asr",
       IF v.ad.k # "ok" \/ a.fn = "" THEN NoV ELSE
       Req(a.same_cred, own, "another credential handed to storage")
       \cup Req(Same(v.ad.v, a.ad), own \cup {"C15"}, "wrong authenticator data handed to storage")
       \cup Req(OneOf(a.user, e.ent.user, e.ent.suser), own \cup {"C08"}, "another user handed to storage")
       \cup Req(OneOf(a.rp, e.ent.rp, e.ent.srp), own \cup {"C08"}, "another relying party handed to storage"))
     \cup Req(\A i \in 1..Len(e.calls) : e.calls[i].fn = "get" => e.calls[i].id.t = "bytes" /\ e.calls[i].id.b = e.cred.raw,
              {"C08", "C09"}, "another credential id looked up")
     \cup (IF IsRet(e) THEN Req(CountFn(e, "get") >= 1, {"C08"}, "accepted without looking the credential up") ELSE NoV)
     \cup (IF "twin" \in DOMAIN e THEN J_twin(e, v) ELSE NoV)

\* one call, made alone, after others and among others in every thread: one outcome
J_same(e) == UNION {Req(\A i \in 1..Len(e.outs[k]) : e.outs[k][i] = e.outs[k][1], {"C24"},
                        "the outcome of a call depends on other calls: " \o e.in.what[k]) : k \in 1..Len(e.outs)}

NoCase == [f |-> {}, u |-> {}]
JudgeOp(e) ==
  CASE e.op = "parse_client_data" -> J_parse_client_data(e)
    [] e.op = "parse_authenticator_data" -> J_parse_authenticator_data(e)
    [] e.op = "parse_attestation_object" -> J_parse_attestation_object(e)
    [] e.op = "parse_cose_key" -> J_parse_cose_key(e)
    [] e.op = "parse_extensions" -> J_parse_extensions(e)
    [] e.op = "parse_stmt" -> J_parse_stmt(e)
    [] e.op = "parse_pkc" -> J_parse_pkc(e)
    [] e.op = "pkc_roundtrip" -> J_pkc_roundtrip(e)
    [] e.op = "parse_origin" -> J_parse_origin(e)
    [] e.op = "cose_key" -> J_cose_key(e)
    [] e.op = "cose_roundtrip" -> J_cose_roundtrip(e)
    [] e.op = "crypto_key" -> J_crypto_key(e)
    [] e.op = "validate" -> J_validate(e)
    [] e.op = "verify" -> J_verify(e)
    [] e.op = "attest" -> J_attest(e)
    [] e.op = "jsonify" -> J_jsonify(e)
    [] e.op = "b64enc" -> J_b64enc(e)
    [] e.op = "b64dec" -> J_b64dec(e)
    [] e.op = "camel" -> J_camel(e)
    [] e.op = "snake" -> J_snake(e)
    [] e.op = "extkeys" -> J_extkeys(e)
    [] e.op = "robust" -> NoV
    [] e.op = "same" -> J_same(e)

\* [viol, f, u]: broken clauses, and for ceremonies the faults the case really had
Judge(e) ==
  IF e.op = "reg" THEN With(RegVerdict(e), LAMBDA v : [viol |-> Common(e) \cup J_reg(e, v), f |-> v.f, u |-> v.u])
  ELSE IF e.op = "auth" THEN With(AuthVerdict(e), LAMBDA v : [viol |-> Common(e) \cup J_auth(e, v), f |-> v.f, u |-> v.u])
  ELSE [viol |-> Common(e) \cup JudgeOp(e), f |-> {}, u |-> {}]
=============================================================================
