----------------------------- MODULE WebAuthnRP -----------------------------
(* Exhaustive exploration of Protocol within bounds.  Off is a set of fault  *)
(* labels that the relying party forgets to look at: with Off empty every    *)
(* guarantee holds; with any one label in it some guarantee fails, which     *)
(* shows that each check is needed and that the guarantees are not vacuous.  *)
EXTENDS Protocol

CONSTANTS Scene,      \* "replay", "policy", "reg" or "takeover": what is explored in depth
          Off, MaxSess, MaxGets, MaxCreds, MaxAcc

VARIABLE w_st
wvars == <<w_st>>

Flags2 == BOOLEAN
Sess(kind, rp, user, uv, ign, allow, tb, ext, reuse, given) ==
  [kind |-> kind, rp |-> rp, user |-> user, uv |-> uv, ign |-> ign, allow |-> allow, tb |-> tb, ext |-> ext, reuse |-> reuse,
   given |-> given, orgs |-> {1}, keep |-> TRUE, count |-> TRUE, open |-> TRUE]
RegSess(rp, user) == Sess("reg", rp, user, FALSE, FALSE, {}, 0, FALSE, FALSE, TRUE)

\* registered credentials: of user 1 and user 2 at party 1 and of the attacker; one more of user 1 at party 2; and one of
\* user 2 at party 1 that storage keeps without its party
Reg1(st, user, rp, cid, key, keep) ==
  LET n == Len(st.sess) + 1
      a == [chal |-> n, org |-> 1, rp |-> rp, uv |-> FALSE, cnt |-> 0, cid |-> cid, key |-> key, user |-> user, tb |-> 0, ext |-> FALSE, fmt |-> "none"]
      m == [cd |-> Cd("create", n, 1, 0), ad |-> Ad(rp, TRUE, FALSE, 0, <<cid, key>>, FALSE), fmt |-> "none", akey |-> 0, sig |-> NoSig, kd |-> Cd("create", n, 1, 0)]
      s0 == NewSession(st, [RegSess(rp, user) EXCEPT !.keep = keep])
      s1 == IF user = Attacker THEN s0 ELSE CreateCred(s0, a)
  IN Accept(s1, n, m)
Populated == Reg1(Reg1(Reg1(Reg1(Reg1(Begin, 1, 1, 1, 11, TRUE), 2, 1, 2, 12, TRUE), 3, 1, 3, 90, TRUE), 1, 2, 4, 13, TRUE), 2, 1, 5, 14, FALSE)
Base == IF Scene = "reg" THEN Begin ELSE Populated
BaseSess == Len(Base.sess)
BaseAcc == Len(Base.acc)
BaseCreds == Len(Base.creds)

SessDom ==
  CASE Scene = "replay" -> {Sess("auth", 1, u, FALSE, i, {}, 0, FALSE, r, TRUE) : u \in {0, 1}, i \in BOOLEAN, r \in BOOLEAN}
    [] Scene = "policy" -> {Sess("auth", p, u, v, FALSE, l, t, x, FALSE, g) :
                              p \in {1, 2}, u \in {0, 1}, v \in BOOLEAN, l \in {{}, {1}, {1, 2}}, t \in {0, 1}, x \in BOOLEAN, g \in BOOLEAN}
    [] Scene = "takeover" -> {Sess("auth", 1, u, FALSE, FALSE, {}, 0, FALSE, FALSE, TRUE) : u \in {0, 1}} \cup {RegSess(1, 3), RegSess(1, 1)}
    [] Scene = "reg" -> {[RegSess(p, u) EXCEPT !.uv = v] : p \in {1, 2}, u \in {1, 3}, v \in BOOLEAN}

(* ---- what the attacker submits: one field of what was signed may be another ---- *)
CdVars(cd, n) == {cd, [cd EXCEPT !.chal = n], [cd EXCEPT !.chal = 0], [cd EXCEPT !.org = 1], [cd EXCEPT !.org = 2]}
                 \cup {[cd EXCEPT !.type = t] : t \in {"get", "create"}} \cup {[cd EXCEPT !.tb = 1 - cd.tb]}
                 \cup {[cd EXCEPT !.chal = n, !.org = 1]}
AdVars(ad) == {ad, [ad EXCEPT !.up = ~@], [ad EXCEPT !.uv = ~@], [ad EXCEPT !.ext = ~@], [ad EXCEPT !.cnt = @ + 1], [ad EXCEPT !.rp = 3 - @]}
Cids == {1, 2, 3, 4, 5, 9}
\* (the parts of a message are sifted one by one before the message as a whole is judged)
Passes(f) == f \ Off = {}
AuthMsgs(st, n) ==
  LET s == st.sess[n]
      stolen == {x \in st.sigs : x.tag = "ad"} \cup {NoSig}
      own == {SigOf(90, Ad(1, TRUE, TRUE, c, <<>>, TRUE), Cd("get", n, 1, 0)) : c \in {1, 2}}
      cdOk(x) == {c \in CdVars(x.cd, n) : Passes(CdFaults(s, n, c, "get"))}
      idOk == {<<i, h>> \in Cids \X (0..3) :
                 InStore(st, i) # {} /\ Passes(AuthFaults(st, n, [cid |-> i, cd |-> Cd("get", n, 1, s.tb), ad |-> Ad(1, TRUE, TRUE, 1, <<>>, TRUE), sig |-> NoSig, uh |-> h])
                                               \ {"rphash", "count", "sig"})}
      adOk(x) == {d \in AdVars(x.ad) : Passes(AdFaults(s, d, d.rp))}
      sigOk(x, i) == "sig" \in Off \/ x.key = Stored(st, i).key
  IN UNION {{[cid |-> p[1], cd |-> c, ad |-> d, sig |-> x, uh |-> p[2]] : c \in cdOk(x), d \in adOk(x), p \in {q \in idOk : sigOk(x, q[1])}} : x \in stolen \cup own}
RegMsgs(st, n) ==
  LET good == Cd("create", n, 1, 0)
      keys == {11, 12, 90, 91}
      atts == {<<i, k>> : i \in {1, 9}, k \in keys}
      stolen == st.sigs
      s == st.sess[n]
      cdOk(cd) == {c \in CdVars(cd, n) : Passes(CdFaults(s, n, c, "create"))}
      adOk(S) == {d \in S : Passes(AdFaults(s, d, s.rp))}
      forged == {[cd |-> c, ad |-> Ad(p, u, v, 0, t, FALSE), fmt |-> f, akey |-> 92, sig |-> NoSig, kd |-> good] :
                   c \in cdOk(good), p \in {1, 2}, u \in BOOLEAN, v \in BOOLEAN, t \in atts, f \in {"none", "packed"}}
      fromSig(x) == {[cd |-> c, ad |-> d, fmt |-> f, akey |-> x.key, sig |-> x, kd |-> e] :
                       c \in cdOk(x.cd), d \in adOk(AdVars(x.ad) \cup {[x.ad EXCEPT !.att = t] : t \in atts}),
                       f \in {"u2f", "ak"}, e \in {x.cd, good}}
      own == {SigOf(91, Ad(1, TRUE, TRUE, 0, <<9, 91>>, FALSE), good), SigOf(91, Ad(1, TRUE, TRUE, 0, <<9, 11>>, FALSE), good), U2fSigOf(92, 1, good, 9, 91), U2fSigOf(92, 1, good, 1, 11)}
  IN forged \cup UNION {fromSig(x) : x \in stolen \cup own}
Msgs(st, n) == IF st.sess[n].kind = "reg" THEN RegMsgs(st, n) ELSE AuthMsgs(st, n)

Gets(st) == Cardinality(st.sigs)
Cost(l) == Len(l)

Next ==
  \/ /\ Len(w_st.sess) < BaseSess + MaxSess
     /\ \E s \in SessDom : w_st' = NewSession(w_st, s)
  \/ /\ Gets(w_st) < MaxGets
     /\ \E c \in {k \in 1..Len(w_st.creds) : Scene = "policy" \/ w_st.creds[k].rp = 1}, o \in {1, 2}, ch \in {0} \cup (BaseSess + 1)..Len(w_st.sess), up \in BOOLEAN, uv \in BOOLEAN, t \in {0, 1}, x \in BOOLEAN :
          LET a == [c |-> c, org |-> o, chal |-> ch, up |-> up, uv |-> uv, tb |-> t, ext |-> x, inc |-> 1] IN
          /\ Scene = "policy" \/ (up /\ t = 0 /\ ~x)
          /\ Scene = "policy" \/ ~uv
          /\ CanGet(w_st, a) /\ w_st' = GetCred(w_st, a)
  \/ /\ Scene = "replay" /\ Len(w_st.creds) < BaseCreds + MaxCreds
     /\ \E k \in {0} : w_st' = Clone(w_st, [c |-> 1, cnt |-> k])
  \/ /\ Scene \in {"reg", "takeover"} /\ Len(w_st.creds) < BaseCreds + MaxCreds
     /\ \E o \in {1, 2}, r \in {1, 2}, ch \in {0} \cup (BaseSess + 1)..Len(w_st.sess), uv \in BOOLEAN, f \in {"none", "u2f", "ak"} :
          LET a == [chal |-> ch, org |-> o, rp |-> r, uv |-> uv, cnt |-> 0, cid |-> 10 + Len(w_st.creds), key |-> 22 + 3 * Len(w_st.creds), user |-> 1, tb |-> 0, ext |-> FALSE, fmt |-> f] IN
          CanCreate(w_st, a) /\ w_st' = CreateCred(w_st, a)
  \/ /\ Len(w_st.acc) < BaseAcc + MaxAcc
     /\ \E n \in (BaseSess + 1)..Len(w_st.sess) :
          /\ w_st.sess[n].open
          /\ \E m \in Msgs(w_st, n) : Known(w_st, m.sig) /\ Faults(w_st, n, m) \ Off = {} /\ w_st' = Accept(w_st, n, m)
Init == w_st = Base
Spec == Init /\ [][Next]_wvars

I_AuthAgreement == AuthAgreement(w_st)
I_AuthPolicy == AuthPolicy(w_st)
I_AuthAccount == AuthAccount(w_st)
I_NoReplay == NoReplay(w_st)
I_Counters == Counters(w_st)
I_RegAgreement == RegAgreement(w_st)
I_StoreSound == StoreSound(w_st)
I_HonestAccepted == HonestAccepted(w_st)
=============================================================================
