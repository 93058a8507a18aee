------------------------------ MODULE Protocol ------------------------------
(* The relying party, its users' authenticators and browsers, and a network  *)
(* attacker, with symbolic messages.  The attacker knows every challenge,    *)
(* owns keys of its own, lets honest users visit origins of its choice, and  *)
(* submits any recombination of what it has seen or can make; signatures of  *)
(* honest keys exist only where an authenticator made them.  Which faults a  *)
(* submission has is decided by the judgements of Ceremony, the same that    *)
(* judge the bytes of recorded calls.                                        *)
(*                                                                           *)
(* A state is a record                                                       *)
(*   sess   sessions of the relying party; the challenge of session i is i   *)
(*   creds  credentials on honest authenticators (clones are entries too)    *)
(*   sigs   everything honest authenticators have signed                     *)
(*   store  what storage holds, one entry per credential id                  *)
(*   acc    accepted ceremonies, in order                                    *)
EXTENDS Ceremony

Users == {1, 2, 3}                 \* 3 is the attacker
Attacker == 3
Origins == {1, 2, 3}               \* 2: another origin of the same relying party; 3: the attacker's site
Rps == {1, 2, 3}
RpsOf(o) == CASE o = 1 -> {1, 2} [] o = 2 -> {1} [] OTHER -> {3}
AttackKeys == {90, 91}             \* the attacker's credential keys
HonestAtt == 80                    \* an attestation key of an honest manufacturer
AttackAtt == 92                    \* an attestation key of the attacker
Bad_id == 99                       \* an identifier nobody has
OwnKey(k) == k \in AttackKeys \cup {AttackAtt}
\* keys of curves other than P-256
OtherCurve(k) == k % 3 = 0

Cd(type, chal, org, tb) == [type |-> type, chal |-> chal, org |-> org, tb |-> tb]
\* att: <<>> or <<credential id, key>>
Ad(rp, up, uv, cnt, att, ext) == [rp |-> rp, up |-> up, uv |-> uv, cnt |-> cnt, att |-> att, ext |-> ext]

\* an assertion (and Android key statement) signature; a U2F statement signature; bytes that are none
SigOf(key, ad, cd) == [tag |-> "ad", key |-> key, ad |-> ad, cd |-> cd]
U2fSigOf(att, rp, cd, cid, key) == [tag |-> "u2f", key |-> att, ad |-> Ad(rp, TRUE, FALSE, 0, <<cid, key>>, FALSE), cd |-> cd]
NoSig == [tag |-> "junk", key |-> 0, ad |-> Ad(0, FALSE, FALSE, 0, <<>>, FALSE), cd |-> Cd("", 0, 0, 0)]

Begin == [sess |-> <<>>, creds |-> <<>>, sigs |-> {}, store |-> <<>>, acc |-> <<>>]

(* ---- views for the judgements of Ceremony ---- *)
O_view(o) == OOne(O_https, <<96 + o>>, 443, <<96 + o>>)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
Views(q) == Tup([i \in 1..Len(q) |-> O_view(q[i])])
\* token bindings: 0 none, 1 and 2 present with different identifiers, 3 supported without one
TbWant(n) == CASE n = 0 -> [k |-> "none"] [] n = 3 -> [k |-> "some", status |-> "SUPPORTED", id |-> VNone]
               [] OTHER -> [k |-> "some", status |-> "PRESENT", id |-> VText(<<n>>)]
TbGot(n) == IF n = 0 THEN VNone
            ELSE VObj("TokenBinding", [status |-> VEnum("TokenBindingStatus", IF n = 3 THEN "SUPPORTED" ELSE "PRESENT"),
                                       id |-> IF n = 3 THEN VNone ELSE VText(<<n>>)])
\* extensions: requirement and presence of "uvi" only, as a Boolean
ExtWant(b) == IF b THEN [k |-> "some", l |-> <<"uvi">>] ELSE [k |-> "none"]
ExtGot(b) == IF b THEN VObj("AuthenticationExtensionsClientOutputs", [a \in {ExtAttr[n] : n \in DOMAIN ExtAttr} |-> IF a = "uvi" THEN VBytes(<<>>) ELSE VNone])
             ELSE VNone
Some_(x) == [k |-> "some", id |-> x]
None_ == [k |-> "none"]
OptId(n) == IF n = 0 THEN None_ ELSE Some_(n)

InStore(st, cid) == {i \in 1..Len(st.store) : st.store[i].cid = cid}
Stored(st, cid) == st.store[CHOOSE i \in InStore(st, cid) : TRUE]

(* ---- what is wrong with a submission ---- *)
CdFaults(s, n, cd, wanted) ==
  If(cd.type # wanted, "type")
  \cup If(cd.chal # n, "chal")
  \cup OriginJudge(Views(SetSeq(s.orgs)), O_view(cd.org)).f
  \cup TbJudge(TbWant(s.tb), TbGot(cd.tb))
AdFaults(s, ad, rp) ==
  If(ad.rp # rp, "rphash")
  \cup FlagJudge((IF ad.up THEN 1 ELSE 0) + (IF ad.uv THEN 4 ELSE 0), s.uv)
  \cup ExtJudge(ExtWant(s.ext), ExtGot(ad.ext))

\* does the party that submits know this signature?
Known(st, sig) == sig \in st.sigs \/ OwnKey(sig.key) \/ sig = NoSig

AuthFaults(st, n, m) ==
  LET s == st.sess[n]
      here == InStore(st, m.cid) # {}
      rec == Stored(st, m.cid)
      store == IF here THEN [k |-> "some", user |-> rec.user, rp |-> OptId(rec.rp)] ELSE None_
      given == IF s.given THEN Some_(s.rp) ELSE None_
      allow == IF s.allow = {} THEN None_ ELSE [k |-> "some", l |-> SetSeq(s.allow)]
      uh == IF m.uh = 0 THEN None_ ELSE [k |-> "some", b |-> m.uh]
      rp == RpInForce(store, given)
  IN CdFaults(s, n, m.cd, "get")
     \cup ResolveJudge(m.cid, allow, store, OptId(s.user), uh, given)
     \cup (IF rp.k = "some" THEN AdFaults(s, m.ad, rp.id) ELSE AdFaults(s, m.ad, m.ad.rp))
     \cup (IF here THEN CountJudge(IF rec.cnt < 0 THEN None_ ELSE [k |-> "some", b |-> NatBe(rec.cnt)], NatBe(m.ad.cnt), s.ign)
                        \cup If(m.sig # SigOf(rec.key, m.ad, m.cd), "sig")
           ELSE {})

\* statement: [fmt, akey (key of the certificate), sig, kd (client data named by the certificate's extension)]
AttFaults(m) ==
  LET cid == m.ad.att[1] key == m.ad.att[2] IN
  CASE m.fmt = "none" -> {}
    [] m.fmt = "u2f" -> If(OtherCurve(key), "u2f_key") \cup If(m.sig # U2fSigOf(m.akey, m.ad.rp, m.cd, cid, key), "u2f_sig")
    [] m.fmt = "ak" -> If(m.akey # key, "ak_key") \cup If(m.sig # SigOf(m.akey, m.ad, m.cd), "ak_sig")
                       \cup If(m.kd # m.cd, "kd_challenge")
    [] OTHER -> {"fmt_unsupported"}
\* storage refuses a credential id that it has already
RegFaults(st, n, m) ==
  LET s == st.sess[n] IN
  CdFaults(s, n, m.cd, "create") \cup AdFaults(s, m.ad, s.rp)
  \cup (IF m.ad.att = <<>> THEN {"noattcred"} ELSE AttFaults(m) \cup If(InStore(st, m.ad.att[1]) # {}, "rsp"))

Faults(st, n, m) == IF st.sess[n].kind = "reg" THEN RegFaults(st, n, m) ELSE AuthFaults(st, n, m)

(* ---- steps ---- *)
NewSession(st, s) == [st EXCEPT !.sess = Append(@, [s EXCEPT !.open = TRUE])]

\* an honest user creates a credential: the browser names the origin it is at and lets it use only its relying parties
CreateCred(st, a) ==
  LET cd == Cd("create", a.chal, a.org, a.tb)
      ad == Ad(a.rp, TRUE, a.uv, a.cnt, <<a.cid, a.key>>, a.ext)
  IN [st EXCEPT !.creds = Append(@, [cid |-> a.cid, key |-> a.key, rp |-> a.rp, user |-> a.user, cnt |-> a.cnt]),
                !.sigs = @ \cup (CASE a.fmt = "u2f" -> {U2fSigOf(HonestAtt, a.rp, cd, a.cid, a.key)}
                                   [] a.fmt = "ak" -> {SigOf(a.key, ad, cd)} [] OTHER -> {})]
CanCreate(st, a) == a.rp \in RpsOf(a.org) /\ a.user # Attacker /\ a.chal <= Len(st.sess)
\* an honest user signs in somewhere; the counter of the authenticator moves
GetCred(st, a) ==
  LET c == st.creds[a.c]
      cd == Cd("get", a.chal, a.org, a.tb)
      ad == Ad(c.rp, a.up, a.uv, c.cnt + a.inc, <<>>, a.ext)
  IN [st EXCEPT !.creds[a.c].cnt = @ + a.inc, !.sigs = @ \cup {SigOf(c.key, ad, cd)}]
CanGet(st, a) == a.c \in 1..Len(st.creds) /\ st.creds[a.c].rp \in RpsOf(a.org) /\ a.chal <= Len(st.sess)
\* a clone of an authenticator, counting on its own
Clone(st, a) == [st EXCEPT !.creds = Append(@, [st.creds[a.c] EXCEPT !.cnt = a.cnt])]

Entry(st, n, m) ==
  LET s == st.sess[n] IN
  IF s.kind = "reg"
  THEN [s |-> n, kind |-> "reg", cid |-> m.ad.att[1], key |-> m.ad.att[2], cd |-> m.cd, ad |-> m.ad, sig |-> m.sig, fmt |-> m.fmt, akey |-> m.akey,
        owner |-> s.user, prev |-> -1, uh |-> 0, srp |-> 0]
  ELSE LET rec == Stored(st, m.cid) IN
       [s |-> n, kind |-> "auth", cid |-> m.cid, key |-> rec.key, cd |-> m.cd, ad |-> m.ad, sig |-> m.sig, fmt |-> "", akey |-> 0,
        owner |-> rec.user, prev |-> rec.cnt, uh |-> m.uh, srp |-> rec.rp]
StoreAfter(st, n, m) ==
  LET s == st.sess[n] IN
  IF s.kind = "reg"
  THEN Append(st.store, [cid |-> m.ad.att[1], key |-> m.ad.att[2], cnt |-> IF s.count THEN m.ad.cnt ELSE -1, user |-> s.user, rp |-> IF s.keep THEN s.rp ELSE 0])
  ELSE [i \in 1..Len(st.store) |-> IF st.store[i].cid = m.cid THEN [st.store[i] EXCEPT !.cnt = m.ad.cnt] ELSE st.store[i]]
\* the session is closed by the application once it has been used (unless it forgets to)
Accept(st, n, m) ==
  [st EXCEPT !.acc = Append(@, Entry(st, n, m)), !.store = StoreAfter(st, n, m), !.sess[n].open = st.sess[n].reuse]
Submit(st, n, m, off) == IF Faults(st, n, m) \ off = {} THEN Accept(st, n, m) ELSE st

(* ---- guarantees ---- *)
Auths(st) == {i \in 1..Len(st.acc) : st.acc[i].kind = "auth"}
Regs(st) == {i \in 1..Len(st.acc) : st.acc[i].kind = "reg"}
\* the relying party in force
RpFor(st, a) == IF st.sess[a.s].given THEN st.sess[a.s].rp ELSE a.srp

\* S01: what the registered key signed names this very ceremony
AuthAgreement(st) ==
  \A i \in Auths(st) : LET a == st.acc[i] s == st.sess[a.s] x == a.sig IN
    /\ x.tag = "ad" /\ x.key = a.key /\ (x \in st.sigs \/ OwnKey(x.key))
    /\ x.cd.type = "get" /\ x.cd.chal = a.s /\ x.cd.org \in s.orgs
    /\ x.ad.rp = RpFor(st, a) /\ x.ad.cnt = a.ad.cnt
\* presence, verification, token binding and extensions are those of the signed data
AuthPolicy(st) ==
  \A i \in Auths(st) : LET a == st.acc[i] s == st.sess[a.s] x == a.sig IN
    /\ x.ad.up /\ (s.uv => x.ad.uv) /\ (s.ext => x.ad.ext) /\ x.cd.tb = s.tb
\* the account is the owner's, as far as the caller or the response names one
AuthAccount(st) ==
  \A i \in Auths(st) : LET a == st.acc[i] s == st.sess[a.s] IN
    /\ s.user # 0 => s.user = a.owner
    /\ a.uh # 0 => a.uh = a.owner
    /\ s.user = 0 => a.uh # 0
    /\ s.allow # {} => a.cid \in s.allow
    /\ s.given \/ a.srp # 0
    /\ (s.given /\ a.srp # 0) => s.rp = a.srp
\* S01: no signed response counts twice, unless the caller gives away freshness (uses a challenge again) and a
\* counter too (ignores clone warnings, after which storage may hold a lower one), or registered one key twice
NoReplay(st) ==
  \A i, j \in Auths(st) : (i < j /\ st.acc[i].sig = st.acc[j].sig) =>
    /\ st.acc[i].s = st.acc[j].s /\ st.sess[st.acc[j].s].reuse
    /\ \/ st.acc[i].cid # st.acc[j].cid
       \/ \E k \in (i + 1)..j : st.acc[k].cid = st.acc[j].cid /\ st.sess[st.acc[k].s].ign
\* C07
Counters(st) ==
  /\ \A i \in Auths(st) : LET a == st.acc[i] IN ~st.sess[a.s].ign => a.ad.cnt > a.prev
  /\ \A i, j \in Auths(st) : (/\ i < j /\ st.acc[i].cid = st.acc[j].cid
                              /\ \A k \in (i + 1)..j : ~st.sess[st.acc[k].s].ign) => st.acc[i].ad.cnt < st.acc[j].ad.cnt
\* S02
RegAgreement(st) ==
  \A i \in Regs(st) : LET a == st.acc[i] s == st.sess[a.s] IN
    /\ a.cd.type = "create" /\ a.cd.chal = a.s /\ a.cd.org \in s.orgs /\ a.ad.rp = s.rp
    /\ a.ad.up /\ (s.uv => a.ad.uv) /\ (s.ext => a.ad.ext) /\ a.cd.tb = s.tb
    /\ a.fmt = "u2f" => a.sig = U2fSigOf(a.akey, s.rp, a.cd, a.cid, a.key)
    /\ a.fmt = "ak" => a.sig = SigOf(a.key, a.ad, a.cd)
    /\ (a.fmt # "none" /\ ~OwnKey(a.sig.key)) => \E c \in 1..Len(st.creds) : st.creds[c].cid = a.cid /\ st.creds[c].key = a.key /\ st.creds[c].rp = s.rp
    /\ a.fmt \in {"none", "u2f", "ak"}
\* one owner per credential id, for ever; storage holds what was accepted last
StoreSound(st) ==
  /\ \A i, j \in 1..Len(st.store) : st.store[i].cid = st.store[j].cid => i = j
  /\ \A k \in 1..Len(st.store) : LET r == st.store[k] IN
       \E i \in Regs(st) : st.acc[i].cid = r.cid /\ st.acc[i].key = r.key /\ st.acc[i].owner = r.user
  /\ \A i, j \in Regs(st) : st.acc[i].cid = st.acc[j].cid => i = j
\* C10: an honest sign-in at an allowed origin, delivered as it is, is accepted
HonestAccepted(st) ==
  \A n \in 1..Len(st.sess) : LET s == st.sess[n] IN
    (s.kind = "auth" /\ s.open) =>
      \A x \in st.sigs :
        (x.tag = "ad" /\ x.cd.type = "get" /\ x.cd.chal = n /\ x.cd.org \in s.orgs /\ x.cd.tb = s.tb /\ x.ad.up /\ (s.uv => x.ad.uv) /\ (s.ext => x.ad.ext)) =>
          \A k \in 1..Len(st.store) : LET r == st.store[k] IN
            (/\ r.key = x.key /\ (r.cnt < x.ad.cnt \/ s.ign) /\ (s.user = 0 \/ s.user = r.user) /\ (s.allow = {} \/ r.cid \in s.allow)
             /\ (s.given => s.rp = x.ad.rp /\ r.rp \in {0, s.rp}) /\ (~s.given => r.rp = x.ad.rp)) =>
              AuthFaults(st, n, [cid |-> r.cid, cd |-> x.cd, ad |-> x.ad, sig |-> x, uh |-> r.user]) = {}
=============================================================================
