----------------------------- MODULE GenProtocol -----------------------------
(* Histories of Protocol drawn by TLC's simulation, to be replayed on the    *)
(* implementation: sessions, honest use of authenticators, clones, and       *)
(* submissions that are honest messages with up to three fields replaced.    *)
EXTENDS Protocol, Json, IOUtils

DEPTH == 36
VARIABLES g_st, g_made, g_log     \* g_made: registration messages of honest creations
genvars == <<g_st, g_made, g_log>>

Some(S) == RandomElement(S)
Often(n) == Some(1..n) # 1      \* true but once in n times
Rarely(n) == Some(1..n) = 1
Log(r) == g_log' = Append(g_log, r)

\* the relying party a credential was made for
RpOfCid(cid) == LET S == {i \in 1..Len(g_st.creds) : g_st.creds[i].cid = cid} IN IF S = {} THEN 1 ELSE g_st.creds[CHOOSE i \in S : TRUE].rp
\* somebody who could sign in; whom a session is about, mostly
Someone == IF Len(g_st.store) = 0 THEN [cid |-> Bad_id, user |-> 1, rp |-> 1]
           ELSE CHOOSE r \in {[cid |-> g_st.store[i].cid, user |-> g_st.store[i].user, rp |-> RpOfCid(g_st.store[i].cid)] : i \in {Some(1..Len(g_st.store))}} : TRUE
DrawSession(kind) ==
  CHOOSE q \in {
  [kind |-> kind, rp |-> IF kind = "reg" THEN Some({1, 1, 2}) ELSE IF Often(8) THEN who.rp ELSE Some({1, 2}),
   user |-> IF kind = "reg" THEN Some({1, 2, 3}) ELSE IF Often(8) THEN (IF Rarely(2) THEN 0 ELSE who.user) ELSE Some({1, 2, 3}),
   uv |-> Rarely(3), ign |-> Rarely(8),
   allow |-> IF kind = "reg" \/ Often(3) \/ Len(g_st.store) = 0 THEN {}
             ELSE (IF Often(6) THEN {who.cid} ELSE {}) \cup (IF Rarely(2) THEN Some(SUBSET {g_st.store[i].cid : i \in 1..Len(g_st.store)}) ELSE {}) \cup (IF Rarely(3) THEN {Bad_id} ELSE {}),
   tb |-> IF Often(4) THEN 0 ELSE Some(1..3), ext |-> Rarely(4), reuse |-> Rarely(4), given |-> IF kind = "reg" THEN TRUE ELSE Often(3),
   orgs |-> IF Often(4) THEN {1} ELSE {1, 2}, keep |-> Often(3), count |-> Often(5), open |-> TRUE] : who \in {Someone}} : TRUE
OpenOf(kind) == {n \in 1..Len(g_st.sess) : g_st.sess[n].open /\ g_st.sess[n].kind = kind}
Signed(n) == {x \in g_st.sigs : x.tag = "ad" /\ x.cd.chal = n /\ x.cd.type = "get"}
Made(n) == {i \in 1..Len(g_made) : g_made[i].cd.chal = n}
New == \E k \in {IF Len(g_st.store) = 0 \/ (Len(g_st.store) < 3 /\ Rarely(3)) \/ Rarely(8) THEN "reg" ELSE "auth"} : \E s \in {DrawSession(k)} :
       /\ g_st' = NewSession(g_st, s) /\ Log([act |-> "sess", s |-> s]) /\ UNCHANGED g_made

\* mostly what a session asks for
Target(kind) == IF OpenOf(kind) # {} /\ Often(12) THEN Some(OpenOf(kind)) ELSE IF Len(g_st.sess) > 0 /\ Often(3) THEN Some(1..Len(g_st.sess)) ELSE 0
Create ==
  \E n \in {Target("reg")} :
  \E s \in {IF n = 0 THEN DrawSession("reg") ELSE g_st.sess[n]} :
  \E o \in {IF Often(6) THEN 1 ELSE 2} :
  \E a \in {[chal |-> n, org |-> o, rp |-> IF o = 1 /\ Often(8) THEN s.rp ELSE 1, uv |-> s.uv \/ Rarely(3), cnt |-> Some({0, 0, 1, 2, 5}), cid |-> 10 + Len(g_st.creds),
             key |-> 10 + Len(g_st.creds), user |-> Some({1, 2}), tb |-> IF Often(10) THEN s.tb ELSE Some(0..3), ext |-> s.ext \/ Rarely(4), fmt |-> Some({"none", "u2f", "ak"})]} :
  LET b == IF a.fmt = "u2f" /\ OtherCurve(a.key) THEN [a EXCEPT !.fmt = "none"] ELSE a
      cd == Cd("create", b.chal, b.org, b.tb)
      ad == Ad(b.rp, TRUE, b.uv, b.cnt, <<b.cid, b.key>>, b.ext)
      akey == CASE b.fmt = "u2f" -> HonestAtt [] b.fmt = "ak" -> b.key [] OTHER -> 0
      sig == CASE b.fmt = "u2f" -> U2fSigOf(HonestAtt, b.rp, cd, b.cid, b.key) [] b.fmt = "ak" -> SigOf(b.key, ad, cd) [] OTHER -> NoSig
  IN /\ CanCreate(g_st, b)
     /\ g_st' = CreateCred(g_st, b)
     /\ g_made' = Append(g_made, [cd |-> cd, ad |-> ad, fmt |-> b.fmt, akey |-> akey, sig |-> sig, kd |-> cd])
     /\ Log([act |-> "create", a |-> b])
StoredKeys == {g_st.store[i].key : i \in 1..Len(g_st.store)}
\* credentials a session would take
Fitting(s) == {c \in 1..Len(g_st.creds) : /\ g_st.creds[c].rp = s.rp
                                          /\ \E i \in 1..Len(g_st.store) : LET e == g_st.store[i] IN
                                               e.key = g_st.creds[c].key /\ (s.user \in {0, e.user}) /\ (s.allow = {} \/ e.cid \in s.allow)}
GetOne ==
  \E n \in {Target("auth")} : \E s \in {IF n = 0 THEN DrawSession("auth") ELSE g_st.sess[n]} :
  \E c \in {IF Fitting(s) # {} /\ Often(10) THEN Some(Fitting(s)) ELSE Some(1..Len(g_st.creds))} :
  \E a \in {[c |-> c, org |-> IF Often(6) THEN 1 ELSE 2, chal |-> n, up |-> Often(12), uv |-> s.uv \/ Rarely(3), tb |-> IF Often(12) THEN s.tb ELSE Some(0..3), ext |-> s.ext \/ Rarely(4),
             inc |-> IF Often(8) THEN Some({1, 1, 2}) ELSE 0]} :
  LET b == IF g_st.creds[c].rp \in RpsOf(a.org) THEN a ELSE [a EXCEPT !.org = 1] IN
  /\ g_st' = GetCred(g_st, b) /\ UNCHANGED g_made /\ Log([act |-> "get", a |-> b])
DoClone ==
  \E c \in {Some(1..Len(g_st.creds))} : \E k \in {Some(0..g_st.creds[c].cnt)} :
  /\ g_st' = Clone(g_st, [c |-> c, cnt |-> k]) /\ UNCHANGED g_made /\ Log([act |-> "clone", a |-> [c |-> c, cnt |-> k]])

(* ---- submissions ---- *)
ChangeCd(cd, n, d) ==
  CASE d = 1 -> [cd EXCEPT !.type = IF @ = "get" THEN "create" ELSE "get"] [] d = 2 -> [cd EXCEPT !.chal = n] [] d = 3 -> [cd EXCEPT !.chal = Some(0..Len(g_st.sess))]
    [] d = 4 -> [cd EXCEPT !.org = Some({1, 2, 3})] [] OTHER -> [cd EXCEPT !.tb = Some(0..3)]
ChangeAd(ad, d) ==
  CASE d = 1 -> [ad EXCEPT !.rp = Some({1, 2, 3})] [] d = 2 -> [ad EXCEPT !.up = ~@] [] d = 3 -> [ad EXCEPT !.uv = ~@] [] d = 4 -> [ad EXCEPT !.cnt = @ + Some({1, 2, 3})]
    [] d = 5 -> [ad EXCEPT !.cnt = 0] [] OTHER -> [ad EXCEPT !.ext = ~@]
AnyKey == AttackKeys \cup {g_st.creds[i].key : i \in 1..Len(g_st.creds)}
AnyCid == {Bad_id, 30} \cup {g_st.creds[i].cid : i \in 1..Len(g_st.creds)} \cup {g_st.store[i].cid : i \in 1..Len(g_st.store)}
AnySig == {NoSig} \cup g_st.sigs
ChangeAuth(m, n) ==
  LET d == Some(1..16) IN
  CHOOSE r \in {IF x <= 5 THEN [m EXCEPT !.cd = ChangeCd(@, n, x)]
                ELSE IF x <= 11 THEN [m EXCEPT !.ad = ChangeAd(@, x - 5)]
                ELSE IF x = 12 THEN [m EXCEPT !.cid = Some(AnyCid)]
                ELSE IF x = 13 THEN [m EXCEPT !.uh = Some(0..3)]
                ELSE IF x = 14 THEN [m EXCEPT !.sig = Some(AnySig)]
                ELSE IF x = 16 THEN [m EXCEPT !.cid = Bad_id]
                ELSE [m EXCEPT !.ad.att = IF @ = <<>> THEN <<Some(AnyCid), Some(AnyKey)>> ELSE <<>>] : x \in {d}} : TRUE
ChangeReg(m, n) ==
  LET d == Some(1..16) IN
  CHOOSE r \in {IF x <= 5 THEN [m EXCEPT !.cd = ChangeCd(@, n, x)]
                ELSE IF x <= 11 THEN [m EXCEPT !.ad = ChangeAd(@, x - 5)]
                ELSE IF x = 12 THEN [m EXCEPT !.ad.att = <<Some(AnyCid), @[2]>>]
                ELSE IF x = 13 THEN [m EXCEPT !.ad.att = <<@[1], Some(AnyKey)>>]
                ELSE IF x = 14 THEN [m EXCEPT !.sig = Some(AnySig)]
                ELSE IF x = 15 THEN [m EXCEPT !.kd = ChangeCd(@, n, 3)]
                ELSE [m EXCEPT !.fmt = Some({"none", "packed"})] : x \in {d}} : TRUE
\* signatures by keys of the attacker follow what was changed, most of the time
Resign(m) == IF m.sig.tag = "ad" /\ OwnKey(m.sig.key) /\ Often(5) THEN [m EXCEPT !.sig = SigOf(m.sig.key, m.ad, m.cd)] ELSE m

OwnerOf(key) == LET S == {i \in 1..Len(g_st.store) : g_st.store[i].key = key} IN
                IF S = {} THEN [cid |-> Some(AnyCid), user |-> Some({0, 1, 2})] ELSE CHOOSE r \in {[cid |-> g_st.store[i].cid, user |-> g_st.store[i].user] : i \in {Some(S)}} : TRUE
AuthBase(n) ==
  LET s == g_st.sess[n]
      fit == Signed(n)
      last == {x \in fit : \A y \in fit : (y.key = x.key) => (y.ad.cnt <= x.ad.cnt)}
      pool == IF fit # {} /\ Often(5) THEN (IF Often(4) THEN last ELSE fit) ELSE {x \in g_st.sigs : x.tag = "ad"}
      own == SigOf(Some(AttackKeys), Ad(s.rp, TRUE, TRUE, Some(1..6), <<>>, s.ext), Cd("get", n, 1, s.tb))
  IN CHOOSE m \in UNION {{[cid |-> o.cid, cd |-> x.cd, ad |-> x.ad, sig |-> x, uh |-> IF s.user = 0 THEN o.user ELSE Some({0, o.user})] : o \in {OwnerOf(x.key)}} :
                     x \in {IF pool = {} \/ Rarely(IF fit = {} THEN 2 ELSE 12) THEN own ELSE Some(pool)}} : TRUE
RegBase(n) ==
  LET s == g_st.sess[n]
      fit == Made(n)
      drawn == Ad(s.rp, TRUE, s.uv \/ Rarely(2), Some({0, 3}), <<IF Often(3) THEN 30 + n ELSE Some(AnyCid), IF Often(3) THEN Some(AttackKeys) ELSE Some(AnyKey)>>, s.ext)
      cd == Cd("create", n, 1, s.tb)
      u2f(ad) == [cd |-> cd, ad |-> ad, fmt |-> "u2f", akey |-> AttackAtt, sig |-> U2fSigOf(AttackAtt, ad.rp, cd, ad.att[1], ad.att[2]), kd |-> cd]
      ak(ad) == [cd |-> cd, ad |-> ad, fmt |-> "ak", akey |-> ad.att[2], sig |-> IF OwnKey(ad.att[2]) THEN SigOf(ad.att[2], ad, cd) ELSE NoSig, kd |-> cd]
      none(ad) == [cd |-> cd, ad |-> ad, fmt |-> "none", akey |-> 0, sig |-> NoSig, kd |-> cd]
  IN IF fit # {} /\ Often(4) THEN g_made[Some(fit)] ELSE IF g_made # <<>> /\ Often(3) THEN g_made[Some(1..Len(g_made))] ELSE CHOOSE m \in {Some({u2f(ad), ak(ad), none(ad)}) : ad \in {drawn}} : TRUE
RECURSIVE Changed(_, _, _, _)
Changed(m, n, kind, k) == IF k = 0 THEN m ELSE Changed(IF kind = "reg" THEN ChangeReg(m, n) ELSE ChangeAuth(m, n), n, kind, k - 1)
\* a message seen before, again
Replayed(n) == LET S == {i \in 1..Len(g_log) : g_log[i].act = "submit" /\ g_st.sess[g_log[i].n].kind = g_st.sess[n].kind} IN S
DoSubmit ==
  LET all == {n \in 1..Len(g_st.sess) : g_st.sess[n].open}
      auths == {n \in OpenOf("auth") : Signed(n) # {}}
      ready == auths \cup {n \in OpenOf("reg") : Made(n) # {}}
      open == IF auths # {} /\ Often(4) THEN auths ELSE IF OpenOf("auth") # {} /\ Rarely(3) THEN OpenOf("auth") ELSE IF ready # {} /\ Often(6) THEN ready ELSE all IN
  /\ open # {}
  /\ \E n \in {Some(open)} : \E again \in {Replayed(n)} :
     \E m0 \in {IF again # {} /\ Rarely(5) THEN g_log[Some(again)].m ELSE IF g_st.sess[n].kind = "reg" THEN RegBase(n) ELSE AuthBase(n)} :
     \E m \in {Resign(Changed(m0, n, g_st.sess[n].kind, (IF Rarely(2) THEN 0 ELSE IF Rarely(2) THEN 1 ELSE Some({1, 2, 3}))))} :
       /\ Known(g_st, m.sig)
       /\ g_st' = Submit(g_st, n, m, {})
       /\ Log([act |-> "submit", n |-> n, m |-> m])
       /\ UNCHANGED g_made

Init == g_st = Begin /\ g_made = <<>> /\ g_log = <<>>
Next == /\ Len(g_log) < DEPTH
        /\ \E d \in {Some(1..24)} :
           IF Len(g_st.sess) = 0 \/ OpenOf("reg") \cup OpenOf("auth") = {} \/ (d <= 4 /\ Len(g_st.sess) < 9) THEN New
           ELSE IF Len(g_st.creds) = 0 \/ (d <= 8 /\ \E n \in OpenOf("reg") : Made(n) = {}) \/ d = 9 THEN Create
           ELSE IF d <= 15 /\ ((OpenOf("auth") # {} /\ (d < 13 \/ \E n \in OpenOf("auth") : Signed(n) = {})) \/ d = 10) THEN GetOne
           ELSE IF d = 16 /\ Len(g_st.creds) < 6 THEN DoClone
           ELSE DoSubmit
Spec == Init /\ [][Next]_genvars
Emit == Len(g_log) = DEPTH => PrintT("@@" \o ToJson(g_log))
=============================================================================
