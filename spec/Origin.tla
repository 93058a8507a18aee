------------------------------- MODULE Origin -------------------------------
(* Web origins (HTML 7.5) as scheme, host and port.  No claim ("unk") whether *)
(* texts with white space, control or non-ASCII characters, an empty query,  *)
(* fragment or port, userinfo, or upper case host letters are accepted; but  *)
(* whatever they denote, it is one of a few origins ("den").                 *)
EXTENDS Bytes

O_sep == Ascii("://")
O_http == Ascii("http") O_https == Ascii("https")
Lower(b) == Tup([i \in 1..Len(b) |-> IF b[i] >= 65 /\ b[i] <= 90 THEN b[i] + 32 ELSE b[i]])
Graphic(b) == \A i \in 1..Len(b) : b[i] > 32 /\ b[i] < 127
IsDigits(b) == b # <<>> /\ \A i \in 1..Len(b) : b[i] >= 48 /\ b[i] <= 57
RECURSIVE DecNat(_)
DecNat(b) == IF b = <<>> THEN 0 ELSE DecNat(SubSeq(b, 1, Len(b) - 1)) * 10 + (b[Len(b)] - 48)
RECURSIVE StripLead0(_)
StripLead0(b) == IF Len(b) > 1 /\ b[1] = 48 THEN StripLead0(Tail(b)) ELSE b
SepAt(b) == LET S == {i \in 1..(Len(b) - 2) : SubSeq(b, i, i + 2) = O_sep} IN
            IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

(* ---- IPv6 literals: the sixteen bytes they denote ---- *)
V6Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
RECURSIVE V6Nat(_)
V6Nat(b) == IF b = <<>> THEN 0 ELSE V6Nat(SubSeq(b, 1, Len(b) - 1)) * 16 + V6Hex(b[Len(b)])
RECURSIVE SplitOn(_, _)
SplitOn(b, c) ==
  LET S == {i \in 1..Len(b) : b[i] = c} IN
  IF S = {} THEN <<b>>
  ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j
       IN <<SubSeq(b, 1, i - 1)>> \o SplitOn(SubSeq(b, i + 1, Len(b)), c)
\* the bytes of a run of groups, <<-1>> if it is none; a dotted quad may end it when last
V4Ok(g) == LET q == SplitOn(g, 46) IN
  Len(q) = 4 /\ \A i \in 1..4 : IsDigits(q[i]) /\ Len(q[i]) <= 3 /\ (Len(q[i]) > 1 => q[i][1] # 48) /\ DecNat(q[i]) <= 255
V4Bytes(g) == LET q == SplitOn(g, 46) IN Tup([i \in 1..4 |-> DecNat(q[i])])
GroupOk(g) == Len(g) \in 1..4 /\ \A i \in 1..Len(g) : V6Hex(g[i]) >= 0
GroupBytes(g) == <<V6Nat(g) \div 256, V6Nat(g) % 256>>
RECURSIVE RunBytes(_, _)
RunBytes(gs, last) ==
  IF gs = <<>> THEN <<>>
  ELSE LET g == Head(gs) IN
       IF GroupOk(g) THEN LET r == RunBytes(Tail(gs), last) IN IF r = <<-1>> THEN r ELSE GroupBytes(g) \o r
       ELSE IF last /\ Len(gs) = 1 /\ V4Ok(g) THEN V4Bytes(g)
       ELSE <<-1>>
V6Groups(b) == IF b = <<>> THEN <<>> ELSE SplitOn(b, 58)
DoubleColons(b) == {i \in 1..(Len(b) - 1) : b[i] = 58 /\ b[i + 1] = 58}
\* sixteen bytes or <<-1>>
V6Bytes(b) ==
  LET D == DoubleColons(b) IN
  IF D = {} THEN LET r == RunBytes(V6Groups(b), TRUE) IN IF Len(r) = 16 THEN r ELSE <<-1>>
  ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j
           l == RunBytes(V6Groups(SubSeq(b, 1, i - 1)), FALSE)
           r == RunBytes(V6Groups(SubSeq(b, i + 2, Len(b))), TRUE)
           n == 16 - Len(l) - Len(r)
       IN IF l = <<-1>> \/ r = <<-1>> \/ Cardinality(D) > 1 \/ n < 2 THEN <<-1>>
          ELSE l \o Tup([k \in 1..n |-> 0]) \o r

(* ---- what a text may denote ---- *)
\* k: "ok" (it denotes the origin scheme, host, port), "bad" (it denotes none), "unk" (no claim whether it
\* is accepted); den: the origins, in a canonical form, that it may denote; any: it might denote anything
OBad == [k |-> "bad", why |-> "origin", any |-> FALSE, den |-> {}]
OAny == [k |-> "unk", any |-> TRUE, den |-> {}]
OMay(den) == [k |-> "unk", any |-> FALSE, den |-> den]
OOne(s, h, p, d) == [k |-> "ok", any |-> FALSE, den |-> {<<s, d, p>>}, scheme |-> s, host |-> h, port |-> p]
DefaultPort(s) == IF s = O_http THEN 80 ELSE 443
Bracketed(h) == Len(h) > 2 /\ h[1] = 91 /\ h[Len(h)] = 93
CanonHost(h) == IF Bracketed(h) /\ V6Bytes(SubSeq(h, 2, Len(h) - 1)) # <<-1>>
                THEN <<91>> \o V6Bytes(SubSeq(h, 2, Len(h) - 1)) ELSE Lower(h)
\* the same with user information before it
CanonAuthority(h) == LET at == LastIndex(h, 64) IN Lower(SubSeq(h, 1, at)) \o CanonHost(SubSeq(h, at + 1, Len(h)))

\* the part between scheme and path, without user information
ParseHostPort(s, auth) ==
  LET rb == LastIndex(auth, 93)                                          \* ]
      colon == LET c == LastIndex(auth, 58) IN IF c > rb THEN c ELSE 0
      host == IF colon = 0 THEN auth ELSE SubSeq(auth, 1, colon - 1)
      port == IF colon = 0 THEN <<>> ELSE SubSeq(auth, colon + 1, Len(auth))
      bracket == SeqHas(auth, 91) \/ SeqHas(auth, 93)
      big == Len(StripLead0(port)) > 5 \/ (IsDigits(port) /\ DecNat(StripLead0(port)) > 65535)
      num == IF colon = 0 THEN DefaultPort(s) ELSE DecNat(StripLead0(port))
      empty == colon > 0 /\ port = <<>>
  IN IF host = <<>> THEN OBad
     ELSE IF bracket /\ ~(Bracketed(host) /\ V6Bytes(SubSeq(host, 2, Len(host) - 1)) # <<-1>>) THEN OAny
     ELSE IF ~bracket /\ SeqHas(host, 58) THEN OBad                      \* a:1:2: the port is "1:2"
     ELSE IF empty THEN OMay({<<s, CanonHost(host), DefaultPort(s)>>, <<s, Lower(auth), DefaultPort(s)>>})
     ELSE IF colon > 0 /\ (~IsDigits(port) \/ big) THEN OBad
     ELSE OOne(s, host, num, CanonHost(host))

ParseGraphic(b) ==
  LET sep == SepAt(b)
      scheme == Lower(SubSeq(b, 1, sep - 1))
      rest == SubSeq(b, sep + 3, Len(b))
      delim == {i \in 1..Len(rest) : rest[i] \in {47, 63, 35}}           \* / ? #
      d == IF delim = {} THEN 0 ELSE CHOOSE i \in delim : \A j \in delim : i <= j
      auth == IF d = 0 THEN rest ELSE SubSeq(rest, 1, d - 1)
      tail == IF d = 0 THEN <<>> ELSE SubSeq(rest, d, Len(rest))
      at == LastIndex(auth, 64)                                          \* @
      hp == ParseHostPort(scheme, SubSeq(auth, at + 1, Len(auth)))
      ui == SubSeq(auth, 1, at)
  IN IF sep = 0 THEN OBad
     ELSE IF scheme # O_http /\ scheme # O_https THEN OBad
     ELSE IF tail # <<>> /\ tail # <<63>> /\ tail # <<35>> /\ tail # <<63, 35>> THEN OBad
     ELSE IF hp.k = "bad" \/ hp.any THEN hp
     ELSE LET full == hp.den \cup (IF at = 0 THEN {} ELSE {<<x[1], Lower(ui) \o x[2], x[3]>> : x \in hp.den})
          IN IF tail # <<>> \/ at > 0 THEN OMay(full) ELSE hp

ParseOrigin(b) ==
  IF SepAt(b) = 0 THEN OBad
  ELSE IF Graphic(b) THEN ParseGraphic(b)
  ELSE IF \E i \in 1..Len(b) : b[i] > 127 THEN OAny
  ELSE LET r == ParseGraphic(SelectSeq(b, LAMBDA c : c > 32 /\ c < 127))   \* white space and control characters
       IN IF r.k = "bad" \/ r.any THEN OAny ELSE OMay(r.den)

\* do two parsed origins denote the same origin?  "yes" | "no" | "unk"
SameOrigin(a, b) ==
  IF a.k = "bad" \/ b.k = "bad" THEN "no"
  ELSE IF a.any \/ b.any THEN "unk"
  ELSE IF a.k = "ok" /\ b.k = "ok" /\ a.scheme = b.scheme /\ a.port = b.port /\ a.host = b.host THEN "yes"
  ELSE IF a.den \cap b.den = {} THEN "no" ELSE "unk"
=============================================================================
