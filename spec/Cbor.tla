-------------------------------- MODULE Cbor --------------------------------
(* Byte-level CBOR decoding (RFC 7049) of the fragment authenticators use:  *)
(* definite lengths, integers, byte and text strings, arrays, maps with     *)
(* integer/text/byte keys (or simple ones), booleans, null and floats.  Anything that RFC    *)
(* 7049 allows but the fragment leaves out (tags, indefinite lengths,       *)
(* duplicate keys, other keys, other simple values) is "unk": no claim.     *)
EXTENDS Bytes

\* float payload -> 8 byte double, or <<>> when not normal (no claim)
F64OfSingle(p) ==
  LET s == p[1] \div 128
      e == (p[1] % 128) * 2 + p[2] \div 128
      m == (p[2] % 128) * 65536 + p[3] * 256 + p[4]
      E == e + 896
  IN IF e = 0 /\ m = 0 THEN <<s * 128, 0, 0, 0, 0, 0, 0, 0>>
     ELSE IF e = 0 \/ e = 255 THEN <<>>
     ELSE <<s * 128 + E \div 16, (E % 16) * 16 + m \div 524288, (m \div 2048) % 256,
            (m \div 8) % 256, (m % 8) * 32, 0, 0, 0>>
F64OfHalf(p) ==
  LET s == p[1] \div 128
      e == (p[1] % 128) \div 4
      m == (p[1] % 4) * 256 + p[2]
      E == e + 1008
  IN IF e = 0 /\ m = 0 THEN <<s * 128, 0, 0, 0, 0, 0, 0, 0>>
     ELSE IF e = 0 \/ e = 31 THEN <<>>
     ELSE <<s * 128 + E \div 16, (E % 16) * 16 + m \div 64, (m % 64) * 4, 0, 0, 0, 0, 0>>
F64Of(p) == IF Len(p) = 2 THEN F64OfHalf(p) ELSE IF Len(p) = 4 THEN F64OfSingle(p)
            ELSE IF (p[1] % 128) = 127 /\ p[2] >= 240 THEN <<>> ELSE p
VFloat(f) == [t |-> "float", f |-> f]

\* -1 - n as sign and magnitude: magnitude n + 1
RECURSIVE BeInc(_)
BeInc(b) == IF b = <<>> THEN <<1>>
            ELSE IF b[Len(b)] < 255 THEN Append(SubSeq(b, 1, Len(b) - 1), b[Len(b)] + 1)
            ELSE Append(BeInc(SubSeq(b, 1, Len(b) - 1)), 0)

\* keys: two that some reader may take for the same number (true and 1, 1.0 and 1) count as duplicates;
\* of the floating-point ones only a few small whole numbers are claimed
FloatNat == << <<1, <<63, 240, 0, 0, 0, 0, 0, 0>>>>, <<2, <<64, 0, 0, 0, 0, 0, 0, 0>>>>, <<3, <<64, 8, 0, 0, 0, 0, 0, 0>>>>, <<4, <<64, 16, 0, 0, 0, 0, 0, 0>>>>,
               <<5, <<64, 20, 0, 0, 0, 0, 0, 0>>>>, <<-1, <<191, 240, 0, 0, 0, 0, 0, 0>>>>, <<-2, <<192, 0, 0, 0, 0, 0, 0, 0>>>>, <<-3, <<192, 8, 0, 0, 0, 0, 0, 0>>>> >>
FloatWhole(f) == {i \in 1..Len(FloatNat) : FloatNat[i][2] = f}
KeyOk(v) == v.t \in {"int", "text", "bytes", "bool", "none"} \/ (v.t = "float" /\ FloatWhole(v.f) # {})
KeyNum(v) == IF v.t = "bool" THEN VInt(IF v.v THEN 1 ELSE 0)
             ELSE IF v.t = "float" THEN VInt(FloatNat[CHOOSE i \in FloatWhole(v.f) : TRUE][1]) ELSE v
SameKey(v, w) == LET a == KeyNum(v) b == KeyNum(w) IN a.t = b.t /\ a = b

\* Dec(b, i): one item starting at index i.
\*   [k |-> "ok", v, n] with n the index after it | [k |-> "bad"] | [k |-> "unk"]
RECURSIVE Dec(_, _), DecList(_, _, _, _), DecMap(_, _, _, _)
Dec(b, i) ==
  IF i > Len(b) THEN Bad("eof")
  ELSE LET mt == b[i] \div 32
           ai == b[i] % 32
           extra == IF ai < 24 THEN 0 ELSE IF ai = 24 THEN 1 ELSE IF ai = 25 THEN 2
                    ELSE IF ai = 26 THEN 4 ELSE IF ai = 27 THEN 8 ELSE 0
           n == i + 1 + extra
           raw == SubSeq(b, i + 1, i + extra)
           arg == IF ai < 24 THEN StripZeros(<<ai>>) ELSE StripZeros(raw)
           rest == Len(b) - n + 1
           count == BeNat(arg)
       IN
       IF ai \in 28..30 THEN Bad("reserved")
       ELSE IF ai = 31 THEN IF mt \in {0, 1, 6} THEN Bad("reserved") ELSE Unk
       ELSE IF n - 1 > Len(b) THEN Bad("eof")
       ELSE CASE mt = 0 -> [k |-> "ok", v |-> VUInt(arg), n |-> n]
         [] mt = 1 -> [k |-> "ok", v |-> [t |-> "int", neg |-> TRUE, mag |-> BeInc(arg)], n |-> n]
         [] mt \in {2, 3} ->
              IF ~BeSmall(arg) \/ count > rest THEN Bad("eof")
              ELSE LET s == Slice(b, n, count) IN
                   IF mt = 2 THEN [k |-> "ok", v |-> VBytes(s), n |-> n + count]
                   ELSE IF Utf8Valid(s) THEN [k |-> "ok", v |-> VText(s), n |-> n + count]
                   ELSE Bad("utf8")
         [] mt = 4 -> IF ~BeSmall(arg) \/ count > rest THEN Bad("eof")
                      ELSE DecList(b, n, count, <<>>)
         [] mt = 5 -> IF ~BeSmall(arg) \/ count > rest THEN Bad("eof")
                      ELSE DecMap(b, n, count, <<>>)
         [] mt = 6 -> Unk
         [] mt = 7 -> IF ai = 20 THEN [k |-> "ok", v |-> VBool(FALSE), n |-> n]
                      ELSE IF ai = 21 THEN [k |-> "ok", v |-> VBool(TRUE), n |-> n]
                      ELSE IF ai = 22 THEN [k |-> "ok", v |-> VNone, n |-> n]
                      ELSE IF ai \in 25..27
                           THEN LET f == F64Of(raw) IN
                                IF f = <<>> THEN Unk ELSE [k |-> "ok", v |-> VFloat(f), n |-> n]
                      ELSE Unk
\* a bad item makes the whole bad unless something unclaimed came first
DecList(b, i, count, acc) ==
  IF count = 0 THEN [k |-> "ok", v |-> VList(acc), n |-> i]
  ELSE LET r == Dec(b, i) IN
       IF r.k # "ok" THEN r ELSE DecList(b, r.n, count - 1, Append(acc, r.v))
DecMap(b, i, count, acc) ==
  IF count = 0 THEN [k |-> "ok", v |-> VMap(acc), n |-> i]
  ELSE LET r == Dec(b, i) IN
       IF r.k # "ok" THEN r
       ELSE IF ~KeyOk(r.v) \/ \E j \in 1..Len(acc) : SameKey(acc[j][1], r.v) THEN Unk
       ELSE LET w == Dec(b, r.n) IN
            IF w.k # "ok" THEN w ELSE DecMap(b, w.n, count - 1, Append(acc, <<r.v, w.v>>))

(* ---- map access: no heterogeneous set comparisons ---- *)
KeyIs(kv, key) == kv.t = key.t /\ kv = key
HasKey(m, key) == \E j \in 1..Len(m) : KeyIs(m[j][1], key)
Get(m, key) == IF HasKey(m, key) THEN m[CHOOSE j \in 1..Len(m) : KeyIs(m[j][1], key)][2] ELSE VNone
\* all keys of m are among the sequence of keys ks
OnlyKeys(m, ks) == \A j \in 1..Len(m) : \E q \in 1..Len(ks) : KeyIs(m[j][1], ks[q])
TextKey(s) == VText(Ascii(s))

(* ---- encoding, used by the model (round-trip laws) ---- *)
Head1(mt, n) == IF n < 24 THEN <<mt * 32 + n>> ELSE IF n < 256 THEN <<mt * 32 + 24, n>>
                ELSE <<mt * 32 + 25, n \div 256, n % 256>>
EncMag(mt, mag) == IF Len(mag) = 0 THEN <<mt * 32>>
                   ELSE IF Len(mag) = 1 THEN Head1(mt, mag[1])
                   ELSE IF Len(mag) = 2 THEN <<mt * 32 + 25>> \o mag
                   ELSE IF Len(mag) <= 4 THEN <<mt * 32 + 26>> \o Zeros(4 - Len(mag)) \o mag
                   ELSE <<mt * 32 + 27>> \o Zeros(8 - Len(mag)) \o mag
RECURSIVE BeDec(_)
BeDec(b) == IF b[Len(b)] > 0 THEN StripZeros(Append(SubSeq(b, 1, Len(b) - 1), b[Len(b)] - 1))
            ELSE StripZeros(Append(BeDec(SubSeq(b, 1, Len(b) - 1)), 255))
RECURSIVE Enc(_), EncAll(_), EncPairs(_)
Enc(v) ==
  CASE v.t = "int" -> IF v.neg THEN EncMag(1, BeDec(v.mag)) ELSE EncMag(0, v.mag)
    [] v.t = "bytes" -> Head1(2, Len(v.b)) \o v.b
    [] v.t = "text" -> Head1(3, Len(v.u)) \o v.u
    [] v.t = "list" -> Head1(4, Len(v.l)) \o EncAll(v.l)
    [] v.t = "map" -> Head1(5, Len(v.m)) \o EncPairs(v.m)
    [] v.t = "bool" -> IF v.v THEN <<245>> ELSE <<244>>
    [] v.t = "none" -> <<246>>
    [] v.t = "float" -> <<251>> \o v.f
EncAll(l) == IF l = <<>> THEN <<>> ELSE Enc(l[1]) \o EncAll(Tail(l))
EncPairs(m) == IF m = <<>> THEN <<>> ELSE Enc(m[1][1]) \o Enc(m[1][2]) \o EncPairs(Tail(m))
=============================================================================
