------------------------------- MODULE Bytes -------------------------------
(* Byte strings (sequences over 0..255), ASCII and UTF-8, big-endian        *)
(* naturals kept as byte strings (TLC integers are 32-bit), base64.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Byte == 0..255

\* a sequence given by a function constructor, evaluated now and once
Tup(f) == f \o <<>>
\* F(v) with v evaluated first (TLC passes arguments and LET values by need and
\* does not always keep them)
With(v, F(_)) == CHOOSE r \in {F(x) : x \in {v}} : TRUE
With2(v, w, F(_, _)) == CHOOSE r \in {F(x, y) : x \in {v}, y \in {w}} : TRUE

CharList == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* (@@ makes TLC tabulate a function once instead of evaluating its body at each use)
CharCode == ("" :> 0) @@ [c \in {SubSeq(CharList, i, i) : i \in 1..95} |->
               (CHOOSE i \in 1..95 : SubSeq(CharList, i, i) = c) + 31]
\* the bytes of a printable ASCII string constant
Ascii(s) == Tup([i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)]])

Slice(b, from, n) == SubSeq(b, from, from + n - 1)   \* n bytes starting at index from
Zeros(n) == [i \in 1..n |-> 0]
SeqHas(s, x) == \E i \in 1..Len(s) : s[i] = x

Bit(byte, k) == (byte \div (2^k)) % 2 = 1

\* index (1-based) of the first occurrence of byte c in b at or after i, or 0
IndexFrom(b, c, i) == LET S == {j \in i..Len(b) : b[j] = c} IN
                      IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
LastIndex(b, c) == LET S == {j \in 1..Len(b) : b[j] = c} IN
                   IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j >= k
HasSub(b, sub) == \E i \in 1..(Len(b) - Len(sub) + 1) : SubSeq(b, i, i + Len(sub) - 1) = sub

(* ---- big-endian naturals as byte strings ---- *)
RECURSIVE StripZeros(_)
StripZeros(b) == IF b # <<>> /\ b[1] = 0 THEN StripZeros(Tail(b)) ELSE b

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
\* a < b as unsigned big-endian numbers of any length
BeLess(a, b) == LET x == StripZeros(a) y == StripZeros(b) IN
                IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLess(x, y, 1)
BeEq(a, b) == StripZeros(a) = StripZeros(b)
\* value as a TLC integer; only for values below 2^31
RECURSIVE BeNat(_)
BeNat(b) == IF b = <<>> THEN 0 ELSE BeNat(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
BeSmall(b) == LET s == StripZeros(b) IN Len(s) < 4 \/ (Len(s) = 4 /\ s[1] < 128)
RECURSIVE NatBe(_)
NatBe(n) == IF n = 0 THEN <<>> ELSE Append(NatBe(n \div 256), n % 256)

(* ---- UTF-8 ---- *)
Cont(c) == c >= 128 /\ c <= 191
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE LET c == b[i] n == Len(b) IN
    IF c < 128 THEN
      \* skip a run of ASCII in one step
      LET S == {j \in i..n : b[j] >= 128} IN
      IF S = {} THEN TRUE ELSE Utf8From(b, CHOOSE j \in S : \A k \in S : j <= k)
    ELSE IF c >= 194 /\ c <= 223 THEN i + 1 <= n /\ Cont(b[i+1]) /\ Utf8From(b, i + 2)
    ELSE IF c >= 224 /\ c <= 239 THEN
      /\ i + 2 <= n /\ Cont(b[i+1]) /\ Cont(b[i+2])
      /\ (c = 224 => b[i+1] >= 160) /\ (c = 237 => b[i+1] <= 159)
      /\ Utf8From(b, i + 3)
    ELSE IF c >= 240 /\ c <= 244 THEN
      /\ i + 3 <= n /\ Cont(b[i+1]) /\ Cont(b[i+2]) /\ Cont(b[i+3])
      /\ (c = 240 => b[i+1] >= 144) /\ (c = 244 => b[i+1] <= 143)
      /\ Utf8From(b, i + 4)
    ELSE FALSE
Utf8Valid(b) == Utf8From(b, 1)
\* UTF-8 of one code point (surrogates encoded as three bytes)
Utf8Enc(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
  ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

(* ---- base64 ---- *)
StdAlpha == Ascii("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
UrlAlpha == Ascii("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
PadChar == 61
\* digit value of a character, both alphabets accepted; -1 for others
B64Val == (256 :> -1) @@ [c \in Byte |->
             IF c = 45 THEN 62 ELSE IF c = 95 THEN 63
             ELSE IF \E i \in 1..64 : StdAlpha[i] = c
                  THEN (CHOOSE i \in 1..64 : StdAlpha[i] = c) - 1 ELSE -1]
StdSet == {StdAlpha[i] : i \in 1..64}
UrlSet == {UrlAlpha[i] : i \in 1..64}

\* k-th output character (1-based) of the unpadded encoding of b
B64EncLen(n) == (n * 8 + 5) \div 6
B64Char(alpha, b, k) ==
  LET bit == (k - 1) * 6
      i == bit \div 8 + 1
      o == bit % 8
      cur == b[i]
      nxt == IF i + 1 <= Len(b) THEN b[i+1] ELSE 0
      w == cur * 256 + nxt
  IN alpha[((w \div (2 ^ (10 - o))) % 64) + 1]
B64EncNoPad(alpha, b) == Tup([k \in 1..B64EncLen(Len(b)) |-> B64Char(alpha, b, k)])
B64Pad(n) == [i \in 1..((3 - (n % 3)) % 3) |-> PadChar]
B64Enc(alpha, b) == B64EncNoPad(alpha, b) \o B64Pad(Len(b))
StdB64(b) == B64Enc(StdAlpha, b)
UrlB64(b) == B64Enc(UrlAlpha, b)
UrlB64NoPad(b) == B64EncNoPad(UrlAlpha, b)

\* lenient decoding: only alphabet characters count; -1 length error for one spare digit
B64Digits(s) == SelectSeq(s, LAMBDA c : B64Val[c] >= 0)
DecodeDigits(d) ==
  LET n == (Len(d) * 6) \div 8 IN
  Tup([k \in 1..n |->
     LET bit == (k - 1) * 8
         i == bit \div 6 + 1
         o == bit % 6
         w == B64Val[d[i]] * 64 + B64Val[d[i+1]]
     IN (w \div (2 ^ (4 - o))) % 256])
\* everything before the first pad character
BeforePad(s) == LET i == IndexFrom(s, PadChar, 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)

\* what a lenient reader may take a text for: characters outside the alphabet skipped, the end at some padding
LenientStd(s) ==
  LET d(n) == SelectSeq(SubSeq(s, 1, n), LAMBDA c : c \in StdSet)
      N == {Len(s)} \cup {i - 1 : i \in {j \in 1..Len(s) : s[j] = PadChar}}
  IN {DecodeDigits(d(n)) : n \in {m \in N : Len(d(m)) % 4 # 1}}
\* standard base64 with padding: [k |-> "ok", v], "bad" (undecodable), or "may" (if it is accepted, as one of s)
DecodeStdFrom(s, d) ==
  IF (\A i \in 1..Len(d) : d[i] \in StdSet) /\ Len(d) % 4 # 1 /\ s = B64Enc(StdAlpha, DecodeDigits(d))
  THEN [k |-> "ok", v |-> DecodeDigits(d)]
  ELSE IF (\A i \in 1..Len(s) : s[i] \in StdSet) /\ Len(s) % 4 # 0 THEN [k |-> "bad"]
  ELSE LET S == LenientStd(s) IN IF S = {} THEN [k |-> "bad"] ELSE [k |-> "may", s |-> S]
DecodeStd(s) == With2(s, BeforePad(s), DecodeStdFrom)
\* does text s, as a base64url challenge, denote exactly the bytes c?  "yes" | "no" | "unk"
ChallengeDenotes(s, c) ==
  IF s = UrlB64NoPad(c) \/ s = UrlB64(c) THEN "yes"
  ELSE LET n(d) == Len(d) % 4 # 1 /\ DecodeDigits(d) = c
       IN IF With(Tup(B64Digits(BeforePad(s))), n) \/ With(Tup(B64Digits(s)), n) THEN "unk" ELSE "no"

(* ---- tagged values shared with the harness ---- *)
VNone == [t |-> "none"]
VBool(v) == [t |-> "bool", v |-> v]
VBytes(b) == [t |-> "bytes", b |-> b]
VText(u) == [t |-> "text", u |-> u]
VUInt(mag) == [t |-> "int", neg |-> FALSE, mag |-> StripZeros(mag)]
VNat(n) == [t |-> "int", neg |-> FALSE, mag |-> NatBe(n)]
VInt(n) == IF n >= 0 THEN VNat(n) ELSE [t |-> "int", neg |-> TRUE, mag |-> NatBe(-n)]
VList(l) == [t |-> "list", l |-> l]
VEnum(e, n) == [t |-> "enum", e |-> e, n |-> n]
VObj(c, f) == [t |-> "obj", c |-> c, f |-> f]
VMap(m) == [t |-> "map", m |-> m]
Ok(v) == [k |-> "ok", v |-> v]
Bad(why) == [k |-> "bad", why |-> why]
Unk == [k |-> "unk"]
=============================================================================
