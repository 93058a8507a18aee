------------------------------ MODULE JsonText ------------------------------
(* JSON texts (RFC 8259) over UTF-8 bytes, with the last of duplicate        *)
(* members winning (as in browsers).  "unk": NaN, Infinity and numbers of    *)
(* thousands of digits, on which implementations differ.                     *)
EXTENDS Bytes

Ws == {32, 9, 10, 13}
RECURSIVE SkipWs(_, _)
SkipWs(b, i) == IF i <= Len(b) /\ b[i] \in Ws THEN SkipWs(b, i + 1) ELSE i

Digit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Hex4(b, i) == IF i + 3 > Len(b) \/ \E j \in 0..3 : HexVal(b[i+j]) < 0 THEN -1
              ELSE HexVal(b[i]) * 4096 + HexVal(b[i+1]) * 256 + HexVal(b[i+2]) * 16 + HexVal(b[i+3])
Lit(b, i, w) == i + Len(w) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(w) - 1) = w
W_true == Ascii("true") W_false == Ascii("false") W_null == Ascii("null")
W_nan == Ascii("NaN") W_inf == Ascii("Infinity") W_ninf == Ascii("-Infinity")
Escapes == Ascii("\"\\/bfnrt")
EscVal == <<34, 92, 47, 8, 12, 10, 13, 9>>

RECURSIVE DigitsEnd(_, _)
DigitsEnd(b, i) == IF i <= Len(b) /\ Digit(b[i]) THEN DigitsEnd(b, i + 1) ELSE i
\* index after the longest number at i, or 0
NumEnd(b, i) ==
  LET s == IF i <= Len(b) /\ b[i] = 45 THEN i + 1 ELSE i IN
  IF s > Len(b) \/ ~Digit(b[s]) THEN 0
  ELSE LET e1 == IF b[s] = 48 THEN s + 1 ELSE DigitsEnd(b, s)
           e2 == IF e1 + 1 <= Len(b) /\ b[e1] = 46 /\ Digit(b[e1+1]) THEN DigitsEnd(b, e1 + 1) ELSE e1
           p == IF e2 <= Len(b) /\ b[e2] \in {69, 101}
                THEN IF e2 + 1 <= Len(b) /\ b[e2+1] \in {43, 45} THEN e2 + 2 ELSE e2 + 1 ELSE 0
       IN IF p > 0 /\ p <= Len(b) /\ Digit(b[p]) THEN DigitsEnd(b, p) ELSE e2

\* index of the next quote, backslash or control character at or after i
RECURSIVE StrStop(_, _)
StrStop(b, i) == IF i > Len(b) \/ b[i] = 34 \/ b[i] = 92 \/ b[i] < 32 THEN i ELSE StrStop(b, i + 1)
\* string body from i (after the opening quote): [k, u, n]
RECURSIVE Str(_, _, _)
Str(b, i, acc) ==
  LET j == StrStop(b, i)
      acc1 == acc \o SubSeq(b, i, j - 1)
  IN IF j > Len(b) THEN Bad("json")
     ELSE IF b[j] = 34 THEN [k |-> "ok", u |-> acc1, n |-> j + 1]
     ELSE IF b[j] < 32 \/ j + 1 > Len(b) THEN Bad("json")
     ELSE LET c == b[j+1] IN
       IF c = 117 THEN
         LET h == Hex4(b, j + 2) IN
         IF h < 0 THEN Bad("json")
         ELSE IF h >= 55296 /\ h <= 56319 /\ j + 7 <= Len(b) /\ b[j+6] = 92 /\ b[j+7] = 117
                 /\ Hex4(b, j + 8) >= 56320 /\ Hex4(b, j + 8) <= 57343
              THEN Str(b, j + 12, acc1 \o Utf8Enc(65536 + (h - 55296) * 1024 + (Hex4(b, j + 8) - 56320)))
              ELSE Str(b, j + 6, acc1 \o Utf8Enc(h))
       ELSE IF SeqHas(Escapes, c)
            THEN Str(b, j + 2, Append(acc1, EscVal[CHOOSE q \in 1..8 : Escapes[q] = c]))
            ELSE Bad("json")

SetMember(m, key, v) ==
  LET S == {j \in 1..Len(m) : m[j][1] = key} IN
  IF S = {} THEN Append(m, <<key, v>>) ELSE [m EXCEPT ![CHOOSE j \in S : TRUE] = <<key, v>>]

\* Val(b, i): value at i (no leading white space). Objects: [t |-> "object", m |-> <<<<key, value>>...>>]
RECURSIVE Val(_, _), Items(_, _, _), Members(_, _, _)
Val(b, i) ==
  IF i > Len(b) THEN Bad("json")
  ELSE LET c == b[i] IN
    IF c = 34 THEN LET r == Str(b, i + 1, <<>>) IN
                   IF r.k = "ok" THEN [k |-> "ok", v |-> VText(r.u), n |-> r.n] ELSE r
    ELSE IF c = 123 THEN
      LET j == SkipWs(b, i + 1) IN
      IF j <= Len(b) /\ b[j] = 125 THEN [k |-> "ok", v |-> [t |-> "object", m |-> <<>>], n |-> j + 1]
      ELSE Members(b, j, <<>>)
    ELSE IF c = 91 THEN
      LET j == SkipWs(b, i + 1) IN
      IF j <= Len(b) /\ b[j] = 93 THEN [k |-> "ok", v |-> VList(<<>>), n |-> j + 1]
      ELSE Items(b, j, <<>>)
    ELSE IF Lit(b, i, W_true) THEN [k |-> "ok", v |-> VBool(TRUE), n |-> i + 4]
    ELSE IF Lit(b, i, W_false) THEN [k |-> "ok", v |-> VBool(FALSE), n |-> i + 5]
    ELSE IF Lit(b, i, W_null) THEN [k |-> "ok", v |-> VNone, n |-> i + 4]
    ELSE IF Lit(b, i, W_nan) \/ Lit(b, i, W_inf) \/ Lit(b, i, W_ninf) THEN Unk
    ELSE LET e == NumEnd(b, i) IN
         IF e = 0 THEN Bad("json") ELSE IF e - i > 4000 THEN Unk
         ELSE [k |-> "ok", v |-> [t |-> "num", s |-> SubSeq(b, i, e - 1)], n |-> e]
Items(b, i, acc) ==
  LET r == Val(b, i) IN
  IF r.k # "ok" THEN r
  ELSE LET j == SkipWs(b, r.n) IN
    IF j > Len(b) THEN Bad("json")
    ELSE IF b[j] = 93 THEN [k |-> "ok", v |-> VList(Append(acc, r.v)), n |-> j + 1]
    ELSE IF b[j] = 44 THEN Items(b, SkipWs(b, j + 1), Append(acc, r.v))
    ELSE Bad("json")
Members(b, i, acc) ==
  IF i > Len(b) \/ b[i] # 34 THEN Bad("json")
  ELSE LET key == Str(b, i + 1, <<>>) IN
    IF key.k # "ok" THEN key
    ELSE LET c == SkipWs(b, key.n) IN
      IF c > Len(b) \/ b[c] # 58 THEN Bad("json")
      ELSE LET r == Val(b, SkipWs(b, c + 1)) IN
        IF r.k # "ok" THEN r
        ELSE LET j == SkipWs(b, r.n)
                 acc1 == SetMember(acc, key.u, r.v) IN
          IF j > Len(b) THEN Bad("json")
          ELSE IF b[j] = 125 THEN [k |-> "ok", v |-> [t |-> "object", m |-> acc1], n |-> j + 1]
          ELSE IF b[j] = 44 THEN Members(b, SkipWs(b, j + 1), acc1)
          ELSE Bad("json")

ParseJson(b) ==
  IF ~Utf8Valid(b) THEN Bad("utf8")
  ELSE LET r == Val(b, SkipWs(b, 1)) IN
       IF r.k # "ok" THEN r
       ELSE IF SkipWs(b, r.n) # Len(b) + 1 THEN Bad("json") ELSE r
JGet(m, key) == LET S == {j \in 1..Len(m) : m[j][1] = key} IN
                IF S = {} THEN VNone ELSE m[CHOOSE j \in S : TRUE][2]

(* ---- collected client data (WebAuthn 5.10.1) ---- *)
J_type == Ascii("type") J_chal == Ascii("challenge") J_origin == Ascii("origin")
J_tb == Ascii("tokenBinding") J_status == Ascii("status") J_id == Ascii("id")
StatusOf(v) == IF v.t # "text" THEN VNone
               ELSE IF v.u = Ascii("present") THEN VEnum("TokenBindingStatus", "PRESENT")
               ELSE IF v.u = Ascii("supported") THEN VEnum("TokenBindingStatus", "SUPPORTED")
               ELSE VNone
ParseClientData(b) ==
  LET r == ParseJson(b) IN
  IF r.k = "bad" THEN Bad("cdjson") ELSE IF r.k = "unk" THEN Unk
  ELSE IF r.v.t # "object" THEN Bad("cd")
  ELSE LET m == r.v.m
           ty == JGet(m, J_type) ch == JGet(m, J_chal) orig == JGet(m, J_origin)
           tb == JGet(m, J_tb)
       IN IF ty.t # "text" \/ ch.t # "text" \/ orig.t # "text" THEN Bad("cd")
          ELSE IF tb.t = "none"
            THEN Ok(VObj("CollectedClientData", [type |-> ty, challenge |-> ch, origin |-> orig, token_binding |-> VNone]))
          ELSE IF tb.t # "object" THEN Bad("cd")
          ELSE LET st == StatusOf(JGet(tb.m, J_status))
                   id == JGet(tb.m, J_id)
               IN IF st.t # "enum" \/ (st.n = "PRESENT" /\ id.t = "none") THEN Bad("cd")
                  ELSE IF id.t \notin {"none", "text"} THEN Unk      \* identifier that is no text: no claim
                  ELSE Ok(VObj("CollectedClientData",
                       [type |-> ty, challenge |-> ch, origin |-> orig,
                        token_binding |-> VObj("TokenBinding", [status |-> st, id |-> id])]))
=============================================================================
