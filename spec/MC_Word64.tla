----------------------------- MODULE MC_Word64 ------------------------------
(* Self-check of the word arithmetic of the specification: the byte-level    *)
(* operators agree with native arithmetic on every pair of 8-bit words, the  *)
(* same operators on 16-bit words on a boundary grid, and the fast path      *)
(* agrees with the byte level on a grid around its limits.                   *)
EXTENDS Word64
VARIABLES a, b
LOCAL Sgn8(x) == IF x >= 128 THEN x - 256 ELSE x
LOCAL Wrap8(x) == (x + 65536 * 4) % 256
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
LOCAL TDiv(x, y) == IF (x < 0) # (y < 0) THEN -(Abs(x) \div Abs(y)) ELSE Abs(x) \div Abs(y)
LOCAL TRem(x, y) == IF x < 0 THEN -(Abs(x) % Abs(y)) ELSE Abs(x) % Abs(y)
LOCAL P16(x) == <<x % 256, (x \div 256) % 256>>
LOCAL S16(w) == LET x == w[1] + 256 * w[2] IN IF x >= 32768 THEN x - 65536 ELSE x
LOCAL Wrap16(x) == (IF x < 0 THEN (x % 65536) ELSE x) % 65536

Grid == {-1073741824, -1073741823, -65537, -32769, -32768, -32767, -257, -256, -255, -129, -128, -127, -3, -2, -1,
         0, 1, 2, 3, 10, 100, 127, 128, 129, 255, 256, 257, 32766, 32767, 32768, 46341, 65535, 65536, 65537,
         1073741822, 1073741823}

Init == a \in (0..255) \cup Grid /\ b = 0
Next == /\ b = 0 /\ UNCHANGED a
        /\ \/ a \in 0..255 /\ b' \in 1..255
           \/ a \in Grid /\ b' \in Grid \ {0}
Spec == Init /\ [][Next]_<<a, b>>

Byte == a \in 0..255 /\ b \in 0..255 =>
  LET x == Sgn8(a) y == Sgn8(b) IN
  /\ AddB(<<a>>, <<b>>) = <<Wrap8(x + y)>>
  /\ SubB(<<a>>, <<b>>) = <<Wrap8(x - y)>>
  /\ MulB(<<a>>, <<b>>) = <<Wrap8(x * y)>>
  /\ NegB(<<a>>) = <<Wrap8(-x)>>
  /\ SLessB(<<a>>, <<b>>) = (x < y)
  /\ ULessB(<<a>>, <<b>>) = (a < b)
  /\ b # 0 => /\ DivB(<<a>>, <<b>>) = <<Wrap8(TDiv(x, y))>>
              /\ RemB(<<a>>, <<b>>) = <<Wrap8(TRem(x, y))>>
              /\ UDivBits(<<a>>, <<b>>) = UDivInt(<<a>>, b)

Two == a \in Grid /\ b \in Grid /\ a >= -32768 /\ a <= 32767 /\ b >= -32768 /\ b <= 32767 =>
  LET p == P16(a % 65536) q == P16(b % 65536) IN
  /\ AddB(p, q) = P16((a + b) % 65536)
  /\ SubB(p, q) = P16((a - b) % 65536)
  /\ MulB(p, q) = P16((a * b) % 65536)
  /\ SLessB(p, q) = (a < b)
  /\ b # 0 => /\ DivB(p, q) = P16(TDiv(a, b) % 65536)
              /\ RemB(p, q) = P16(TRem(a, b) % 65536)
              /\ b > 0 => UDivBits(p, q) = UDivInt(p, b)

Fast == a \in Grid /\ b \in Grid =>
  LET p == <<a>> q == <<b>> IN
  /\ Norm(ToBytes(p)) = p
  /\ WAdd(p, q) = Norm(AddB(ToBytes(p), ToBytes(q)))
  /\ WSub(p, q) = Norm(SubB(ToBytes(p), ToBytes(q)))
  /\ WMul(p, q) = Norm(MulB(ToBytes(p), ToBytes(q)))
  /\ WNeg(p) = Norm(NegB(ToBytes(p)))
  /\ WLess(p, q) = SLessB(ToBytes(p), ToBytes(q))
  /\ b # 0 => /\ WDiv(p, q) = Norm(DivB(ToBytes(p), ToBytes(q)))
              /\ WRem(p, q) = Norm(RemB(ToBytes(p), ToBytes(q)))
  \* ring laws beyond the fast path
  /\ WSub(WAdd(WMul(p, q), WMax), WMax) = WMul(p, q)
  /\ WAdd(WMax, W1) = WMin
  /\ WNeg(WMin) = WMin
  /\ WDiv(WMin, <<-1>>) = WMin /\ WRem(WMin, <<-1>>) = W0
  /\ LET m == WMul(WMul(p, q), p) IN
       b # 0 => WAdd(WMul(WDiv(m, q), q), WRem(m, q)) = m
  /\ WOfDec(S("18446744073709551615")) = <<-1>>
  /\ WOfDec(S("9223372036854775807")) = WMax
=============================================================================
