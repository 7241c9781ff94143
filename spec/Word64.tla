------------------------------- MODULE Word64 -------------------------------
(* Two's complement arithmetic on words of Len(a) bytes, least significant   *)
(* byte first; TLC's own integers have only 32 bits.  A VALUE is a one-      *)
(* element sequence <<v>> when -2^30 <= v < 2^30 (fast path), and otherwise  *)
(* the 8 bytes of the 64-bit word; the representation is canonical, so       *)
(* equality of values is equality of sequences.  The byte-level operators    *)
(* are checked exhaustively against native arithmetic on 8-bit words, and    *)
(* the fast path against the byte level, in MC_Word64.                       *)
EXTENDS Text

LOCAL Zeros(n) == <<>> \o [i \in 1..n |-> 0]

(***************************** byte level **********************************)
IsNegB(a) == a[Len(a)] >= 128

AddCarry(a, b, c0) ==
  FoldLeft(LAMBDA acc, i : LET t == a[i] + b[i] + acc.c IN
                           [s |-> Append(acc.s, t % 256), c |-> t \div 256],
           [s |-> <<>>, c |-> c0], [i \in 1..Len(a) |-> i]).s
AddB(a, b) == AddCarry(a, b, 0)
NotB(a) == <<>> \o [i \in 1..Len(a) |-> 255 - a[i]]
SubB(a, b) == AddCarry(a, NotB(b), 1)
NegB(a) == SubB(Zeros(Len(a)), a)

MulCol(a, b, k) == FoldLeft(LAMBDA acc, j : acc + a[j] * b[k + 1 - j], 0, [j \in 1..k |-> j])
MulB(a, b) ==
  FoldLeft(LAMBDA acc, k : LET t == MulCol(a, b, k) + acc.c IN
                           [s |-> Append(acc.s, t % 256), c |-> t \div 256],
           [s |-> <<>>, c |-> 0], [k \in 1..Len(a) |-> k]).s

RECURSIVE ULessFrom(_, _, _)
ULessFrom(a, b, i) == IF i = 0 THEN FALSE
                      ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULessFrom(a, b, i - 1)
ULessB(a, b) == ULessFrom(a, b, Len(a))
SLessB(a, b) == IF IsNegB(a) # IsNegB(b) THEN IsNegB(a) ELSE ULessB(a, b)
IsZeroB(a) == \A i \in 1..Len(a) : a[i] = 0

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
LOCAL BitOf(a, k) == (a[k \div 8 + 1] \div Pow2[(k % 8) + 1]) % 2
LOCAL Dbl(x, b) == AddCarry(x, x, b)
(* Bit by bit, most significant first.                                       *)
UDivBits(a, d) ==
  FoldLeft(LAMBDA acc, i :
             LET r2 == Dbl(acc.r, BitOf(a, 8 * Len(a) - i)) IN
             IF ULessB(r2, d) THEN [q |-> Dbl(acc.q, 0), r |-> r2]
             ELSE [q |-> Dbl(acc.q, 1), r |-> SubB(r2, d)],
           [q |-> Zeros(Len(a)), r |-> Zeros(Len(a))],
           [i \in 1..(8 * Len(a)) |-> i])
(* Byte by byte, for a divisor below 2^22 (given as an integer).             *)
UDivInt(a, d) ==
  LET r == FoldLeft(LAMBDA acc, i :
                      LET t == acc.r * 256 + a[Len(a) + 1 - i] IN
                      [q |-> <<t \div d>> \o acc.q, r |-> t % d],
                    [q |-> <<>>, r |-> 0], [i \in 1..Len(a) |-> i])
  IN [q |-> r.q, r |-> <<>> \o [i \in 1..Len(a) |-> CASE i = 1 -> r.r % 256
                                                    [] i = 2 -> (r.r \div 256) % 256
                                                    [] i = 3 -> r.r \div 65536
                                                    [] OTHER -> 0]]
LOCAL SmallB(d) == \A i \in 3..Len(d) : IF i = 3 THEN d[i] < 64 ELSE d[i] = 0
LOCAL IntOfB(d) == d[1] + (IF Len(d) > 1 THEN 256 * d[2] ELSE 0) + (IF Len(d) > 2 THEN 65536 * d[3] ELSE 0)
UDivB(a, d) == IF SmallB(d) THEN UDivInt(a, IntOfB(d)) ELSE UDivBits(a, d)

AbsB(a) == IF IsNegB(a) THEN NegB(a) ELSE a        \* magnitude, unsigned
(* Truncating division; the most negative word divided by -1 wraps.          *)
DivB(a, b) == LET q == UDivB(AbsB(a), AbsB(b)).q IN
              IF IsNegB(a) # IsNegB(b) THEN NegB(q) ELSE q
RemB(a, b) == LET r == UDivB(AbsB(a), AbsB(b)).r IN
              IF IsNegB(a) THEN NegB(r) ELSE r
MaxB(n) == Append([i \in 1..(n - 1) |-> 255], 127)
MinB(n) == Append([i \in 1..(n - 1) |-> 0], 128)

(****************************** 64-bit values ******************************)
LOCAL Fits(v) == v >= -1073741824 /\ v < 1073741824
ToBytes(v) ==
  IF Len(v) = 8 THEN v
  ELSE LET x == v[1]  hi == IF x < 0 THEN 255 ELSE 0 IN
       <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, (x \div 16777216) % 256,
         hi, hi, hi, hi>>
Norm(b) ==
  IF b[5] = 0 /\ b[6] = 0 /\ b[7] = 0 /\ b[8] = 0 /\ b[4] < 64
  THEN <<b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]>>
  ELSE IF b[5] = 255 /\ b[6] = 255 /\ b[7] = 255 /\ b[8] = 255 /\ b[4] >= 192
  THEN <<b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (b[4] - 256)>>
  ELSE b
LOCAL Small2(a, b) == Len(a) = 1 /\ Len(b) = 1
LOCAL Tiny(v) == v > -32768 /\ v < 32768
LOCAL OfInt(x) == IF Fits(x) THEN <<x>> ELSE Norm(ToBytes(<<x>>))

W0 == <<0>>   W1 == <<1>>
WMax == MaxB(8)   WMin == MinB(8)
WBool(p) == IF p THEN W1 ELSE W0
WNeg(a) == IF Len(a) = 1 /\ Fits(-a[1]) THEN <<-a[1]>> ELSE Norm(NegB(ToBytes(a)))
WAdd(a, b) == IF Small2(a, b) THEN OfInt(a[1] + b[1]) ELSE Norm(AddB(ToBytes(a), ToBytes(b)))
WSub(a, b) == IF Small2(a, b) /\ b[1] # -1073741824 THEN OfInt(a[1] - b[1])
              ELSE Norm(SubB(ToBytes(a), ToBytes(b)))
WMul(a, b) == IF Small2(a, b) /\ Tiny(a[1]) /\ Tiny(b[1]) THEN OfInt(a[1] * b[1])
              ELSE Norm(MulB(ToBytes(a), ToBytes(b)))
WLess(a, b) == IF Small2(a, b) THEN a[1] < b[1] ELSE SLessB(ToBytes(a), ToBytes(b))
WIsNeg(a) == IF Len(a) = 1 THEN a[1] < 0 ELSE IsNegB(a)
LOCAL NAbs(x) == IF x < 0 THEN -x ELSE x
(* Division by zero: the largest word of the dividend's sign; remainder: the *)
(* dividend.                                                                 *)
WDiv(a, b) ==
  IF b = W0 THEN (IF WIsNeg(a) THEN WMin ELSE WMax)
  ELSE IF Small2(a, b)
       THEN LET q == NAbs(a[1]) \div NAbs(b[1]) IN
            OfInt(IF (a[1] < 0) # (b[1] < 0) THEN -q ELSE q)
       ELSE Norm(DivB(ToBytes(a), ToBytes(b)))
WRem(a, b) ==
  IF b = W0 THEN a
  ELSE IF Small2(a, b)
       THEN LET r == NAbs(a[1]) % NAbs(b[1]) IN <<IF a[1] < 0 THEN -r ELSE r>>
       ELSE Norm(RemB(ToBytes(a), ToBytes(b)))

(* Unsigned comparison of a non-negative value with an unsigned 64-bit word  *)
(* (given as a value with the same bits).                                    *)
WULess(a, b) == IF Small2(a, b) /\ a[1] >= 0 /\ b[1] >= 0 THEN a[1] < b[1]
                ELSE ULessB(ToBytes(a), ToBytes(b))

(* Decimal digit strings.                                                    *)
LOCAL StripZeros(d) ==
  LET RECURSIVE F(_)
      F(i) == IF i < Len(d) /\ d[i] = 48 THEN F(i + 1) ELSE i
  IN SubSeq(d, F(1), Len(d))
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLeq(a, b, i + 1)
LOCAL DecLeq(d, m) == LET s == StripZeros(d) IN
                Len(s) < Len(m) \/ (Len(s) = Len(m) /\ LexLeq(s, m, 1))
LOCAL MaxI64Text == S("9223372036854775807")
LOCAL MaxU64Text == S("18446744073709551615")
FitsI64(d) == DecLeq(d, MaxI64Text)
FitsU64(d) == DecLeq(d, MaxU64Text)
(* The value with the bits of the number written d (which fits in 64 bits).  *)
WOfDec(d) == IF Len(d) <= 9 THEN <<DecVal(d)>>
             ELSE FoldLeft(LAMBDA a, c : WAdd(WMul(a, <<10>>), <<c - 48>>), W0, d)
=============================================================================
