------------------------------- MODULE Source -------------------------------
(* The byte stream as physical lines.  A document is                         *)
(*   segs  : the bytes, cut after every LF (the last piece may lack it);     *)
(*   fault : <<>>, or <<f>> when the stream fails once those bytes are read. *)
(* How the stream hands the bytes out (sizes of reads, interruptions to be   *)
(* retried) is not part of a document: module Delivery shows that the        *)
(* physical lines do not depend on it.                                       *)
EXTENDS Lexer

(* Every piece is non-empty and has LF at its end only (the last: or not).   *)
GoodSegs(segs) ==
  \A i \in 1..Len(segs) :
    /\ segs[i] # <<>>
    /\ LET f == Find(segs[i], LF, 1) IN f = Len(segs[i]) \/ (f = 0 /\ i = Len(segs))

HasLf(seg) == seg[Len(seg)] = LF

(* The line without its end: LF, or CR LF.                                   *)
Body(seg) ==
  IF ~HasLf(seg) THEN seg
  ELSE IF Len(seg) > 1 /\ seg[Len(seg) - 1] = CR THEN SubSeq(seg, 1, Len(seg) - 2)
  ELSE SubSeq(seg, 1, Len(seg) - 1)

(***************************************************************************)
(* UTF-8, as the Unicode standard defines it.                              *)
(***************************************************************************)
LOCAL Lead(b) == CASE b < 128 -> [need |-> 0, cp |-> b, lo |-> 128, hi |-> 191]
              [] b >= 194 /\ b <= 223 -> [need |-> 1, cp |-> b - 192, lo |-> 128, hi |-> 191]
              [] b = 224 -> [need |-> 2, cp |-> 0, lo |-> 160, hi |-> 191]
              [] b = 237 -> [need |-> 2, cp |-> 13, lo |-> 128, hi |-> 159]
              [] b >= 225 /\ b <= 239 -> [need |-> 2, cp |-> b - 224, lo |-> 128, hi |-> 191]
              [] b = 240 -> [need |-> 3, cp |-> 0, lo |-> 144, hi |-> 191]
              [] b >= 241 /\ b <= 243 -> [need |-> 3, cp |-> b - 240, lo |-> 128, hi |-> 191]
              [] b = 244 -> [need |-> 3, cp |-> 4, lo |-> 128, hi |-> 143]
              [] OTHER -> [need |-> -1, cp |-> 0, lo |-> 0, hi |-> 0]

LOCAL DecodeStep(a, b) ==
  IF ~a.ok THEN a
  ELSE IF a.need = 0
       THEN IF b < 128 THEN [a EXCEPT !.out = Append(@, b)]
            ELSE LET l == Lead(b) IN
                 IF l.need < 0 THEN [a EXCEPT !.ok = FALSE]
                 ELSE [a EXCEPT !.need = l.need, !.cp = l.cp, !.lo = l.lo, !.hi = l.hi]
       ELSE IF b < a.lo \/ b > a.hi THEN [a EXCEPT !.ok = FALSE]
            ELSE IF a.need = 1
                 THEN [a EXCEPT !.need = 0, !.out = Append(@, a.cp * 64 + (b - 128))]
                 ELSE [a EXCEPT !.need = @ - 1, !.cp = @ * 64 + (b - 128), !.lo = 128, !.hi = 191]

(* [ok, s]: whether the bytes are UTF-8, and the text.                       *)
Decode(bytes) ==
  IF SelectInSeq(bytes, LAMBDA b : b >= 128) = 0 THEN [ok |-> TRUE, s |-> bytes]
  ELSE LET r == FoldLeft(DecodeStep,
                         [ok |-> TRUE, out |-> <<>>, need |-> 0, cp |-> 0, lo |-> 128, hi |-> 191],
                         bytes)
       IN [ok |-> r.ok /\ r.need = 0, s |-> r.out]

EncodeChar(c) ==
  LET low(x) == 128 + (x % 64) IN
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), low(c)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), low(c \div 64), low(c)>>
  ELSE <<240 + (c \div 262144), low(c \div 4096), low(c \div 64), low(c)>>
Encode(s) == FoldLeft(LAMBDA a, c : a \o EncodeChar(c), <<>>, s)

(***************************************************************************)
(* Line tokens.  n is the number of the physical line (from 1).            *)
(***************************************************************************)
NoFault == [kind |-> "", msg |-> <<>>]
EofTok(n) == [k |-> "eof", n |-> n]
(* begun: whether some of the line had been handed out.                      *)
FaultTok(f, n, begun) == [k |-> "ioerr", n |-> n, e |-> f, begun |-> begun]
Utf8Fault == [kind |-> "InvalidData", msg |-> <<>>]

(* Token of one physical line given as decoded text.                         *)
TextTok(text, n) == [n |-> n] @@ Lex(text)

SegTok(seg, n) == LET d == Decode(Body(seg)) IN
                  IF d.ok THEN TextTok(d.s, n) ELSE FaultTok(Utf8Fault, n, 1)

(* Number of lines that can be read before the end or the failure: an        *)
(* unfinished line is lost when the stream fails in it.                      *)
Lines(doc) == IF doc.fault # <<>> /\ Len(doc.segs) > 0 /\ ~HasLf(doc.segs[Len(doc.segs)])
              THEN Len(doc.segs) - 1 ELSE Len(doc.segs)

(* The n-th thing the stream yields.                                         *)
SourceTok(doc, n) ==
  IF n <= Lines(doc) THEN SegTok(doc.segs[n], n)
  ELSE IF doc.fault # <<>> THEN FaultTok(doc.fault[1], n, Len(doc.segs) - Lines(doc))
  ELSE EofTok(n)

(* Everything it yields before the end.                                      *)
DocToks(doc) ==
  LET n == Lines(doc) IN
  (<<>> \o [i \in 1..n |-> SegTok(doc.segs[i], i)])
  \o (IF doc.fault = <<>> THEN <<>> ELSE <<FaultTok(doc.fault[1], n + 1, Len(doc.segs) - n)>>)
=============================================================================
