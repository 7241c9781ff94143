-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of Unicode code points (natural numbers).             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

(* Printable ASCII: the character at index i has code point 31 + i.          *)
LOCAL Printable ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

LOCAL CharIndex == [i \in 1..95 |-> SubSeq(Printable, i, i)]
LOCAL CpTable ==
  [c \in {CharIndex[i] : i \in 1..95} \cup {"\n", "\t", "\r"} |->
     IF c = "\n" THEN 10 ELSE IF c = "\t" THEN 9 ELSE IF c = "\r" THEN 13
     ELSE 31 + (CHOOSE i \in 1..95 : CharIndex[i] = c)]

(* The code points of a TLA+ string literal.                                 *)
S(str) == <<>> \o [i \in 1..Len(str) |-> CpTable[SubSeq(str, i, i)]]

HT == 9   LF == 10   CR == 13   SP == 32   DQ == 34   HASH == 35   BS == 92

(* Unicode White_Space.                                                      *)
WhiteSpace == {9, 10, 11, 12, 13, 32, 133, 160, 5760} \cup (8192..8202)
              \cup {8232, 8233, 8239, 8287, 12288}
IsWs(c) == c \in WhiteSpace

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
MapLower(s) == <<>> \o [i \in 1..Len(s) |-> ToLower(s[i])]
MapUpper(s) == <<>> \o [i \in 1..Len(s) |-> ToUpper(s[i])]

(* TLC evaluates SelectInSeq and FoldLeft natively, so these scans are not    *)
(* recursive: lines may be very long.                                        *)

(* First index >= i that is not white space (Len+1 if none).                 *)
SkipWs(s, i) ==
  LET j == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA c : ~IsWs(c))
  IN IF j = 0 THEN (IF i > Len(s) THEN i ELSE Len(s) + 1) ELSE i + j - 1

(* Last index <= i that is not white space (0 if none).                      *)
BackWs(s, i) == SelectLastInSeq(SubSeq(s, 1, i), LAMBDA c : ~IsWs(c))

Trim(s) == LET a == SkipWs(s, 1) IN
           IF a > Len(s) THEN <<>> ELSE SubSeq(s, a, BackWs(s, Len(s)))

TrimLeft(s) == LET a == SkipWs(s, 1) IN SubSeq(s, a, Len(s))

(* First index >= i holding c (0 if none).                                   *)
Find(s, c, i) ==
  LET j == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA x : x = c)
  IN IF j = 0 THEN 0 ELSE i + j - 1

(* First index >= i holding a member of set C (Len+1, or i, if none).        *)
FindIn(s, C, i) ==
  LET j == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA x : x \in C)
  IN IF j = 0 THEN (IF i > Len(s) THEN i ELSE Len(s) + 1) ELSE i + j - 1

(* The pieces of s between occurrences of c (k occurrences: k+1 pieces).     *)
Split(s, c) ==
  LET step(acc, x) == IF x = c THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                      ELSE [acc EXCEPT !.cur = Append(@, x)]
      r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], s)
  IN Append(r.done, r.cur)

(* The maximal runs of non-white-space of s.                                 *)
RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, i, acc) ==
  LET a == SkipWs(s, i) IN
  IF a > Len(s) THEN acc
  ELSE LET b == FindIn(s, WhiteSpace, a) IN
       WordsFrom(s, b, Append(acc, SubSeq(s, a, b - 1)))
Words(s) == WordsFrom(s, 1, <<>>)

Range1(s) == {s[i] : i \in 1..Len(s)}

(* Decimal text of a natural number.                                         *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

(* Value of a digit string (callers bound its length to 9).                  *)
DecVal(s) == FoldLeft(LAMBDA a, d : a * 10 + (d - 48), 0, s)

(***************************************************************************)
(* Escapes.                                                                *)
(***************************************************************************)
EscapeLetters == {110, 116, 114, 34, 92}            \* n t r " \
EscapeValue(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13
                    [] c = 34 -> 34 [] c = 92 -> 92

(* One left-to-right pass: a backslash followed by one of the five letters   *)
(* becomes the character it stands for; anything else stands for itself.     *)
Unescape(s) ==
  IF Find(s, BS, 1) = 0 THEN s
  ELSE LET step(acc, c) ==
             IF acc.esc
             THEN IF c \in EscapeLetters
                  THEN [out |-> Append(acc.out, EscapeValue(c)), esc |-> FALSE]
                  ELSE [out |-> acc.out \o <<BS, c>>, esc |-> FALSE]
             ELSE IF c = BS THEN [acc EXCEPT !.esc = TRUE]
             ELSE [acc EXCEPT !.out = Append(@, c)]
           r == FoldLeft(step, [out |-> <<>>, esc |-> FALSE], s)
       IN IF r.esc THEN Append(r.out, BS) ELSE r.out

(* The writer's side: the canonical escaping of one character.               *)
EscapeChar(c) == CASE c = 10 -> <<92, 110>> [] c = 9 -> <<92, 116>> [] c = 13 -> <<92, 114>>
                   [] c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] OTHER -> <<c>>
Escape(s) == FoldLeft(LAMBDA a, c : a \o EscapeChar(c), <<>>, s)

Join(ss, sep) ==
  IF ss = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))
=============================================================================
