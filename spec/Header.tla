------------------------------- MODULE Header -------------------------------
(* The header entry's text: properties, target language, plural declaration. *)
EXTENDS Formula, Language

(***************************************************************************)
(* "Key: value" lines, split at the first colon and trimmed; the values of *)
(* a repeated key are joined by one space.  A sequence of <<key, value>>   *)
(* with distinct keys.                                                     *)
(***************************************************************************)
Properties(text) ==
  LET add(acc, line) ==
        LET p == Find(line, 58, 1) IN
        IF p = 0 THEN acc
        ELSE LET k == Trim(SubSeq(line, 1, p - 1))
                 v == Trim(SubSeq(line, p + 1, Len(line)))
                 j == SelectInSeq(acc, LAMBDA x : x[1] = k)
             IN IF j = 0 THEN Append(acc, <<k, v>>)
                ELSE [acc EXCEPT ![j] = <<k, @[2] \o <<SP>> \o v>>]
  IN FoldLeft(add, <<>>, Split(text, LF))

(* <<>> or <<value>>                                                         *)
Property(props, key) ==
  LET j == SelectInSeq(props, LAMBDA x : x[1] = key) IN
  IF j = 0 THEN <<>> ELSE <<props[j][2]>>

TargetLanguage(props) ==
  LET l == Property(props, S("Language")) IN
  IF l = <<>> THEN <<>> ELSE NormLanguage(l[1])

(***************************************************************************)
(* A declaration "key=value; key=value;".                                  *)
(***************************************************************************)
LOCAL EQ == 61   LOCAL SEMI == 59
(* The first = that ends a key starting at i (a non-white character): in the *)
(* same word after at least one character, or first thing after the word.    *)
LOCAL KeyEq(s, i) ==
  LET w == FindIn(s, WhiteSpace, i)                 \* end of the word
      a == Find(SubSeq(s, 1, w - 1), EQ, i + 1)
      b == SkipWs(s, w)
  IN IF a # 0 THEN a ELSE IF b <= Len(s) /\ s[b] = EQ THEN b ELSE 0

IsDeclaration(s) ==
  LET t == Trim(s) IN
  \/ t = <<>>
  \/ LET p == KeyEq(t, 1) IN p # 0 /\ p < Len(t) /\ t[Len(t)] = SEMI

RECURSIVE ItemsFrom(_, _, _)
ItemsFrom(s, i0, acc) ==
  LET i == SkipWs(s, i0) IN
  IF i > Len(s) THEN acc
  ELSE LET p == KeyEq(s, i) IN
       IF p = 0 THEN ItemsFrom(s, FindIn(s, WhiteSpace, i), acc)
       ELSE LET q == Find(s, SEMI, p + 1) IN
            IF q = 0 THEN acc
            ELSE ItemsFrom(s, q + 1,
                   Append(acc, <<SubSeq(s, i, BackWs(s, p - 1)), Trim(SubSeq(s, p + 1, q - 1))>>))
Items(s) == ItemsFrom(s, 1, <<>>)

(* The value of a key: the last one given (<<>> if none).                    *)
Item(items, key) ==
  LET j == SelectLastInSeq(items, LAMBDA x : x[1] = key) IN
  IF j = 0 THEN <<>> ELSE <<items[j][2]>>

LOCAL IsCount(s) ==
  LET d == IF s # <<>> /\ s[1] = 43 THEN Tail(s) ELSE s IN
  d # <<>> /\ SelectInSeq(d, LAMBDA c : ~IsDigit(c)) = 0 /\ FitsU64(d)
LOCAL CountOf(s) == WOfDec(IF s[1] = 43 THEN Tail(s) ELSE s)

(* [ok, why, forms]; why: "list", "formula", "count".                        *)
NoForms == [cnt |-> W0, e |-> Var, def |-> <<>>, src |-> <<>>]
ParsePlural(s) ==
  IF ~IsDeclaration(s) THEN [ok |-> FALSE, why |-> "list", forms |-> NoForms]
  ELSE LET it == Items(s)
           f  == Item(it, S("plural"))
           src == IF f = <<>> THEN <<>> ELSE f[1]
           e  == ParseFormula(src)
           c  == Item(it, S("nplurals"))
       IN IF ~e.ok THEN [ok |-> FALSE, why |-> "formula", forms |-> NoForms]
          ELSE IF c # <<>> /\ ~IsCount(c[1]) THEN [ok |-> FALSE, why |-> "count", forms |-> NoForms]
          ELSE [ok |-> TRUE, why |-> "",
                forms |-> [cnt |-> IF c = <<>> THEN <<2>> ELSE CountOf(c[1]),
                           e |-> e.e, def |-> s, src |-> src]]
=============================================================================
