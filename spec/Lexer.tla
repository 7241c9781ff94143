------------------------------- MODULE Lexer --------------------------------
(* From one physical line (without its line end) to a line token.            *)
(*   blank   : nothing but white space                                       *)
(*   msg     : keyword and quoted string, with its marker                    *)
(*             (the closing quote is the last character and not escaped)     *)
(*   cont    : quoted string alone (continuation), with its marker           *)
(*   comment : any other line starting with #                                *)
(*   bad     : anything else                                                 *)
EXTENDS Text

KwCtxt == S("msgctxt")   KwId == S("msgid")   KwPlural == S("msgid_plural")
KwStr == S("msgstr")     KwStrOpen == S("msgstr[")

(* A numbered translation keyword: canonical decimal, at most 9 digits are   *)
(* given a value (a longer index can never be reached by an actual file).    *)
LOCAL IndexDigits(w) ==
  IF Len(w) > 8 /\ SubSeq(w, 1, 7) = KwStrOpen /\ w[Len(w)] = 93
  THEN SubSeq(w, 8, Len(w) - 1) ELSE <<>>

LOCAL IsIndex(d) ==
  /\ d # <<>>
  /\ \A i \in 1..Len(d) : IsDigit(d[i])
  /\ d = <<48>> \/ d[1] # 48

NoTag == [ok |-> FALSE, tag |-> "", idx |-> 0]
TagOf(w) ==
  CASE w = KwCtxt   -> [ok |-> TRUE, tag |-> "msgctxt", idx |-> 0]
    [] w = KwId     -> [ok |-> TRUE, tag |-> "msgid", idx |-> 0]
    [] w = KwPlural -> [ok |-> TRUE, tag |-> "msgid_plural", idx |-> 0]
    [] w = KwStr    -> [ok |-> TRUE, tag |-> "msgstr", idx |-> 0]
    [] OTHER -> LET d == IndexDigits(w) IN
                IF IsIndex(d)
                THEN [ok |-> TRUE, tag |-> "msgstr[]",
                      idx |-> IF Len(d) <= 9 THEN DecVal(d) ELSE -1]
                ELSE NoTag

NoMsg == [k |-> "no"]

(* The quote at e (opening quote at q) is escaped: an odd number of          *)
(* backslashes stands just before it.                                        *)
LOCAL EscapedAt(s, q, e) ==
  LET b == SelectLastInSeq(SubSeq(s, q, e - 1), LAMBDA c : c # BS)   \* >= 1
  IN ((e - q) - b) % 2 = 1

(* The marker of a line: "" (live), "~" (obsolete), "|" (previous), "~|".    *)
LexMessage(s, a) ==
  LET hash  == s[a] = HASH
      c1    == IF hash /\ a + 1 <= Len(s) THEN s[a + 1] ELSE 0
      c2    == IF hash /\ a + 2 <= Len(s) THEN s[a + 2] ELSE 0
      mark  == IF ~hash THEN "" ELSE IF c1 = 126 /\ c2 = 124 THEN "~|"
               ELSE IF c1 = 126 THEN "~" ELSE IF c1 = 124 THEN "|" ELSE "none"
      skip  == IF ~hash THEN 0 ELSE IF mark = "~|" THEN 3 ELSE 2
      p1    == SkipWs(s, a + skip)
      q     == FindIn(s, WhiteSpace \cup {DQ}, p1)      \* end of the keyword
      word  == SubSeq(s, p1, q - 1)
      p2    == SkipWs(s, q)                             \* opening quote
      e     == BackWs(s, Len(s))                        \* closing quote
      tag   == TagOf(word)
  IN IF \/ mark = "none"
        \/ p2 > Len(s)
        \/ s[p2] # DQ
        \/ s[e] # DQ
        \/ e <= p2
        \/ EscapedAt(s, p2, e)
        \/ (word # <<>> /\ ~tag.ok)
     THEN NoMsg
     ELSE LET body == Unescape(SubSeq(s, p2 + 1, e - 1)) IN
          IF word = <<>> THEN [k |-> "cont", mark |-> mark, s |-> body]
          ELSE [k |-> "msg", mark |-> mark, tag |-> tag.tag, idx |-> tag.idx, s |-> body]

(* #, one kind character (blank if none), text without its leading blanks.   *)
LexComment(s, a) ==
  [k |-> "comment",
   kind |-> IF a + 1 <= Len(s) THEN s[a + 1] ELSE SP,
   s |-> SubSeq(s, SkipWs(s, a + 2), Len(s))]

Lex(s) ==
  LET a == SkipWs(s, 1) IN
  IF a > Len(s) THEN [k |-> "blank"]
  ELSE LET m == LexMessage(s, a) IN
       IF m.k # "no" THEN m
       ELSE IF s[a] = HASH THEN LexComment(s, a)
       ELSE [k |-> "bad", s |-> s]
=============================================================================
