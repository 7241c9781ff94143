------------------------------- MODULE Formula ------------------------------
(* Plural formulas: tokens, grammar, evaluation, and the inverse (Show).     *)
EXTENDS Word64

(***************************************************************************)
(* Tokens: longest match, white space skipped, no word boundaries.  The    *)
(* words or, and, not stand for ||, &&, !.                                 *)
(***************************************************************************)
LOCAL At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
LOCAL T(n, t) == [len |-> n, tok |-> [t |-> t]]
LOCAL Bad == [len |-> 0, tok |-> [t |-> "bad"]]
LOCAL TokAt(s, i) ==
  LET c == s[i]  d == At(s, i + 1)  e == At(s, i + 2) IN
  CASE c = 63 -> T(1, "?")   [] c = 58 -> T(1, ":")   [] c = 43 -> T(1, "+")
    [] c = 45 -> T(1, "-")   [] c = 42 -> T(1, "*")   [] c = 47 -> T(1, "/")
    [] c = 37 -> T(1, "%")   [] c = 40 -> T(1, "(")   [] c = 41 -> T(1, ")")
    [] c = 124 /\ d = 124 -> T(2, "||")
    [] c = 38 /\ d = 38 -> T(2, "&&")
    [] c = 61 /\ d = 61 -> T(2, "==")
    [] c = 33 -> IF d = 61 THEN T(2, "!=") ELSE T(1, "!")
    [] c = 60 -> IF d = 61 THEN T(2, "<=") ELSE T(1, "<")
    [] c = 62 -> IF d = 61 THEN T(2, ">=") ELSE T(1, ">")
    [] c = 111 /\ d = 114 -> T(2, "||")
    [] c = 97 /\ d = 110 /\ e = 100 -> T(3, "&&")
    [] c = 110 -> IF d = 111 /\ e = 116 THEN T(3, "!") ELSE T(1, "n")
    [] IsDigit(c) -> LET q == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA x : ~IsDigit(x))
                         n == IF q = 0 THEN Len(s) - i + 1 ELSE q - 1
                     IN [len |-> n, tok |-> [t |-> "num", d |-> SubSeq(s, i, i + n - 1)]]
    [] OTHER -> Bad

RECURSIVE TokensFrom(_, _, _)
TokensFrom(s, i0, acc) ==
  LET i == SkipWs(s, i0) IN
  IF i > Len(s) THEN [ok |-> TRUE, ts |-> acc]
  ELSE LET x == TokAt(s, i) IN
       IF x.len = 0 THEN [ok |-> FALSE, ts |-> acc]
       ELSE TokensFrom(s, i + x.len, Append(acc, x.tok))
Tokens(s) == TokensFrom(s, 1, <<>>)

(***************************************************************************)
(* Grammar, loosest to tightest:                                           *)
(*   expr ::= l1 ? expr : expr | l1         l1 ::= l1 || l2 | l2           *)
(*   l2 ::= l2 && l3 | l3                   l3 ::= l3 cmp l4 | l4          *)
(*   l4 ::= ! l5 | l5                       l5 ::= l5 {+ -} l6 | l6        *)
(*   l6 ::= l6 {times} l7 | l7              l7 ::= - term | term           *)
(*   term ::= number | n | ( expr )            {times} is one of * / %      *)
(***************************************************************************)
OpsOf(level) == CASE level = 1 -> {"||"} [] level = 2 -> {"&&"}
                  [] level = 3 -> {"==", "!=", "<", "<=", ">", ">="}
                  [] level = 5 -> {"+", "-"} [] level = 6 -> {"*", "/", "%"}

Var == [o |-> "n"]
Num(v) == [o |-> "num", v |-> v]

LOCAL TkAt(ts, p) == IF p <= Len(ts) THEN ts[p].t ELSE "end"
LOCAL Fail(p) == [ok |-> FALSE, p |-> p, e |-> Var]
LOCAL Good(p, e) == [ok |-> TRUE, p |-> p, e |-> e]

RECURSIVE PExpr(_, _)
RECURSIVE PLevel(_, _, _)
RECURSIVE PMore(_, _, _)
PLevel(ts, level, p) ==
  IF level = 4 /\ TkAt(ts, p) = "!"
  THEN LET a == PLevel(ts, 5, p + 1) IN
       IF a.ok THEN Good(a.p, [o |-> "!", a |-> a.e]) ELSE a
  ELSE IF level = 4 THEN PLevel(ts, 5, p)
  ELSE IF level = 7 /\ TkAt(ts, p) = "-"
  THEN LET a == PLevel(ts, 8, p + 1) IN
       IF a.ok THEN Good(a.p, [o |-> "neg", a |-> a.e]) ELSE a
  ELSE IF level = 7 THEN PLevel(ts, 8, p)
  ELSE IF level = 8
  THEN LET k == TkAt(ts, p) IN
       IF k = "n" THEN Good(p + 1, Var)
       ELSE IF k = "num"
       THEN IF FitsI64(ts[p].d) THEN Good(p + 1, Num(WOfDec(ts[p].d))) ELSE Fail(p)
       ELSE IF k = "("
       THEN LET a == PExpr(ts, p + 1) IN
            IF ~a.ok THEN a
            ELSE IF TkAt(ts, a.p) = ")" THEN Good(a.p + 1, a.e) ELSE Fail(a.p)
       ELSE Fail(p)
  ELSE PMore(ts, level, PLevel(ts, level + 1, p))

(* a: an operand of the level already read; more operators of the level?     *)
PMore(ts, level, a) ==
  IF ~a.ok THEN a
  ELSE LET k == TkAt(ts, a.p) IN
       IF k \notin OpsOf(level) THEN a
       ELSE LET b == PLevel(ts, level + 1, a.p + 1) IN
            IF ~b.ok THEN b
            ELSE PMore(ts, level, Good(b.p, [o |-> k, a |-> a.e, b |-> b.e]))

PExpr(ts, p) ==
  LET a == PLevel(ts, 1, p) IN
  IF ~a.ok \/ TkAt(ts, a.p) # "?" THEN a
  ELSE LET b == PExpr(ts, a.p + 1) IN
       IF ~b.ok THEN b
       ELSE IF TkAt(ts, b.p) # ":" THEN Fail(b.p)
       ELSE LET c == PExpr(ts, b.p + 1) IN
            IF ~c.ok THEN c
            ELSE Good(c.p, [o |-> "?", a |-> a.e, b |-> b.e, c |-> c.e])

ParseTokens(ts) == LET r == PExpr(ts, 1) IN
                   [ok |-> r.ok /\ r.p = Len(ts) + 1, e |-> r.e]

(* The formula written s: [ok, e].  An empty formula is n.                   *)
ParseFormula(s) ==
  LET t == Trim(s) IN
  IF t = <<>> THEN [ok |-> TRUE, e |-> Var]
  ELSE LET k == Tokens(t) IN
       IF k.ok THEN ParseTokens(k.ts) ELSE [ok |-> FALSE, e |-> Var]

(***************************************************************************)
(* Evaluation, total.                                                      *)
(***************************************************************************)
RECURSIVE Eval(_, _)
Eval(e, n) ==
  CASE e.o = "n" -> n
    [] e.o = "num" -> e.v
    [] e.o = "neg" -> WNeg(Eval(e.a, n))
    [] e.o = "!" -> WBool(Eval(e.a, n) = W0)
    [] e.o = "?" -> IF Eval(e.a, n) # W0 THEN Eval(e.b, n) ELSE Eval(e.c, n)
    [] e.o = "||" -> WBool(Eval(e.a, n) # W0 \/ Eval(e.b, n) # W0)
    [] e.o = "&&" -> WBool(Eval(e.a, n) # W0 /\ Eval(e.b, n) # W0)
    [] e.o = "+" -> WAdd(Eval(e.a, n), Eval(e.b, n))
    [] e.o = "-" -> WSub(Eval(e.a, n), Eval(e.b, n))
    [] e.o = "*" -> WMul(Eval(e.a, n), Eval(e.b, n))
    [] e.o = "/" -> WDiv(Eval(e.a, n), Eval(e.b, n))
    [] e.o = "%" -> WRem(Eval(e.a, n), Eval(e.b, n))
    [] e.o = "==" -> WBool(Eval(e.a, n) = Eval(e.b, n))
    [] e.o = "!=" -> WBool(Eval(e.a, n) # Eval(e.b, n))
    [] e.o = "<" -> WBool(WLess(Eval(e.a, n), Eval(e.b, n)))
    [] e.o = "<=" -> WBool(~WLess(Eval(e.b, n), Eval(e.a, n)))
    [] e.o = ">" -> WBool(WLess(Eval(e.b, n), Eval(e.a, n)))
    [] e.o = ">=" -> WBool(~WLess(Eval(e.a, n), Eval(e.b, n)))

(* The form designated for count n among cnt declared forms: <<>> or <<v>>.  *)
Designated(e, n, cnt) ==
  LET v == Eval(e, n) IN
  IF ~WIsNeg(v) /\ WULess(v, cnt) THEN <<v>> ELSE <<>>

(***************************************************************************)
(* Show: the tokens of an expression, parenthesised only where the grammar *)
(* needs it; ParseTokens(Show(e)) = e is checked in MC_Formula.            *)
(***************************************************************************)
LevelOf(e) == CASE e.o = "?" -> 0 [] e.o = "||" -> 1 [] e.o = "&&" -> 2
                [] e.o \in {"==", "!=", "<", "<=", ">", ">="} -> 3
                [] e.o = "!" -> 4
                [] e.o \in {"+", "-"} /\ "b" \in DOMAIN e -> 5
                [] e.o \in {"*", "/", "%"} -> 6
                [] e.o = "neg" -> 7
                [] OTHER -> 8
RECURSIVE Show(_)
ShowAt(e, level) == IF LevelOf(e) >= level THEN Show(e)
                    ELSE <<[t |-> "("]>> \o Show(e) \o <<[t |-> ")"]>>
Show(e) ==
  CASE e.o = "n" -> <<[t |-> "n"]>>
    [] e.o = "num" -> <<[t |-> "num", d |-> Dec(e.v[1])]>>
    [] e.o = "neg" -> <<[t |-> "-"]>> \o ShowAt(e.a, 8)
    [] e.o = "!" -> <<[t |-> "!"]>> \o ShowAt(e.a, 5)
    [] e.o = "?" -> ShowAt(e.a, 1) \o <<[t |-> "?"]>> \o ShowAt(e.b, 0) \o <<[t |-> ":"]>> \o ShowAt(e.c, 0)
    [] OTHER -> ShowAt(e.a, LevelOf(e)) \o <<[t |-> e.o]>> \o ShowAt(e.b, LevelOf(e) + 1)

TokText(tk) == IF tk.t = "num" THEN tk.d ELSE S(tk.t)
(* Text of tokens, separated by a blank.                                     *)
TokensText(ts) == Join([i \in 1..Len(ts) |-> TokText(ts[i])], <<SP>>)
=============================================================================
