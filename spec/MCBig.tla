-------------------------------- MODULE MCBig -------------------------------
(* Documents made by repetition: a head, a text repeated, a tail.  For a few *)
(* repetitions TLC runs the reader of the specification on them and checks   *)
(* that it ends as a Weak reader within a number of steps proportional to    *)
(* the size; the same documents, repeated TIMES times, are exported for the  *)
(* real reader, which must end as well, at a cost proportional to the size.  *)
EXTENDS Reader, Weak, Json, IOUtils

Times == atoi(IOEnv.TIMES)
Deep == atoi(IOEnv.DEEP)            \* for formulas (see known_findings.txt)
Exporting == IOEnv.EXPORT = "1"

NL == <<10>>
LOCAL Entry == S("msgid \"a\"") \o NL \o S("msgstr \"b\"") \o NL
LOCAL Header == S("msgid \"\"") \o NL \o S("msgstr \"\"") \o NL
LOCAL PluralHead == S("msgid \"\"") \o NL \o S("msgstr \"Plural-Forms: nplurals=1000000; plural=n;\\n\"") \o NL
LOCAL Pl == S("msgid \"a\"") \o NL \o S("msgid_plural \"b\"") \o NL
LOCAL DeclHead == S("msgid \"\"") \o NL \o S("msgstr \"Plural-Forms: ")
LOCAL LangHead == S("msgid \"\"") \o NL \o S("msgstr \"Language: ")
LOCAL PropEnd == S("\\n\"") \o NL

Heads == {<<>>, Entry, Header, Header \o Entry, PluralHead \o Pl, S("msgid \"a\"") \o NL,
          S("msgid \"a\"") \o NL \o S("msgstr \"b\"") \o NL \o S("msgctxt \"c\"") \o NL}
(* Whole lines to repeat; the character 1 stands for the number.             *)
LineUnits ==
  {NL \o S("msgid \"a") \o <<1>> \o S("\"") \o NL \o S("msgstr \"b\"") \o NL,
   S("\"ccccccccc\"") \o NL, S("\"\"") \o NL, S("# note") \o NL, S("#, fuzzy, f") \o <<1>> \o NL, S("#: f") \o <<1>> \o NL,
   NL, S("  ") \o NL, S("msgstr[") \o <<1>> \o S("] \"x\"") \o NL, S("\"K") \o <<1>> \o S(": v\\n\"") \o NL,
   S("\"K: v\\n\"") \o NL, S("#~ msgid \"a\"") \o NL \o S("#~ msgstr \"b\"") \o NL,
   S("msgid \"a\"") \o NL, S("msgstr \"b\"") \o NL, S("#| msgid \"o\"") \o NL, S("#") \o NL, <<233>> \o NL, S("bad") \o NL}
(* Pieces of a line to repeat, between what opens and what closes the line.  *)
Inside == {<<S("msgstr \""), S("\"") \o NL>>, <<S("msgid \""), S("\"") \o NL \o S("msgstr \"\"") \o NL>>, <<S("# "), NL>>, <<S("#, "), NL>>, <<S("#: "), NL>>,
           <<S(""), NL>>, <<S("msgstr \""), NL>>, <<S("\""), S("\"") \o NL>>,
           <<DeclHead, PropEnd>>, <<DeclHead \o S("nplurals=2; plural="), S("n;") \o PropEnd>>,
           <<DeclHead \o S("nplurals="), S("; plural=n;") \o PropEnd>>, <<DeclHead \o S("plural=n"), S(";") \o PropEnd>>,
           <<LangHead, PropEnd>>, <<LangHead \o S("en"), PropEnd>>, <<S("msgstr["), S("] \"x\"") \o NL>>}
PieceUnits ==
  {S("x"), S("\\n"), S("\\\\"), S("\\"), S("\""), <<233>>, S(" "), S("a") \o <<1>> \o S(","), S(" a"), S("#"), S("9"), S("a=b; "), S("a="),
   S(";"), S("="), S(": "), S("en-"), S("-x"), S("_"), S("@"), S("."), <<8239>>, S("0"), S("(")}
Tails == {<<>>, NL \o Entry, S("bad") \o NL}

(* The text of a recipe.                                                     *)
Repeat(unit, times) ==
  FlattenSeq([i \in 1..times |->
    FlattenSeq([j \in 1..Len(unit) |-> IF unit[j] = 1 THEN Dec(i - 1) ELSE <<unit[j]>>])])
Recipe(h, u, m, c, t) == [h |-> h, u |-> u, m |-> m, c |-> c, t |-> t]
(* Long formulas: nested to the left, to the right, in parentheses.          *)
FHead == DeclHead \o S("nplurals=2; plural=")
FTail == S(";") \o PropEnd \o NL \o Pl \o S("msgstr[0] \"x\"") \o NL \o S("msgstr[1] \"y\"") \o NL
Formulas ==
  {Recipe(FHead \o S("n"), S(u), <<>>, <<>>, FTail) : u \in {"+1", "-1", "*3", "/2", "%2", " && n", "||0", "==1", "<=n", " or n<1"}}
  \cup {Recipe(FHead, S(u), S("n"), <<>>, FTail) : u \in {"n?1:", "0?1:", "n==1 ? 0 : "}}
  \cup {Recipe(FHead, S(p[1]), S("n"), S(p[2]), FTail) :
          p \in {<<"(", ")">>, <<"-(", ")">>, <<"!(", ")">>, <<"1+(", ")">>, <<"n*(2-", ")">>, <<"(0?1:", ")">>, <<"(", "?1:n)">>, <<"n?", ":n">>, <<"1-(", "/3)">>}}
Recipes == {Recipe(h, u, <<>>, <<>>, t) : h \in Heads, u \in LineUnits, t \in Tails}
           \cup {Recipe(x[1], u, <<>>, <<>>, x[2] \o t) : x \in Inside, u \in PieceUnits, t \in Tails}
           \cup Formulas
Whole(x, times) == x.h \o Repeat(x.u, times) \o x.m \o Repeat(x.c, times) \o x.t
TokensOf(text) ==
  LET ls == Split(text, LF)
      body == IF ls[Len(ls)] = <<>> THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls
  IN <<>> \o [i \in 1..Len(body) |-> TextTok(body[i], i)]

VARIABLES vX, vN, vR, vW, vToks
vars == <<vX, vN, vR, vW, vToks>>
Init == /\ vX \in Recipes /\ vN \in 0..3
        /\ vR = NewReader /\ vW = WNew /\ vToks = TokensOf(Whole(vX, vN))
Over == vW.phase \in {"refused", "ended"}
Call == /\ ~Over
        /\ vR' = CallThrough(IF CanParse(vR) THEN DoParse(vR) ELSE DoNext(vR), vToks)
        /\ vW' = WAfter(vW, vR'.out.ev)
        /\ UNCHANGED <<vX, vN, vToks>>
Next == Call
Spec == Init /\ [][Next]_vars
Answers == vR.call = "idle" /\ (~Over => CanParse(vR) \/ CanNext(vR))
KeepsWeak == [][WStep(vW, vR'.out.ev, Len(vToks))]_vars

Export == Exporting /\ vN = 0 /\ vW = WNew =>
  PrintT(ToJson([op |-> "big", head |-> vX.h, unit |-> vX.u, mid |-> vX.m, close |-> vX.c, tail |-> vX.t,
                 times |-> IF vX \in Formulas THEN Deep ELSE Times, stack |-> IF vX \in Formulas THEN 8192 ELSE 512, probes |-> <<<<1>>>>,
                 exp |-> <<[ev |-> "summary", cheap |-> TRUE]>>]))
=============================================================================
