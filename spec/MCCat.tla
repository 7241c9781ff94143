-------------------------------- MODULE MCCat -------------------------------
(* Catalogues written out and read back.  For each property a family of      *)
(* catalogues, layouts, cuts, failures and alterations; every member of the  *)
(* family is made in one step from an initial seed (so that the writing is   *)
(* done in parallel); the reader runs on it call by call; at the end what it *)
(* returned is compared with what the catalogue means.                       *)
(*   PROP, SIZE ("1": quick, "2": thorough), EXPORT                          *)
EXTENDS Props, Catalogue, Json, IOUtils

Prop == IOEnv.PROP
Family == IOEnv.FAMILY            \* whose documents; the observations are those of PROP
Big == IOEnv.SIZE = "2"
Exporting == IOEnv.EXPORT = "1"

VARIABLES vCase, vMade, vDoc, vToks, vR, vHist, vExtra
vars == <<vCase, vMade, vDoc, vToks, vR, vHist, vExtra>>
Evs == [i \in 1..Len(vHist) |-> vHist[i].e]

(***************************************************************************)
(* Cases.  [cat, forms, lay, kind, ...]: kind                              *)
(*   "whole"  : read as it is                                              *)
(*   "data"   : the same, comments aside (others have been put in)         *)
(*   "cut"    : only the first L lines (and a part of the next: part)      *)
(*   "fault"  : the stream fails (or a byte is wrong) after L lines        *)
(*   "altered": lines changed so that it may not be a catalogue any more   *)
(*   "empty"  : entry number at has an empty source                        *)
(*   "lang"   : the header's language is at                                *)
(*   "refused": the plural declaration is refused (why)                    *)
(***************************************************************************)
eLF == <<10>>  eCRLF == <<13, 10>>
Doc(segs) == [segs |-> segs, fault |-> <<>>]
Probes0 == <<<<0>>, <<1>>, <<2>>>>
Case(cat, lay, kind) == [cat |-> cat, forms |-> <<>>, lay |-> lay, kind |-> kind, L |-> 0, part |-> 0, at |-> 0,
                         lang |-> <<>>, probes |-> Probes0, why |-> "", rule |-> 0]
IsCase(x, d) == vCase' = x /\ vDoc' = d /\ vToks' = DocToks(vDoc')
Whole(cat, lay, eol, open) ==
  IsCase(Case(cat, lay, "whole"), Doc(Segs(Write(lay, cat).lines, eol, open)))

s0 == S("a")  s1 == S("b")  s2 == S("cc")  s3 == S("d d")
Hdr(ls) == <<[cs |-> <<>>, lines |-> ls]>>
Header1 == Hdr(<<[k |-> S("L"), v |-> S("v"), p |-> <<>>]>>)
KPluralForms == S("Plural-Forms")  KLanguage == S("Language")
OfForms(n) == Hdr(<<[k |-> KPluralForms, v |-> S("nplurals=") \o Dec(n) \o S("; plural=n;"), p |-> <<>>]>>)
FormsN(n) == <<[cnt |-> <<n>>, e |-> Var, def |-> S("nplurals=") \o Dec(n) \o S("; plural=n;"), src |-> <<110>>]>>
Cat(h, es) == [header |-> h, entries |-> es]
SeqsUpTo(X, n) == UNION {[1..k -> X] : k \in 0..n}

(* Shapes of entries: everything optional, one of each.                      *)
Flag(w) == [c |-> "flag", ws |-> w]
CFuzzy == Flag(<<Fuzzy>>)  CTra == [c |-> "tra", s |-> S("note")]
CRef == [c |-> "ref", ws |-> <<S("f.c:1"), S("g.c:22")>>]
CDev == [c |-> "dev", s |-> S("dev")]
COther == [c |-> "other", kind |-> 33, s |-> S("x y")]
Shape(i) ==
  LET e == Entry(<<96 + i>>, <<<<64 + i>>>>) IN
  CASE i = 1 -> e
    [] i = 2 -> [e EXCEPT !.strs = <<<<>>>>]
    [] i = 3 -> [e EXCEPT !.pl = <<S("cs")>>, !.strs = <<S("0"), S("1")>>]
    [] i = 4 -> [e EXCEPT !.ctxt = <<S("x")>>, !.cs = <<CTra>>]
    [] i = 5 -> [e EXCEPT !.obs = TRUE]
    [] i = 6 -> [e EXCEPT !.obs = TRUE, !.pl = <<S("fs")>>, !.strs = <<S("0")>>, !.cs = <<CFuzzy>>]
    [] i = 7 -> [e EXCEPT !.pid = <<S("old")>>, !.cs = <<CFuzzy, CTra>>]
    [] i = 8 -> [e EXCEPT !.obs = TRUE, !.pctxt = <<S("oc")>>, !.pid = <<S("old")>>, !.ppl = <<S("olds")>>]
    [] i = 9 -> [e EXCEPT !.id = S("long text"), !.strs = <<S("two parts")>>, !.ctxt = <<S("x")>>]
Named(e, k) == [e EXCEPT !.id = @ \o Dec(k)]
NamedAll(es) == [k \in 1..Len(es) |-> Named(es[k], k)]

(***************************************************************************)
(* C01: sequences of shapes, with every kind of ending.                    *)
(***************************************************************************)
Tails == {<<>>, <<<<>>>>, <<<<>>, <<>>, <<SP>>>>, <<S("# the end")>>, <<<<>>, S("#, fuzzy"), S("#")>>}
Seeds01 == {<<1, f>> : f \in SeqsUpTo(1..9, IF Big THEN 4 ELSE 3)} \cup {<<2, f>> : f \in SeqsUpTo(1..9, 2)}
           \cup {<<3, n, a>> : n \in (IF Big THEN {20, 60} ELSE {25}), a \in 1..9}
Make01(z) ==
  \/ z[1] = 1 /\ \E f \in {z[2]} : \E h \in {<<>>, Header1} : \E same \in BOOLEAN :
       LET es == [k \in 1..Len(f) |-> Shape(f[k])]
           lay == [Plain EXCEPT !.cuts = {3}]
       IN Whole(Cat(h, IF same THEN es ELSE NamedAll(es)), lay, eLF, FALSE)
  \/ z[1] = 2 /\ \E f \in {z[2]} : \E h \in {<<>>, Header1} : \E t \in Tails : \E g \in {<<>>, <<<<>>, <<>>>>} :
     \E open \in BOOLEAN :
       LET es == [k \in 1..Len(f) |-> Shape(f[k])]
       IN Whole(Cat(h, NamedAll(es)), [Plain EXCEPT !.tail = t, !.gap = g], eLF, open)
  \/ z[1] = 3 /\ \E b \in 1..9 :
       Whole(Cat(Header1, NamedAll([k \in 1..z[2] |-> Shape(IF k % 2 = 0 THEN z[3] ELSE b)])), Plain, eLF, FALSE)

(***************************************************************************)
(* C02: every short text over the characters that matter, in every field,  *)
(* cut everywhere.                                                         *)
(***************************************************************************)
Chars02 == <<10, 9, 13, 34, 92, 110, 233, 128512, 32>>
Texts02(n) == {[i \in DOMAIN f |-> Chars02[f[i]]] : f \in [1..n -> 1..9]}
Put(field, t) ==
  LET e == Entry(s0, <<s1>>) IN
  CASE field = 1 -> [e EXCEPT !.strs = <<t>>]
    [] field = 2 -> [e EXCEPT !.id = t]
    [] field = 3 -> [e EXCEPT !.ctxt = <<t>>]
    [] field = 4 -> [e EXCEPT !.pl = <<t>>, !.strs = <<s1, s2>>]
    [] field = 5 -> [e EXCEPT !.pl = <<s2>>, !.strs = <<t, s1>>]
    [] field = 6 -> [e EXCEPT !.pl = <<s2>>, !.strs = <<s1, t>>]
    [] field = 7 -> [e EXCEPT !.pctxt = <<t>>]
    [] field = 8 -> [e EXCEPT !.pid = <<t>>]
    [] field = 9 -> [e EXCEPT !.pid = <<s1>>, !.ppl = <<t>>]
    [] field = 10 -> [e EXCEPT !.obs = TRUE, !.strs = <<t>>, !.id = t]
(* An escape which is none stands for itself, whatever the character.        *)
NoEscape02 == ((32..126) \ (EscapeLetters \cup {DQ, BS})) \cup {0, 1, 7, 8, 9, 11, 12, 13, 27, 127, 133, 160, 233, 383, 955, 1635, 8203, 8232, 8490, 65279, 65536, 128512, 1114111}
Atoms02 == {<<<<>>, <<>>>>, <<<<BS, 110>>, <<LF>>>>, <<<<BS, BS>>, <<BS>>>>, <<<<BS, DQ>>, <<DQ>>>>, <<<<110>>, <<110>>>>}
Seeds02 == {<<1, t>> : t \in UNION {Texts02(n) : n \in 1..(IF Big THEN 3 ELSE 2)}}
           \cup {<<2, t>> : t \in {x \in Texts02(3) : Big \/ (x[1] \in {92, 110, 34, 233} /\ x[3] \in {92, 110, 10, 34})}}
           \cup {<<2, t>> : t \in {x \in Texts02(4) : Big /\ x[1] \in {92, 110, 34, 233} /\ x[4] \in {92, 110, 10, 34}}}
           \cup {<<3, c>> : c \in NoEscape02}
Make02(z) ==
  LET t == z[2] IN
  \/ z[1] = 3 /\ \E x, y \in Atoms02 : \E field \in 1..3 : \E two \in BOOLEAN :
       LET raw(p) == p[1] \o <<BS, t>> \o y[1]
           text == x[2] \o <<BS, t>> \o y[2]
           more == IF two THEN <<DQ>> \o raw(<<<<>>>>) \o <<DQ>> ELSE <<>>
           first == <<SP, DQ>> \o raw(x) \o <<DQ>>
           val == IF two THEN text \o <<BS, t>> \o y[2] ELSE text
           next == IF two THEN <<more>> ELSE <<>>
           e == CASE field = 1 -> Entry(s0, <<val>>) [] field = 2 -> Entry(val, <<s1>>) [] field = 3 -> [Entry(s0, <<s1>>) EXCEPT !.ctxt = <<val>>]
           l0 == S("msgid \"a\"")  l1 == S("msgstr \"b\"")
           ls == CASE field = 1 -> <<l0, KwStr \o first>> \o next [] field = 2 -> <<KwId \o first>> \o next \o <<l1>>
                   [] field = 3 -> <<KwCtxt \o first>> \o next \o <<l0, l1>>
       IN IsCase(Case(Cat(Header1, <<e>>), Plain, "whole"),
                 Doc(Segs(Write(Plain, Cat(Header1, <<>>)).lines \o <<<<>>>> \o ls, eLF, FALSE)))
  \/ z[1] = 1 /\ \E field \in 1..10 : \E cuts \in SUBSET (0..(Len(t) - 1)) :
       Whole(Cat(Header1, <<Put(field, t)>>), [Plain EXCEPT !.cuts = cuts], eLF, FALSE)
  \/ z[1] = 2 /\ \E cuts \in {{}, {0, 1, 2, 3}, {2}} :
       Whole(Cat(Header1, <<Put(1, t)>>), [Plain EXCEPT !.cuts = cuts], eLF, FALSE)

(***************************************************************************)
(* C03, C07: all combinations of fields, pairs of entries.                 *)
(***************************************************************************)
Full == [Entry(S("i"), <<S("s")>>) EXCEPT !.pctxt = <<S("pc")>>, !.pid = <<S("pi")>>, !.ppl = <<S("pp")>>,
                                          !.ctxt = <<S("c")>>, !.pl = <<S("p")>>]
Tag(o, k) == IF o = <<>> THEN o ELSE <<o[1] \o Dec(k)>>
Combo(pc, p, cx, m, obs, k) ==
  LET e == [Full EXCEPT !.pctxt = IF pc THEN @ ELSE <<>>, !.pid = IF p > 0 THEN @ ELSE <<>>,
                        !.ppl = IF p > 1 THEN @ ELSE <<>>, !.ctxt = IF cx THEN @ ELSE <<>>,
                        !.pl = IF m > 0 THEN @ ELSE <<>>, !.obs = obs,
                        !.strs = IF m = 0 THEN @ ELSE [i \in 1..m |-> S("t") \o Dec(i - 1)]]
  IN [e EXCEPT !.pctxt = Tag(@, k), !.pid = Tag(@, k), !.ppl = Tag(@, k), !.ctxt = Tag(@, k),
               !.id = @ \o Dec(k), !.pl = Tag(@, k), !.strs = [i \in 1..Len(@) |-> @[i] \o Dec(k)]]
Combos(k, Obs) == {Combo(pc, p, cx, m, obs, k) : pc \in BOOLEAN, p \in 0..2, cx \in BOOLEAN, m \in 0..2, obs \in Obs}
Seeds03 == {<<1, a>> : a \in Combos(1, BOOLEAN)} \cup {<<2, a>> : a \in Combos(1, {FALSE})}
           \cup {<<3, a, b>> : a \in {x \in Combos(1, {FALSE}) : Big}, b \in Combos(2, {FALSE})}
Make03(z) ==
  LET a == z[2] IN
  \/ z[1] = 1 /\ \E b \in Combos(2, BOOLEAN) :
       Whole(Cat(Header1, <<a, b>>), Plain, eLF, FALSE)
  \/ z[1] = 2 /\ \E h \in {<<>>, Header1} : \E cuts \in {{0}, {1}, {0, 1}} : \E gap \in {<<>>, <<<<>>>>} :
       Whole(Cat(h, <<a, Shape(1), a>>), [Plain EXCEPT !.cuts = cuts, !.gap = gap], eLF, FALSE)
  \/ z[1] = 3 /\ \E x \in Combos(3, {TRUE, FALSE}) :
       Whole(Cat(<<>>, <<a, z[3], x>>), Plain, eLF, FALSE)
(* Every line of an entry with either marker.                                *)
Body07(e, more) ==
  LET one(prev, kw, o) == IF o = <<>> THEN <<>>
        ELSE <<[prev |-> prev, t |-> kw \o <<SP>> \o Quote(o[1])]>> \o (IF more THEN <<[prev |-> prev, t |-> Quote(S("+"))]>> ELSE <<>>) IN
  one(TRUE, KwCtxt, e.pctxt) \o one(TRUE, KwId, e.pid) \o one(TRUE, KwPlural, e.ppl) \o one(FALSE, KwCtxt, e.ctxt) \o one(FALSE, KwId, <<e.id>>)
  \o one(FALSE, KwPlural, e.pl)
  \o (IF e.pl = <<>> THEN one(FALSE, KwStr, <<e.strs[1]>>) ELSE FlattenSeq([i \in 1..Len(e.strs) |-> one(FALSE, KwNth(i - 1), <<e.strs[i]>>)]))
Marked07(l, o) == (IF l.prev THEN (IF o THEN S("#~| ") ELSE S("#| ")) ELSE IF o THEN S("#~ ") ELSE <<>>) \o l.t
Seeds07 == {<<k, a>> : k \in 1..2, a \in Combos(1, {TRUE})} \cup {<<3, a, m>> : a \in Combos(1, {TRUE}), m \in BOOLEAN}
Make07(z) ==
  LET a == z[2] IN
  \/ z[1] = 3 /\ LET b == Body07(a, z[3]) IN
       /\ Len(b) <= (IF Big THEN 12 ELSE 9)
       /\ \E M \in SUBSET (1..Len(b)) : \E next \in {1, 5} :
            /\ Big \/ Len(b) <= 7 \/ next = 1
            /\ IsCase(Case(Cat(<<>>, <<>>), Plain, "altered"),
                      Doc(Segs([i \in 1..Len(b) |-> Marked07(b[i], i \in M)] \o Write(Plain, Cat(<<>>, <<Shape(next), Shape(1)>>)).lines, eLF, FALSE)))
  \/ z[1] = 1 /\ \E b \in Combos(2, {TRUE, FALSE}) : \E swap \in BOOLEAN :
       /\ b.pctxt = <<>> \/ b.pid = <<>>
       /\ Whole(Cat(Header1, IF swap THEN <<b, a>> ELSE <<a, b>>), Plain, eLF, FALSE)
  \/ z[1] = 2 /\ \E h \in {<<>>, Header1} : \E cuts \in {{}, {0}, {1}, {0, 1}} : \E tight \in BOOLEAN :
     \E gap \in {<<>>, <<<<>>>>} : \E cs \in {<<>>, <<CFuzzy>>, <<CTra, CRef>>} :
       Whole(Cat(h, <<[a EXCEPT !.cs = cs], Combo(FALSE, 0, FALSE, 0, TRUE, 7)>>),
             [Plain EXCEPT !.cuts = cuts, !.tight = tight, !.gap = gap], eLF, FALSE)

(***************************************************************************)
(* C04: blocks of comments.                                                *)
(***************************************************************************)
Comments04 ==
  {CFuzzy, Flag(<<S("c-format"), S("no-wrap"), S("c-format")>>), Flag(<<S("range: 0..1")>>),
   CRef, [c |-> "ref", ws |-> <<S("h.c:3")>>], CDev, [c |-> "dev", s |-> S("dev 2 ")], CTra,
   [c |-> "tra", s |-> S("two  words")], [c |-> "tra", s |-> <<>>], [c |-> "dev", s |-> <<>>], COther,
   [c |-> "other", kind |-> 126, s |-> S("gone")], [c |-> "other", kind |-> 61, s |-> <<>>], [c |-> "other", kind |-> 8364, s |-> <<233>>]}
Blocks04(n) == SeqsUpTo(Comments04, n)
(* All the white space there is, the line end aside.                         *)
White05 == {9, 11, 12, 13, 32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
(* Every sign after the # which has no meaning of its own (the text of the   *)
(* comment is not a string, see C05 for those).                              *)
Kinds04 == ((33..126) \ {44, 46, 58}) \cup {0, 127, 161, 233, 8203, 8364, 8490, 65279, 65536, 128512, 1114111}
(* Signs, brackets, quotes and marks which might be taken for something.     *)
Odd04 == {<<>>} \cup {<<c>> : c \in ((33..126) \ ((48..57) \cup (65..90) \cup (97..122) \cup {44})) \cup {0, 1, 27, 127, 133 - 5, 171, 187, 173, 8203, 8204, 8205, 8206, 8207, 8216, 8217, 8220, 8221, 8230,
                               8234, 8236, 8238, 8288, 8294, 8296, 8297, 12300, 12301, 65279, 65288, 65289, 65533, 127462, 917505}}
Seeds04 == {<<1, x>> : x \in Blocks04(IF Big THEN 3 ELSE 2)} \cup {<<2, x>> : x \in Blocks04(1)}
           \cup {<<3, x>> : x \in Blocks04(IF Big THEN 2 ELSE 1)} \cup {<<4, k>> : k \in Kinds04}
           \cup {<<5, w>> : w \in White05} \cup {<<6, x>> : x \in Odd04}
Make04(z) ==
  LET x == z[2] IN
  \/ z[1] = 6 /\ \E y \in Odd04 :
       LET w == S("f") \o x \o S("g") \o y  v == x \o S("h:1") \o y  u == y \o x \o S("k")
           cs == <<[c |-> "ref", ws |-> <<w, v, u>>], Flag(<<w \o <<SP>> \o v, u>>), [c |-> "dev", s |-> w \o <<SP>> \o v], [c |-> "tra", s |-> v \o <<SP>> \o w],
                   [c |-> "other", kind |-> 33, s |-> u \o <<SP>> \o v]>> IN
       Whole(Cat(<<>>, <<[Shape(1) EXCEPT !.cs = cs], Shape(4)>>), Plain, eLF, FALSE)
  \/ z[1] = 5 /\ \E c \in {"dev", "tra", "other"} : \E t \in {S("t") \o <<x>>, S("t") \o <<x, x>>, S("t") \o <<x>> \o S("u"), <<233, SP, x>>, S("t") \o <<x, SP>>, <<DQ, x>>} :
     \E eol \in {eLF, eCRLF} : \E open \in BOOLEAN : \E tl \in BOOLEAN :
       LET cm == IF c = "other" THEN [c |-> c, kind |-> 33, s |-> t] ELSE [c |-> c, s |-> t]
           lines == Write([Plain EXCEPT !.tail = IF tl THEN <<S("# e") \o <<x>>>> ELSE <<>>], Cat(<<[cs |-> <<cm>>, lines |-> <<>>]>>, <<[Shape(1) EXCEPT !.cs = <<cm, cm>>], Shape(4)>>)) IN
       /\ eol = eCRLF \/ t[Len(t)] # 13
       /\ IsCase(Case(Cat(<<[cs |-> <<cm>>, lines |-> <<>>]>>, <<[Shape(1) EXCEPT !.cs = <<cm, cm>>], Shape(4)>>), Plain, "whole"), Doc(Segs(lines.lines, eol, open)))
  \/ z[1] = 4 /\ \E t \in {<<>>, S("t"), S("fuzzy, x"), S("f.c:1  g"), <<233, 160, 233>>, S("msgid")} : \E i \in {1, 5, 8} : \E h \in {<<>>, Header1} : \E more \in {<<>>, <<CTra>>} :
       Whole(Cat(h, NamedAll(<<Shape(1), [Shape(i) EXCEPT !.cs = <<[c |-> "other", kind |-> x, s |-> t]>> \o more]>>)), Plain, eLF, FALSE)
  \/ z[1] = 1 /\ \E y \in Blocks04(1) : \E h \in {<<>>, Header1} :
       Whole(Cat(h, <<[Entry(s0, <<s1>>) EXCEPT !.cs = x], [Entry(s1, <<s2>>) EXCEPT !.cs = y]>>), Plain, eLF, FALSE)
  \/ z[1] = 2 /\ \E y \in (IF Big THEN Blocks04(1) ELSE {<<>>, <<CFuzzy>>, <<COther>>}) : \E i, j \in 1..9 :
       Whole(Cat(<<>>, NamedAll(<<[Shape(i) EXCEPT !.cs = x], [Shape(j) EXCEPT !.cs = y]>>)),
             [Plain EXCEPT !.tail = <<S("# last"), S("#, fuzzy"), S("#. d")>>], eLF, FALSE)
  \/ z[1] = 3 /\ \E y \in Blocks04(1) :
       Whole(Cat(<<[cs |-> x, lines |-> <<>>]>>, <<[Entry(s0, <<s1>>) EXCEPT !.cs = y]>>), Plain, eLF, FALSE)

(***************************************************************************)
(* C05: lines put in between the entries.                                  *)
(***************************************************************************)
Between == <<<<>>, S("  \t"), S("# a note"), S("# \"quoted\""), S("#\"quoted\""), S("# msgid \"z\""), S("#msgstr \"z\""),
             S("#  \"\""), S("#. msgid \"z\""), S("#, \"z\""), S("#: \"z\" msgid \"z\""), S("#! msgctxt \"z\""), S("#"),
             S("#. \"z\""), S("#~ no entry"), S("#| no entry"), S("#~"), S("#~| msgid z"), S("   # msgid_plural \"z\" "),
             S("#\t\"tab\""), S("#~msgid"), S("#, fuzzy"), <<35, 160, 34, 233, 34>>, S("# msgstr[0] \"z\""), S("#| \"")>>
PutIn(lines, k, x) == SubSeq(lines, 1, k - 1) \o x \o SubSeq(lines, k, Len(lines))
Cats05 == {Cat(Header1, NamedAll(<<Shape(1), Shape(4)>>)), Cat(<<>>, NamedAll(<<Shape(5), Shape(3)>>)),
           Cat(Header1, NamedAll(<<Shape(8), Shape(6)>>)), Cat(<<>>, NamedAll(<<Shape(7), Shape(9)>>))}
Seeds05 == {<<1, cat, i>> : cat \in Cats05, i \in 0..Len(Between)} \cup {<<2, cat>> : cat \in Cats05}
           \cup {<<3, cat, w>> : cat \in Cats05, w \in White05}
Make05(z) ==
  LET cat == z[2] IN
  \/ z[1] = 3 /\ \E x \in {<<z[3]>>, <<SP, z[3]>>, <<z[3], z[3]>>} : \E p \in {0, 1, 2, 3} :
       Whole(cat, [Plain EXCEPT !.indent = IF p = 0 THEN x ELSE @, !.trail = IF p \in {0, 1} THEN x ELSE @, !.gap = IF p \in {0, 2} THEN <<x>> ELSE @,
                                !.tail = IF p = 3 THEN <<x, S("# e"), x>> ELSE @], eLF, FALSE)
  \/ z[1] = 1 /\ \E x \in (IF z[3] = 0 THEN {<<>>} ELSE {<<z[3]>>} \cup {<<z[3], j>> : j \in 1..Len(Between)}) : \E g \in 1..4 :
       LET w == Write(Plain, cat)
           at == IF g > Len(w.spans) THEN Len(w.lines) + 1 ELSE w.spans[g].first
           ins == [i \in 1..Len(x) |-> Between[x[i]]]
       IN /\ g <= Len(w.spans) + 1
          /\ IsCase(Case(cat, Plain, "data"), Doc(Segs(PutIn(w.lines, at, ins), eLF, FALSE)))
  \/ z[1] = 2 /\ \E indent, trail \in {<<>>, <<SP>>, <<HT, SP, 160>>, <<12>>} : \E g \in SUBSET {1, 2} : \E eol \in {eLF, eCRLF} :
       LET gap == (IF 1 \in g THEN <<<<>>>> ELSE <<>>) \o (IF 2 \in g THEN <<<<SP, HT>>>> ELSE <<>>)
       IN Whole(cat, [Plain EXCEPT !.indent = indent, !.trail = trail, !.gap = gap], eol, FALSE)

(***************************************************************************)
(* C06: flags and translations.                                            *)
(***************************************************************************)
Flags06 == {<<>>, <<CFuzzy>>, <<Flag(<<S("c-format"), Fuzzy>>)>>, <<Flag(<<Fuzzy, S("c-format")>>)>>,
            <<Flag(<<S("c-format")>>), CFuzzy>>, <<CFuzzy, Flag(<<S("no-wrap")>>)>>, <<CFuzzy, CFuzzy>>,
            <<Flag(<<S("fuzzyx")>>)>>, <<Flag(<<S("Fuzzy")>>)>>, <<Flag(<<S("no-fuzzy"), S("fuzzy fuzzy")>>)>>,
            <<CFuzzy, Flag(<<S("no-fuzzy")>>)>>, <<Flag(<<S("no-fuzzy"), Fuzzy>>)>>,
            <<[c |-> "tra", s |-> Fuzzy]>>, <<[c |-> "dev", s |-> S(", fuzzy")]>>, <<[c |-> "ref", ws |-> <<Fuzzy>>]>>,
            <<CTra, CFuzzy, CRef>>, <<Flag(<<S("a"), S("b"), Fuzzy, S("d")>>), CTra>>}
Strs06 == {<<<<>>>>, <<s1>>, <<<<SP>>>>}
Plural06 == {<<<<>>>>, <<s1>>, <<<<>>, <<>>>>, <<s1, <<>>>>, <<<<>>, s1>>, <<s1, s2>>, <<<<>>, <<>>, s1>>, <<<<>>, s1, <<>>>>, <<<<>>, <<>>, <<>>>>}
Entries06 == {[Entry(s0, x) EXCEPT !.cs = f, !.obs = o] : x \in Strs06, f \in Flags06, o \in BOOLEAN}
             \cup {[Entry(s0, x) EXCEPT !.pl = <<s2>>, !.cs = f, !.obs = o] : x \in Plural06, f \in Flags06, o \in BOOLEAN}
Plain06 == {e \in Entries06 : ~e.obs /\ Len(e.strs) < (IF Big THEN 3 ELSE 2)}
(* Words which are, are near, or contradict the one that counts.             *)
Word0 == "fuzzy"
Words06 == {"fuzzy", "no-fuzzy", "nofuzzy", "not-fuzzy", "unfuzzy", "FUZZY", "Fuzzy", "fuzzy2", "xfuzzy", "fuzzy-x", "-fuzzy", "!fuzzy", "fuzzy;", "fuzzy:", "fuz zy", "fuzz", "uzzy",
            "c-format", "no-c-format", "possible-c-format", "no-wrap", "wrap", "range: 0..1", "python-brace-format", "obsolete", "translated", "untranslated", "approved", "final", "empty",
            "needs-work", "needswork", "unreviewed", "ignore", "\"fuzzy\"", "fuzzy.", "#fuzzy", "max-length:5", "fuzzy fuzzy", "+fuzzy"}
Seeds06 == {<<1, e>> : e \in Entries06} \cup {<<2, e>> : e \in Plain06} \cup {<<3, w>> : w \in Words06}
Make06(z) ==
  LET e == z[2] IN
  \/ z[1] = 1 /\ \E k \in 1..9 : \E before \in BOOLEAN :
       LET o == Named(Shape(k), 1)
           x == [Case(Cat(OfForms(3), IF before THEN <<o, e>> ELSE <<e, o>>), Plain, "whole") EXCEPT !.forms = FormsN(3)]
       IN IsCase(x, Doc(Segs(Write(Plain, x.cat).lines, eLF, FALSE)))
  \/ z[1] = 3 /\ \E b \in Words06 : \E k \in 0..4 : \E x \in {<<<<>>>>, <<s1>>} : \E pl \in BOOLEAN :
       LET cs == CASE k = 0 -> <<Flag(<<S(z[2])>>)>> [] k = 1 -> <<Flag(<<S(z[2]), S(b)>>)>> [] k = 2 -> <<Flag(<<S(z[2])>>), Flag(<<S(b)>>)>>
                   [] k = 3 -> <<Flag(<<S(z[2]), Fuzzy>>), CTra, Flag(<<S(b)>>)>> [] k = 4 -> <<Flag(<<S(b), S("x"), S(z[2])>>)>> IN
       /\ k # 0 \/ b = Word0
       /\ Whole(Cat(<<>>, <<[Entry(s0, x) EXCEPT !.cs = cs, !.pl = IF pl THEN <<s2>> ELSE <<>>], Shape(1)>>), Plain, eLF, FALSE)
  \/ z[1] = 2 /\ \E b \in Plain06 :
       Whole(Cat(<<>>, <<e, b>>), Plain, eLF, FALSE)

(***************************************************************************)
(* C08: headers.                                                           *)
(***************************************************************************)
KV(k, v, p) == [k |-> S(k), v |-> S(v), p |-> S(p)]
HLines == {KV("K", "v", ""), KV("K", "w w", " "), KV("L", "", ""), KV("L", "a:b:c", "\t"), KV("", "v", ""),
           [raw |-> S("no colon")], [raw |-> <<>>], KV("k", "v", " "), KV("X-\"q\"", "\\n", ""),
           [k |-> <<233>>, v |-> <<128512>>, p |-> <<160>>], KV("Two words", "= ;", "  "), KV("K", "", " ")}
Seeds08 == {<<1, ls>> : ls \in SeqsUpTo(HLines, IF Big THEN 4 ELSE 3)} \cup {<<2, x>> : x \in Blocks04(2)}
           \cup {<<3, i>> : i \in 1..9}
Make08(z) ==
  \/ z[1] = 1 /\ \E ls \in {z[2]} : \E cuts \in {{}, {2, 5}} :
       \* quick: layouts alternate
       /\ Big \/ Len(ls) < 3 \/ cuts = {2, 5}
       /\ Whole(Cat(<<[cs |-> <<>>, lines |-> ls]>>, <<Shape(1)>>), [Plain EXCEPT !.cuts = cuts], eLF, FALSE)
  \/ z[1] = 2 /\ \E x \in {z[2]} : \E ls \in {<<>>, <<KV("K", "v", "")>>} : \E es \in {<<>>, <<Shape(1)>>, <<Shape(4), Shape(3)>>} :
       /\ \A i \in 1..Len(x) : x[i].c \in {"dev", "tra", "other", "flag"}
       /\ Whole(Cat(<<[cs |-> x, lines |-> ls]>>, es), Plain, eLF, FALSE)
  \/ z[1] = 3 /\ \E i \in {z[2]}, j \in 1..9 : \E h \in {<<>>, Header1} :
       Whole(Cat(h, NamedAll(<<Shape(i), Shape(j)>>)), Plain, eLF, FALSE)

(***************************************************************************)
(* C14: a failure, or a wrong byte, at every byte.                         *)
(***************************************************************************)
Bytes(segs) == FlattenSeq(segs)
ToSegs(bytes) ==
  LET add(a, b) == IF b = LF THEN [done |-> Append(a.done, Append(a.cur, b)), cur |-> <<>>]
                   ELSE [a EXCEPT !.cur = Append(@, b)]
      x == FoldLeft(add, [done |-> <<>>, cur |-> <<>>], bytes)
  IN IF x.cur = <<>> THEN x.done ELSE Append(x.done, x.cur)
CountLf(bytes) == Len(SelectSeq(bytes, LAMBDA b : b = LF))
MB == [Entry(<<233, 8364>>, <<<<128512, 97>>>>) EXCEPT !.cs = <<CTra>>]
Cats14 == {Cat(Header1, <<Shape(1), Shape(3)>>), Cat(<<>>, <<Shape(1), MB>>), Cat(Header1, <<MB, Shape(5), Shape(2)>>),
           Cat(<<>>, <<Shape(9), Shape(8)>>), Cat(<<>>, <<>>)}
Faults == {[kind |-> "Other", msg |-> S("lost")], [kind |-> "UnexpectedEof", msg |-> S("x")],
           [kind |-> "WouldBlock", msg |-> S("later")], [kind |-> "InvalidData", msg |-> S("bad")],
           [kind |-> "BrokenPipe", msg |-> <<233>>], [kind |-> "TimedOut", msg |-> S("slow")]}
Lay14 == {[Plain EXCEPT !.cuts = {1}], [Plain EXCEPT !.gap = <<>>, !.tail = <<<<>>, S("# end")>>]}
Seeds14 == {<<cat, lay, m>> : cat \in Cats14, lay \in Lay14, m \in 0..7}
Make14(z) ==
    LET cat == z[1]  lay == z[2]
        b == Bytes(Segs(Write(lay, cat).lines, eLF, FALSE)) IN
    \E k \in {x \in 0..Len(b) : x % 8 = z[3]} :
      LET p == SubSeq(b, 1, k) IN
      \/ \E f \in Faults :
           /\ Big \/ f.kind \in {"Other", "UnexpectedEof"} \/ (k % 4 = 0)
           /\ IsCase([Case(cat, lay, "fault") EXCEPT !.L = CountLf(p), !.at = <<f>>],
                     [segs |-> ToSegs(p), fault |-> <<f>>])
      \/ \E w \in {128, 255, 192} :
           IsCase([Case(cat, lay, "fault") EXCEPT !.L = CountLf(p), !.at = <<Utf8Fault>>],
                  Doc(ToSegs(p \o <<w>> \o SubSeq(b, k + 1, Len(b)))))

(***************************************************************************)
(* C15, C16: catalogues with lines changed.                                *)
(***************************************************************************)
Cats16 == {Cat(Header1, NamedAll(<<Shape(1), Shape(3)>>)), Cat(<<>>, NamedAll(<<Shape(4), Shape(9)>>)),
           Cat(<<>>, <<Shape(3), Combo(TRUE, 2, TRUE, 2, FALSE, 1)>>), Cat(Header1, <<Combo(TRUE, 2, TRUE, 2, TRUE, 1), Shape(1)>>),
           Cat(OfForms(3), NamedAll(<<Shape(8), Shape(6), Shape(3)>>))}
Stray == <<S("msgid \"z\""), S("msgstr \"z\""), S("msgstr[0] \"z\""), S("msgstr[1] \"z\""), S("msgstr[2] \"z\""), S("msgstr[3] \"z\""),
           S("msgid_plural \"z\""), S("msgctxt \"z\""), S("\"z\""), S("#~ \"z\""), S("#| \"z\""), S("#| msgid \"z\""),
           S("#~ msgid \"z\""), S("#~| msgid \"z\""), S("# z"), S("#"), <<>>, S("domain \"z\""), S("msgid z"), S("msgid \"z"), S("z\""),
           S("msgid \"z\" \"z\""), S("msgidx \"z\""), S("msgstr[01] \"z\""), S("msgstr[] \"z\""), S("msgstr[-1] \"z\""), S("Msgid \"z\""),
           S("msgstr [0] \"z\""), S("msgstr[0 ] \"z\""), S("\""), S("\"z\\\""), S("msgid\"z\""), <<233>>, S("# ~ msgid \"z\""), S("msgid \"z\" # z")>>
CpsSharpTilde == S("#~ ")
Alterations(lines) ==
  {SubSeq(lines, 1, i - 1) \o SubSeq(lines, i + 1, Len(lines)) : i \in 1..Len(lines)}                  \* one line lost
  \cup {SubSeq(lines, 1, i) \o SubSeq(lines, i, Len(lines)) : i \in 1..Len(lines)}                     \* doubled
  \cup {[lines EXCEPT ![i] = lines[j], ![j] = lines[i]] : i \in 1..Len(lines), j \in 1..Len(lines)}    \* exchanged
  \cup {PutIn(lines, i, <<Stray[j]>>) : i \in 1..(Len(lines) + 1), j \in 1..Len(Stray)}
  \cup {[lines EXCEPT ![i] = Stray[j]] : i \in 1..Len(lines), j \in 1..Len(Stray)}
  \cup {[lines EXCEPT ![i] = SubSeq(@, 1, Len(@) - 1)] : i \in {k \in 1..Len(lines) : lines[k] # <<>>}}
  \cup {[lines EXCEPT ![i] = SubSeq(@, 2, Len(@))] : i \in {k \in 1..Len(lines) : lines[k] # <<>>}}
  \cup {[lines EXCEPT ![i] = CpsSharpTilde \o @] : i \in 1..Len(lines)}
Seeds16 == {<<cat, lay>> : cat \in Cats16, lay \in {[Plain EXCEPT !.gap = <<>>], [Plain EXCEPT !.cuts = {0}]}}
Make16(z) ==
  LET cat == z[1]  lay == z[2] IN
    /\ Big \/ lay.cuts = {} \/ cat.header = <<>>
    /\ \E ls \in Alterations(Write(lay, cat).lines) :
         \/ IsCase(Case(cat, lay, "altered"), Doc(Segs(ls, eLF, FALSE)))
         \/ Big /\ \E l2 \in Alterations(SubSeq(ls, 1, IF Len(ls) > 6 THEN 6 ELSE Len(ls))) :
              IsCase(Case(cat, lay, "altered"), Doc(Segs(l2, eLF, FALSE)))
Make15(z) ==
  z[2].cuts = {} /\ \E cat \in {z[1]} : \E ls \in Alterations(Write([Plain EXCEPT !.gap = <<>>], cat).lines) :
    IsCase(Case(cat, Plain, "altered"), Doc(Segs(ls \o <<<<>>, S("msgid \"good\""), S("msgstr \"one\"")>>, eLF, FALSE)))

(***************************************************************************)
(* C17: an entry without source at every position.                         *)
(***************************************************************************)
NoId == {[Combo(pc, p, cx, 0, obs, 1) EXCEPT !.id = <<>>, !.strs = <<t>>, !.cs = cs] :
           pc \in BOOLEAN, p \in 0..2, cx \in BOOLEAN, obs \in BOOLEAN, t \in {<<>>, s1}, cs \in {<<>>, <<CTra, CFuzzy>>}}
WithPl == {[x EXCEPT !.pl = <<S("p")>>] : x \in NoId}
Seeds17 == {<<1, x>> : x \in NoId} \cup {<<2, x>> : x \in WithPl}
Make17(z) ==
  LET x == z[2] IN
  \/ z[1] = 1 /\ \E before \in SeqsUpTo({1, 3, 8}, 2) : \E h \in {<<>>, Header1} : \E cuts \in {{}, {0}} : \E gap \in {<<>>, <<<<>>, <<SP>>>>} :
       /\ before # <<>> \/ h # <<>>
       /\ LET es == NamedAll([k \in 1..Len(before) |-> Shape(before[k])]) \o <<x, Shape(1)>>
              lay == [Plain EXCEPT !.cuts = cuts, !.gap = gap]
          IN IsCase([Case(Cat(h, es), lay, "empty") EXCEPT !.at = Len(before) + 1],
                    Doc(Segs(Write(lay, Cat(h, es)).lines, eLF, FALSE)))
  \/ z[1] = 2 /\ \E before \in SeqsUpTo({1, 3, 8}, 1) : \E h \in {<<>>, Header1} : \E cuts \in {{}, {0}} :
       Whole(Cat(h, NamedAll([k \in 1..Len(before) |-> Shape(before[k])]) \o <<x, Shape(1)>>),
             [Plain EXCEPT !.cuts = cuts], eLF, FALSE)

(***************************************************************************)
(* C18, C19: line ends; the same catalogue in several garbs.               *)
(***************************************************************************)
(* Around the sizes of buffers: k bytes before the entry, or in a string.    *)
Pad(n) == [i \in 1..n |-> 97]
Sizes18 == IF Big THEN {4096, 8192, 16384, 32768, 65536} ELSE {8192}
Seeds18 == SeqsUpTo(1..9, 2) \cup {<<99, n + k>> : n \in Sizes18, k \in (0 - (IF Big THEN 70 ELSE 35))..3} \cup {<<98, n + k>> : n \in Sizes18, k \in (0 - 20)..2}
Make18(z) ==
  IF z # <<>> /\ z[1] = 99
  THEN LET e == [Entry(<<233, 128512, 8364>>, <<<<128512, 10, 233>>>>) EXCEPT !.cs = <<[c |-> "tra", s |-> Pad(z[2])]>>] IN
       Whole(Cat(<<>>, <<e, Shape(1)>>), Plain, IF z[2] % 2 = 0 THEN eLF ELSE eCRLF, FALSE)
  ELSE IF z # <<>> /\ z[1] = 98
  THEN Whole(Cat(<<>>, <<Entry(Pad(z[2]) \o <<233, 92, 34, 128512>>, <<Pad(z[2]) \o <<128512, 10>>>>), Shape(1)>>), Plain, eLF, z[2] % 2 = 0)
  ELSE
  \E f \in {z} : \E h \in {<<>>, Header1} : \E eol \in {eLF, eCRLF} : \E open \in BOOLEAN : \E t \in {<<>>, <<<<>>>>, <<S("# e")>>} :
    Whole(Cat(h, NamedAll([k \in 1..Len(f) |-> Shape(f[k])])), [Plain EXCEPT !.tail = t, !.cuts = {2}], eol, open)
Seeds19 == SeqsUpTo({1, 3, 4, 6, 8, 9}, IF Big THEN 4 ELSE 3)
Make19(z) ==
  \E f \in {z} : \E h \in {<<>>, Header1} : \E g \in {<<>>, <<<<>>>>, <<<<>>, <<SP>>, <<>>>>} : \E cuts \in {{}, {0, 1}} :
    Whole(Cat(h, NamedAll([k \in 1..Len(f) |-> Shape(f[k])])), [Plain EXCEPT !.gap = g, !.cuts = cuts, !.tail = <<<<>>>>], eLF, FALSE)

(***************************************************************************)
(* C20: cut everywhere.                                                    *)
(***************************************************************************)
Cats20 == {Cat(OfForms(3), NamedAll(<<Shape(1), [Shape(3) EXCEPT !.strs = <<s1, <<>>, S("say \"hi\" \\")>>]>>)),
           Cat(OfForms(3), <<Combo(TRUE, 2, TRUE, 2, TRUE, 1), Shape(9)>>), Cat(OfForms(3), <<Combo(TRUE, 2, TRUE, 2, FALSE, 1), MB>>),
           Cat(OfForms(3), NamedAll(<<Shape(7), Shape(6), Shape(5)>>)),
           Cat(OfForms(3), <<Entry(S("q"), <<<<34, 92, 34, 10, 92>>>>), Shape(1)>>)}
Seeds20 == {<<cat, lay, m>> : cat \in Cats20, m \in 0..7,
                              lay \in {[Plain EXCEPT !.cuts = {0, 1}], [Plain EXCEPT !.gap = <<>>, !.cuts = {2}]}}
Make20(z) ==
    LET cat == z[1]  lay == z[2]
        segs == Segs(Write(lay, cat).lines, eLF, FALSE)  b == Bytes(segs) IN
    \E k \in {x \in 0..Len(b) : x % 8 = z[3]} :
      LET p == SubSeq(b, 1, k)  sg == ToSegs(p)
          part == IF sg = <<>> \/ HasLf(sg[Len(sg)]) THEN 0 ELSE Len(sg[Len(sg)])
      IN IsCase([Case(cat, lay, "cut") EXCEPT !.L = CountLf(p), !.part = part, !.forms = FormsN(3)], Doc(sg))

(***************************************************************************)
(* C09: languages put together from their parts.                           *)
(***************************************************************************)
Title(x) == <<ToUpper(x[1])>> \o MapLower(Tail(x))
DASH == <<45>>
JoinTag(ps) == Join(SelectSeq(ps, LAMBDA x : x # <<>>), DASH)
Swap(x, k) == CASE k = 1 -> x [] k = 2 -> MapLower(x) [] k = 3 -> MapUpper(x)
                [] k = 4 -> <<>> \o [i \in 1..Len(x) |-> IF i % 2 = 1 THEN ToLower(x[i]) ELSE ToUpper(x[i])]
(* A standard tag: language, extension, script, region, variants.            *)
Langs09 == {S("fr"), S("zzz")}
Exts09 == {<<>>, S("cmn"), S("yue-abc")}
Scripts09 == {<<>>, S("Latn"), S("Hant")}
Regions09 == {<<>>, S("US"), S("419")}
Variants09 == {<<>>, S("1996"), S("rozaj-biske"), S("u-nu-latn"), S("x-abc"), S("12345678")}
(* Others, with what they come to.                                           *)
Known09 == {<<"", "">>, <<"english", "english">>, <<"English-US", "english-us">>, <<"i-KLINGON", "i-klingon">>, <<"x", "x">>, <<"*", "*">>, <<"*-de", "*-DE">>,
            <<"fr_FR", "fr-FR">>, <<"FR_fr", "fr-FR">>, <<"fr_FR.UTF-8", "fr-FR">>, <<"fr.utf8", "fr">>, <<"fr_419.ISO-8859-1@euro", "fr-419">>,
            <<"sr@latin", "sr-Latn">>, <<"sr_RS@Cyrillic", "sr-Cyrl-RS">>, <<"be_BY@tarask", "be-BY-u-va-tarask">>, <<"ca_ES.UTF-8@valencia", "ca-ES-valencia">>,
            <<"sr_RS@ijekavianlatin", "sr-Latn-RS-ijekavsk">>, <<"sr@ije", "sr-ijekavsk">>, <<"aa_ER@saaho", "ssy-ER">>, <<"uz@iqtelif", "uz-Latn">>,
            <<"en@shaw", "en-Shaw">>, <<"ks_IN@devanagari", "ks-Deva-IN">>, <<"ks@Arabic", "ks-Arab">>, <<"he@hebrew", "he-Hebr">>, <<"uz@cyrl", "uz-Cyrl">>, <<"uz@LATN", "uz-Latn">>,
            <<"de@verylongmodifier", "de-u-va-verylong">>, <<"C", "c">>, <<"POSIX", "posix">>, <<"C.UTF-8", "">>, <<"posix.utf8", "">>,
            <<"fr_FR_x", "">>, <<"fr_USA", "">>, <<"f_FR", "">>, <<"french_FR", "">>, <<"fr FR", "">>, <<"fr;", "">>, <<"fr-", "">>, <<"-fr", "">>, <<"fr--FR", "">>,
            <<"fr_FR.", "">>, <<"fr_FR@", "">>, <<"fr@a-b", "">>, <<"1", "">>, <<"fr.a_b", "">>, <<"fr-123456789", "">>, <<"abcdefghi", "">>, <<"C_FR", "">>,
            <<"fr_FR@latin.utf8", "">>, <<"English (US)", "">>, <<"en-US;q=0.8", "">>, <<"fr,de", "">>, <<"C@latin", "">>, <<"LANGUAGE", "language">>,
            <<"zh_Hans", "">>, <<"zh_CN.GB18030@pinyin", "zh-CN-u-va-pinyin">>, <<"no.12345678901234567890", "no">>, <<"no.123456789012345678901", "">>}
Junk09 == {<<>>, S("a"), S("fr"), S("FR"), S("_"), S("-"), S("."), S("@"), S("*"), S("Latn"), S("lATIN"), S("419"), S("1996"), S("u"), S("C"), S("posix"), S("utf8"), S("euro"),
           S("valencia"), S("12345678"), S("123456789"), <<233>>, S(" "), S("aa"), S("saaho"),
           <<383>>, <<8490>>, S("en@"), S("abcdefg"), S(" (US)"), S("(fr)"), S(", de"), S("/de"), S("+"), S("="), S("%"), S("\\")}
LangDoc(v, more) == Hdr(more \o <<[k |-> KLanguage, v |-> v, p |-> <<>>]>>)
LangCase(v, l) == LET c == Cat(LangDoc(v, <<>>), <<Shape(1)>>) IN
  IsCase([Case(c, Plain, "whole") EXCEPT !.lang = l], Doc(Segs(Write(Plain, c).lines, eLF, FALSE)))
NoEdgeWs(v) == v = Trim(v)
Seeds09 == {<<1, l, e>> : l \in Langs09, e \in Exts09} \cup {<<2, x>> : x \in Known09} \cup {<<3, a>> : a \in Junk09}
           \cup {<<4, k>> : k \in 1..7} \cup {<<5, a, b>> : a \in {x \in Junk09 : Big}, b \in Junk09}
Make09(z) ==
  \/ z[1] = 1 /\ \E sc \in Scripts09 : \E r \in Regions09 : \E v \in Variants09 : \E k \in 1..4 :
       LangCase(Swap(JoinTag(<<z[2], z[3], sc, r, v>>), k), JoinTag(<<z[2], z[3], sc, r, v>>))
  \/ z[1] = 2 /\ \E k \in 1..4 : LangCase(Swap(S(z[2][1]), k), S(z[2][2]))
  \/ z[1] \in {3, 5} /\ \E b \in (IF z[1] = 3 THEN Junk09 ELSE {z[3]}) : \E c \in Junk09 :
       LET v == z[2] \o b \o c
           t == Cat(LangDoc(v, <<>>), <<Shape(1)>>) IN
       NoEdgeWs(v) /\ IsCase([Case(t, Plain, "lang") EXCEPT !.at = v], Doc(Segs(Write(Plain, t).lines, eLF, FALSE)))
  \/ z[1] = 4 /\
       LET K(k, v) == [k |-> S(k), v |-> S(v), p |-> <<>>]
           ls == CASE z[2] = 1 -> <<K("X", "fr"), K("Language", "de"), K("Y", "it")>>
                   [] z[2] = 2 -> <<K("Language", "fr"), K("Language", "de")>>
                   [] z[2] = 3 -> <<K("language", "fr")>>
                   [] z[2] = 4 -> <<K("LANGUAGE", "fr"), K("Language-Team", "fr")>>
                   [] z[2] = 5 -> <<[raw |-> S("Language fr")], [raw |-> S("fr")]>>
                   [] z[2] = 6 -> <<[K("Language", "pt_BR") EXCEPT !.p = S(" \t")]>>
                   [] z[2] = 7 -> <<K("Language", ""), K("Language", "fr")>>
           c == Cat(Hdr(ls), <<Shape(1)>>) IN
       IsCase([Case(c, Plain, "whole") EXCEPT !.lang = CASE z[2] = 1 -> S("de") [] z[2] = 6 -> S("pt-BR") [] z[2] = 7 -> <<>> [] OTHER -> <<>>],
              Doc(Segs(Write(Plain, c).lines, eLF, FALSE)))
(* Whatever the text: case does not matter, and what results is stable.      *)
IsLang ==
  LET l == NormLanguage(vCase.at) IN
  /\ vR.meta.lang = l /\ Evs[1].ev = "opened"
  /\ NormLanguage(MapUpper(vCase.at)) = l /\ NormLanguage(MapLower(vCase.at)) = l
  /\ NormLanguage(l) = l
  /\ \A i \in 1..Len(l) : IsAlnum(l[i]) \/ l[i] \in {45, 42}

(***************************************************************************)
(* C10: declarations put together from items.                              *)
(***************************************************************************)
(* An item: key, value, the count it gives, whether it is fine.              *)
It(k, v) == [k |-> S(k), v |-> S(v)]
Items10 == {It("nplurals", "3"), It("nplurals", "1"), It("nplurals", "+4"), It("nplurals", "007"), It("nplurals", "0"), It("nplurals", "-1"), It("nplurals", ""),
            It("nplurals", "x"), It("nplurals", "2 2"), It("nplurals", "4294967296"), It("nplurals", "18446744073709551615"), It("nplurals", "18446744073709551616"), It("nplurals", "1e3"),
            It("plural", "n"), It("plural", "n != 1"), It("plural", ""), It("plural", "1"), It("plural", "(n"), It("plural", "n=1"), It("plural", "x"),
            It("x", "y"), It("Plural", "0"), It("plurals", "7"), It("npluralsx", "9"), It("a=b", "c"), It("k", "="),
            It("NPlurals", "3"), It("PLURAL", "1"), It("nplural", "3"), It("n_plurals", "3"), It("\"plural\"", "0")}
GoodCount == {<<"3", 3>>, <<"1", 1>>, <<"+4", 4>>, <<"007", 7>>, <<"0", 0>>}
BigCount == {<<"4294967296", <<0, 0, 0, 0, 1, 0, 0, 0>>>>, <<"18446744073709551615", <<-1>>>>}
GoodFormula == {S("n"), S("n != 1"), <<>>, S("1")}
CountVal(v) == LET g == {x[2] : x \in {y \in GoodCount : S(y[1]) = v}}  b == {x[2] : x \in {y \in BigCount : S(y[1]) = v}} IN
               IF g # {} THEN <<<<CHOOSE x \in g : TRUE>>>> ELSE IF b # {} THEN <<CHOOSE x \in b : TRUE>> ELSE <<>>
FormulaVal(v) == CASE v = S("n") \/ v = <<>> -> <<Var>> [] v = S("1") -> <<Num(<<1>>)>>
                   [] v = S("n != 1") -> <<[o |-> "!=", a |-> Var, b |-> Num(<<1>>)]>> [] OTHER -> <<>>
Styles10 == {<<"", "=", "; ">>, <<"", "=", ";">>, <<" ", " = ", " ;  ">>, <<"", "=\t", "\t;">>}
ItemText(it, st) == S(st[1]) \o it.k \o S(st[2]) \o it.v \o S(st[3])
DeclText(its, st) == FlattenSeq([i \in 1..Len(its) |-> ItemText(its[i], st)])
LastVal(its, key) == LET l == SelectSeq(its, LAMBDA x : x.k = S(key)) IN IF l = <<>> THEN <<>> ELSE <<l[Len(l)].v>>
FormsOf(its, def) ==
  LET c == LastVal(its, "nplurals")  f == LastVal(its, "plural")
      src == IF f = <<>> THEN <<>> ELSE f[1] IN
  IF FormulaVal(src) = <<>> THEN [why |-> "formula", forms |-> <<>>]
  ELSE IF c # <<>> /\ CountVal(c[1]) = <<>> THEN [why |-> "count", forms |-> <<>>]
  ELSE IF def = <<>> THEN [why |-> "", forms |-> <<>>]
  ELSE [why |-> "", forms |-> <<[cnt |-> IF c = <<>> THEN <<2>> ELSE CountVal(c[1])[1], e |-> FormulaVal(src)[1], def |-> def, src |-> src]>>]
DeclHdr(d) == Hdr(<<[k |-> S("Language"), v |-> S("fr"), p |-> <<>>], [k |-> KPluralForms, v |-> d, p |-> <<>>], [k |-> S("X"), v |-> S("y"), p |-> <<>>]>>)
(* As many translations as may be read.                                      *)
Es10(m) == LET t == IF m = 0 THEN 0 ELSE IF m > 3 THEN 3 ELSE m IN
           <<[Shape(3) EXCEPT !.strs = SubSeq(<<s1, <<>>, s2>>, 1, IF t = 0 THEN 1 ELSE t)], Shape(1),
             [Shape(8) EXCEPT !.pl = <<s2>>, !.strs = SubSeq(<<s1, s1, s2>>, 1, IF t = 0 THEN 1 ELSE t)]>>
Forms10 == IF Big THEN Items10 ELSE {x \in Items10 : x.v \notin {S("1e3"), S("2 2"), S("007"), S("x"), S("=")}}
Seeds10 == {<<1, its>> : its \in SeqsUpTo(Items10, 2)} \cup {<<2, a, b>> : a \in {x \in Items10 : Big}, b \in {x \in Items10 : Big}}
           \cup {<<3, k>> : k \in 1..40}
RawDecls == <<"nplurals=2", "nplurals=2; plural=n", "plural", ";", ";;", "=", "=;", "= ;", "==;", "a=;", "a=;;", "a;=;", "a=b;c", "a=b;c;", "a=b;;c=d;", "a b=c;", "a b=c; d=e;", "plural=n;nplurals=3;;",
              "plural==n;", "nplurals =3;", "nplurals= 3;", "nplurals\t=\t3;", "plural=n; garbage", "garbage plural=n;", "garbage; plural=n;", "plural=n!=1;plural=0;", "plural:n;", "nplurals=3,plural=n;",
              "nplurals=3; plural=n; x", "plural=n ; ; ;", "nplurals=3;plural=(n\n>1);", "nplurals=3:plural=n;", "nplurals=\"3\";", "plural=n\\;", "plural=n;=;", "=a;plural=n;", " = plural=n;", "x =y=z;",
              "nplurals=3;\tplural=n?1:0;", "nplurals=3; plural=n?1:0; ;">>
Make10(z) ==
  \/ z[1] \in {1, 2} /\ \E its \in (IF z[1] = 1 THEN {z[2]} ELSE {<<z[2], z[3], x>> : x \in Items10}) : \E st \in Styles10 :
       LET def == Trim(DeclText(its, st))
           f == FormsOf(its, def)
           cnt == IF f.forms = <<>> THEN 2 ELSE LET v == f.forms[1].cnt IN IF Len(v) = 8 \/ v[1] < 0 THEN 3 ELSE v[1]
           c == Cat(DeclHdr(def), Es10(cnt)) IN
       /\ Len(its) < 2 \/ st[1] = "" \/ Big
       /\ IF f.why = "" /\ cnt # 0 THEN IsCase([Case(c, Plain, "whole") EXCEPT !.forms = f.forms, !.lang = S("fr")], Doc(Segs(Write(Plain, c).lines, eLF, FALSE)))
          ELSE IF f.why = "" THEN IsCase(Case(c, Plain, "altered"), Doc(Segs(Write(Plain, c).lines, eLF, FALSE)))
          ELSE IsCase([Case(c, Plain, "refused") EXCEPT !.why = f.why], Doc(Segs(Write(Plain, c).lines, eLF, FALSE)))
  \/ z[1] = 3 /\ z[2] <= Len(RawDecls) /\ \E two \in 0..2 :
       LET K(v) == [k |-> KPluralForms, v |-> Trim(v), p |-> <<>>]
           d == S(RawDecls[z[2]])
           c == Cat(Hdr(CASE two = 0 -> <<K(d)>> [] two = 1 -> <<K(S("nplurals=3;")), K(d)>> [] two = 2 -> <<K(d), K(S("x=y; plural=n>1;"))>>), Es10(2)) IN
       IsCase(Case(c, Plain, "altered"), Doc(Segs(Write(Plain, c).lines, eLF, FALSE)))
IsRefused == Len(Evs) = 1 /\ Evs[1].ev = "plural" /\ Evs[1].why = vCase.why

(***************************************************************************)
(* C11: declarations in use, against the rules they stand for.             *)
(***************************************************************************)
Rules11 == <<<<1, "0">>, <<2, "n!=1">>, <<2, "n>1">>,
  <<3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2">>,
  <<3, "(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2">>,
  <<3, "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 or n%100>=20) ? 1 : 2">>,
  <<3, "n==1 ? 0 : n==0 || (n%100>0 && n%100<20) ? 1 : 2">>,
  <<4, "n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 or n%100==4 ? 2 : 3">>,
  <<6, "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5">>,
  <<12, "n">>, <<12, "n%12">>, <<3, "n-1">>, <<4, "2-n">>, <<5, "n/3">>, <<2, "n==0 ? -1 : not (n==1)">>, <<11, "n*2">>>>
LOCAL In(x, a, b) == x >= a /\ x <= b
Rule11(i, n) ==      \* -1: none
  LET d == n % 10  c == n % 100 IN
  CASE i = 1 -> 0 [] i = 2 -> (IF n = 1 THEN 0 ELSE 1) [] i = 3 -> (IF n > 1 THEN 1 ELSE 0)
    [] i = 4 -> (IF d = 1 /\ c # 11 THEN 0 ELSE IF In(d, 2, 4) /\ ~In(c, 12, 14) THEN 1 ELSE 2)
    [] i = 5 -> (IF n = 1 THEN 0 ELSE IF In(n, 2, 4) THEN 1 ELSE 2)
    [] i = 6 -> (IF n = 1 THEN 0 ELSE IF In(d, 2, 4) /\ ~In(c, 12, 14) THEN 1 ELSE 2)
    [] i = 7 -> (IF n = 1 THEN 0 ELSE IF n = 0 \/ In(c, 1, 19) THEN 1 ELSE 2)
    [] i = 8 -> (IF c = 1 THEN 0 ELSE IF c = 2 THEN 1 ELSE IF In(c, 3, 4) THEN 2 ELSE 3)
    [] i = 9 -> (IF n <= 2 THEN n ELSE IF In(c, 3, 10) THEN 3 ELSE IF c >= 11 THEN 4 ELSE 5)
    [] i = 10 -> n [] i = 11 -> n % 12 [] i = 12 -> (IF n = 0 THEN -1 ELSE n - 1) [] i = 13 -> (IF n > 2 THEN -1 ELSE 2 - n)
    [] i = 14 -> n \div 3 [] i = 15 -> (IF n = 0 THEN -1 ELSE IF n = 1 THEN 0 ELSE 1) [] i = 16 -> 2 * n
Counts11 == IF Big THEN 0..220 ELSE (0..25) \cup {99, 100, 101, 102, 103, 104, 105, 110, 111, 112, 113, 114, 115, 119, 120, 121, 122, 199, 200, 201, 202, 211, 212, 1000, 1001, 1011, 1012}
Probes11 == LET q == SetToSortSeq(Counts11, <) IN [i \in 1..Len(q) |-> <<q[i]>>]
Decl11(i) == S("nplurals=") \o Dec(Rules11[i][1]) \o S("; plural=") \o S(Rules11[i][2]) \o S(";")
Forms11(i) == <<[cnt |-> <<Rules11[i][1]>>, e |-> ParseFormula(S(Rules11[i][2])).e, def |-> Decl11(i), src |-> S(Rules11[i][2])]>>
Texts11(m, e) == [i \in 1..m |-> IF e = i THEN <<>> ELSE S("t") \o Dec(i - 1)]
Seeds11 == {<<1, i>> : i \in 1..Len(Rules11)} \cup {<<2, f>> : f \in SeqsUpTo(0..4, IF Big THEN 5 ELSE 4)} \cup {<<3>>}
Make11(z) ==
  \/ z[1] = 1 /\ \E m \in 1..Rules11[z[2]][1] : \E e \in 0..m : \E obs \in BOOLEAN :
       LET x == [Entry(s0, Texts11(m, e)) EXCEPT !.pl = <<s1>>, !.obs = obs]
           c == Cat(DeclHdr(Decl11(z[2])), <<x, Shape(1), Shape(2), [x EXCEPT !.pid = <<s2>>, !.ppl = <<s3>>]>>) IN
       IsCase([Case(c, Plain, "whole") EXCEPT !.forms = Forms11(z[2]), !.lang = S("fr"), !.probes = Probes11, !.rule = z[2]], Doc(Segs(Write(Plain, c).lines, eLF, FALSE)))
  \/ z[1] = 2 /\ \E k \in {0, 2, 3, 11} :     \* any numbering
       LET h == IF k = 0 THEN <<>> ELSE DeclHdr(S("nplurals=") \o Dec(k) \o S("; plural=n;"))
           ls == Write(Plain, Cat(h, <<>>)).lines \o <<<<>>, S("msgid \"a\""), S("msgid_plural \"b\"")>>
                 \o [i \in 1..Len(z[2]) |-> KwNth(z[2][i]) \o <<SP, DQ, 116>> \o Dec(i) \o <<DQ>>] \o <<<<>>, S("msgid \"z\""), S("msgstr \"z\"")>> IN
       IsCase([Case(Cat(h, <<>>), Plain, "altered") EXCEPT !.probes = [i \in 1..13 |-> <<i - 1>>]], Doc(Segs(ls, eLF, FALSE)))
  \/ z[1] = 3 /\ \E m \in {1, 2} : \E es \in {<<>>, <<Shape(3)>>} :       \* nothing declared
       LET c == Cat(<<>>, es \o <<[Entry(s0, Texts11(m, 0)) EXCEPT !.pl = <<s1>>], Shape(1)>>) IN Whole(c, Plain, eLF, FALSE)
(* The answers, from the rules.                                              *)
Answer(u, n) ==
  IF ~u.msg.plural THEN u.msg.text
  ELSE LET k == Rule11(vCase.rule, n) IN
       IF k >= 0 /\ k < Rules11[vCase.rule][1] /\ k < Len(u.msg.vals) THEN <<u.msg.vals[k + 1]>> ELSE <<>>
Answers == vCase.rule > 0 => \A h \in Range1(Units(vHist)) : \A p \in Range1(vCase.probes) : PluralText(h.e.u.msg, p) = Answer(h.e.u, p[1])

(***************************************************************************)
(* C22: long texts of wide characters, at every alignment, wherever a text *)
(* can stand: nothing may be cut in the middle of a character.             *)
(***************************************************************************)
Wide22 == {233, 8364, 128512, 92, 34, 32, 65}
Text22(r, c, n) == [i \in 1..(r + n) |-> IF i <= r THEN 97 ELSE c]
Lens22 == IF Big THEN {1, 5, 9, 17, 33, 66, 130, 300, 1100, 4200} ELSE {9, 33, 66, 130, 300}
PlainEntry == <<S("msgid \"a\""), S("msgstr \"b\"")>>
Seeds22 == {<<r, c, n>> : r \in 0..3, c \in Wide22, n \in Lens22}
(* Every place for a text, as lines (t: as it is, q: as a string's inside).  *)
Places22(t) ==
  LET q == Quote(t)  in == Escape(t)
      h(x) == <<S("msgid \"\""), S("msgstr \"") \o x \o S("\\n\"")>>
      hh(x, y) == <<S("msgid \"\""), S("msgstr \"Plural-Forms: nplurals=2; plural=n;") \o x \o S("\\n\""), <<DQ>> \o y \o S("\\n\"")>>
      kw(x) == x \o <<SP>> \o q IN
  <<<<kw(KwId), S("msgstr \"b\"")>>, <<S("msgid \"a\""), kw(KwStr)>>, <<kw(KwCtxt)>> \o PlainEntry, <<S("msgid \"a\""), kw(KwPlural), kw(KwNth(0)), kw(KwNth(1))>>,
    <<S("#| ") \o kw(KwCtxt), S("#| ") \o kw(KwId), S("#| ") \o kw(KwPlural)>> \o PlainEntry, <<S("#~ ") \o kw(KwId), S("#~ ") \o kw(KwStr)>>,
    <<S("msgid \"a\""), S("msgstr \"\""), q, q>>, <<S("# ") \o t>> \o PlainEntry, <<S("#. ") \o t>> \o PlainEntry, <<S("#! ") \o t>> \o PlainEntry, <<S("#") \o t>> \o PlainEntry,
    <<S("#, ") \o t>> \o PlainEntry, <<S("#, fuzzy, ") \o t \o S(",") \o t>> \o PlainEntry, <<S("#: ") \o t \o S(":1 ") \o t>> \o PlainEntry, <<S("#~ ") \o t>> \o PlainEntry,
    <<t>>, PlainEntry \o <<t>>, <<S("msgid ") \o t>>, <<S("msgid \"") \o in>>, <<t \o S(" \"x\"")>>, <<S("msgid \"a\""), S("#| ") \o kw(KwId)>>, <<kw(KwStr)>>, <<q>>,
    <<S("msgid \"a\""), kw(KwCtxt)>>, <<S("msgid \"a\""), kw(KwId)>>, <<S("msgid \"a\""), S("# ") \o t>>, <<S("msgstr[") \o t \o S("] \"x\"")>>,
    <<S("msgctxt \"") \o in \o S("\\"), S("x")>>, <<S("msgid \"\\") \o in \o S("\""), S("msgstr \"b\"")>>,
    h(in), h(in \o S(": v")), h(S("K: ") \o in), h(S("Language: ") \o in), h(S("Language: fr_FR.") \o in), h(S("Language: fr_FR@") \o in), h(S("Language: fr-") \o in),
    h(S("Plural-Forms: ") \o in), h(S("Plural-Forms: ") \o in \o S(";")), h(S("Plural-Forms: x; ") \o in), h(S("Plural-Forms: x=") \o in \o S("; y")), h(S("Plural-Forms: ") \o in \o S("=x;")), h(S("Plural-Forms: nplurals=") \o in \o S(";")), h(S("Plural-Forms: plural=") \o in \o S(";")),
    h(S("Plural-Forms: nplurals=2; plural=n") \o in \o S(";")), hh(<<>>, in), hh(in, S("Language: fr")), hh(S(" ") \o in \o S("=x;"), in \o S(":") \o in),
    <<S("# ") \o t>> \o h(in), PlainEntry \o <<<<>>, S("msgid \"\""), kw(KwStr)>>, <<S("msgctxt \"x\""), S("msgid \"\""), S("msgid_plural \"\""), kw(KwNth(0)), kw(KwNth(2))>>>>
Make22(z) ==
  LET ps == Places22(Text22(z[1], z[2], z[3])) IN
  \E i \in 1..Len(ps) : \E open \in BOOLEAN : \E more \in BOOLEAN :
    /\ more \/ ~open
    /\ IsCase(Case(Cat(<<>>, <<>>), Plain, "altered"), Doc(Segs(ps[i] \o (IF more THEN <<<<>>>> \o PlainEntry ELSE <<>>), eLF, open)))

Seeds15 == Seeds16
Seeds ==
  CASE Family = "C01" -> Seeds01
    [] Family = "C02" -> Seeds02
    [] Family = "C03" -> Seeds03
    [] Family = "C04" -> Seeds04
    [] Family = "C05" -> Seeds05
    [] Family = "C06" -> Seeds06
    [] Family = "C07" -> Seeds07
    [] Family = "C08" -> Seeds08
    [] Family = "C09" -> Seeds09
    [] Family = "C10" -> Seeds10
    [] Family = "C11" -> Seeds11
    [] Family = "C14" -> Seeds14
    [] Family = "C15" -> Seeds15
    [] Family = "C16" -> Seeds16
    [] Family = "C17" -> Seeds17
    [] Family = "C18" -> Seeds18
    [] Family = "C19" -> Seeds19
    [] Family = "C20" -> Seeds20
    [] Family = "C22" -> Seeds22
Make ==
  CASE Family = "C01" -> Make01(vCase)
    [] Family = "C02" -> Make02(vCase)
    [] Family = "C03" -> Make03(vCase)
    [] Family = "C04" -> Make04(vCase)
    [] Family = "C05" -> Make05(vCase)
    [] Family = "C06" -> Make06(vCase)
    [] Family = "C07" -> Make07(vCase)
    [] Family = "C08" -> Make08(vCase)
    [] Family = "C09" -> Make09(vCase)
    [] Family = "C10" -> Make10(vCase)
    [] Family = "C11" -> Make11(vCase)
    [] Family = "C14" -> Make14(vCase)
    [] Family = "C15" -> Make15(vCase)
    [] Family = "C16" -> Make16(vCase)
    [] Family = "C17" -> Make17(vCase)
    [] Family = "C18" -> Make18(vCase)
    [] Family = "C19" -> Make19(vCase)
    [] Family = "C20" -> Make20(vCase)
    [] Family = "C22" -> Make22(vCase)

(***************************************************************************)
(* The machine: one step per call.                                         *)
(***************************************************************************)
Init == vMade = FALSE /\ vCase \in Seeds /\ vDoc = Doc(<<>>) /\ vToks = <<>> /\ vR = NewReader /\ vHist = <<>> /\ vExtra = 2
Write1 == ~vMade /\ vMade' = TRUE /\ Make /\ UNCHANGED <<vR, vHist, vExtra>>
Step(x) == LET y == CallThrough(x, vToks) IN vR' = y /\ vHist' = Append(vHist, [e |-> y.out, n |-> y.n])
Stopped == vHist # <<>> /\ vHist[Len(vHist)].e.ev \notin {"unit", "opened"}
Parse == vMade /\ CanParse(vR) /\ Step(DoParse(vR)) /\ UNCHANGED <<vCase, vMade, vDoc, vToks, vExtra>>
NextUnit == CanNext(vR) /\ ~Stopped /\ Step(DoNext(vR)) /\ UNCHANGED <<vCase, vMade, vDoc, vToks, vExtra>>
Again == CanNext(vR) /\ Stopped /\ vExtra > 0 /\ vExtra' = vExtra - 1 /\ Step(DoNext(vR)) /\ UNCHANGED <<vCase, vMade, vDoc, vToks>>
Next == Write1 \/ Parse \/ NextUnit \/ Again
Spec == Init /\ [][Next]_vars
Done == vHist # <<>> /\ vR.call = "idle" /\ (vR.dead \/ (Stopped /\ vExtra = 0))

(***************************************************************************)
(* What it must be.                                                        *)
(***************************************************************************)
SameMeta == LET m == MetaOf(vCase.cat, vCase.lang) IN
  /\ vR.meta.notes = m.notes /\ vR.meta.comms = m.comms /\ Range1(vR.meta.props) = m.props /\ vR.meta.lang = m.lang
IsWhole == Evs = Meaning(vCase.cat, vCase.forms) /\ SameMeta

Data(e) == IF e.ev # "unit" THEN e
           ELSE [ctxt |-> e.u.ctxt, msg |-> e.u.msg, pctxt |-> e.u.pctxt, pmsg |-> e.u.pmsg, obs |-> e.u.obs]
IsData == [i \in 1..Len(Evs) |-> Data(Evs[i])] = [i \in 1..Len(Meaning(vCase.cat, vCase.forms)) |-> Data(Meaning(vCase.cat, vCase.forms)[i])]

UnitsOf(es) == [i \in 1..Len(es) |-> UnitOf(es[i], vCase.forms)]
Got == LET us == Units(vHist) IN [i \in 1..Len(us) |-> us[i].e.u]

(* The entry e, its lines starting at line `from`, cut after line L: the     *)
(* strings of which at least the first line is left, <<>> if it has no       *)
(* translation yet.                                                          *)
Left(lay, s, n) ==       \* the text of the first n lines of string s
  LET ps == Pieces(s, lay.cuts) IN FlattenSeq(SubSeq(ps, 1, IF n < Len(ps) THEN n ELSE Len(ps)))
NLines(lay, s) == Len(Pieces(s, lay.cuts))
CutEntry(lay, e, last, L) ==
  LET ns == [i \in 1..Len(e.strs) |-> NLines(lay, e.strs[i])]
      total == FoldLeft(+, 0, ns)
      kept == L - (last - total)                       \* lines of translations left
      start(i) == FoldLeft(+, 0, SubSeq(ns, 1, i - 1))
      n == Cardinality({i \in 1..Len(ns) : start(i) < kept})
  IN IF kept <= 0 THEN <<>>
     ELSE <<[e EXCEPT !.strs = [i \in 1..n |-> Left(lay, e.strs[i], kept - start(i))]]>>
CutUnits(L) ==
  LET es == AllEntries(vCase.cat)  sp == Write(vCase.lay, vCase.cat).spans
      whole == Cardinality({i \in 1..Len(es) : sp[i].last <= L})
      more == IF whole = Len(es) THEN <<>> ELSE CutEntry(vCase.lay, es[whole + 1], sp[whole + 1].last, L)
      all == SubSeq(es, 1, whole) \o more
  IN UnitsOf(IF all = <<>> THEN <<>> ELSE Tail(all))    \* these catalogues have a header
(* The header cut short may not declare the plural forms yet.                *)
NoFormsOf(u) == [u EXCEPT !.msg = IF @.plural THEN [@ EXCEPT !.forms = <<>>] ELSE @,
                          !.pmsg = IF @.plural THEN [@ EXCEPT !.forms = <<>>] ELSE @]
IsCut ==
  LET w == Write(vCase.lay, vCase.cat).lines
      line == Encode(w[vCase.L + 1])
      full == vCase.part > 0 /\ vCase.part = Len(line)
      us == CutUnits(IF full THEN vCase.L + 1 ELSE vCase.L)
      st == Stops(vHist)[1].e
  IN IF vCase.part = 0 \/ full
     THEN Got = us /\ st = End
     ELSE \/ Got = us /\ st.ev \in {"end", "parse", "io", "plural", "unexpected"}
          \/ us # <<>> /\ Got = SubSeq(us, 1, Len(us) - 1) /\ st.ev \in {"parse", "io"}
          \/ st.ev \in {"parse", "io"} /\ Got = <<>> /\ us = <<>>

(* Only units ended by a line read before the failure.                       *)
IsFault ==
  LET w == Write(vCase.lay, vCase.cat)  es == AllEntries(vCase.cat)  sp == w.spans
      ended(i) == \E l \in (sp[i].last + 1)..vCase.L : SkipWs(w.lines[l], 1) <= Len(w.lines[l])
      n == Cardinality({i \in 1..Len(es) : ended(i)})
      h == IF vCase.cat.header = <<>> THEN 0 ELSE 1
      err == ErrIo(vCase.L + 1, vCase.at[1])
      opening == n = 0 /\ Len(es) > 0 /\ (h = 1 \/ TRUE)
  IN /\ (n = 0) => Evs = <<err>>
     /\ (n > 0) => Evs = <<[ev |-> "opened"]>>
                         \o [i \in 1..(n - h) |-> [ev |-> "unit", u |-> UnitOf(vCase.cat.entries[i], <<>>)]]
                         \o <<err, End, End>>

IsEmptyAt ==
  LET sp == Write(vCase.lay, vCase.cat).spans
      h == IF vCase.cat.header = <<>> THEN 0 ELSE 1
      err == ErrUnexpected(sp[vCase.at + h].fields, EmptySourceMsg)
  IN Evs = <<[ev |-> "opened"]>>
           \o [i \in 1..(vCase.at - 1) |-> [ev |-> "unit", u |-> UnitOf(vCase.cat.entries[i], <<>>)]]
           \o <<err, End, End>>

AsWritten ==
  Done => Answers /\ CASE vCase.kind = "whole" -> IsWhole
            [] vCase.kind = "data" -> IsData
            [] vCase.kind = "cut" -> IsCut
            [] vCase.kind = "fault" -> IsFault
            [] vCase.kind = "empty" -> IsEmptyAt
            [] vCase.kind = "lang" -> IsLang
            [] vCase.kind = "refused" -> IsRefused
            [] vCase.kind = "altered" -> TRUE

AtFault == LET t == TokOf(vToks, vR.n + 1) IN vR.over /\ t.k = "ioerr" /\ t.begun = 0
Pulled == SelectSeq(SubSeq(vToks, 1, vR.n + (IF AtFault THEN 1 ELSE 0)), LAMBDA t : t.k # "blank")
Rules == Done => AllRules(Pulled, vR.meta, vHist)

Export == Exporting /\ Done =>
  PrintT(ToJson([segs |-> vDoc.segs, fault |-> vDoc.fault, probes |-> vCase.probes,
                 stop |-> Stops(vHist)[1].e.ev,
                 exp |-> [i \in 1..Len(vHist) |->
                            Project(Prop, Flat(vHist[i].e, [vR EXCEPT !.n = vHist[i].n], vCase.probes))]]))
=============================================================================
