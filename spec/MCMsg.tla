-------------------------------- MODULE MCMsg -------------------------------
(* Messages, read by the reader from catalogues or built by the user, taken  *)
(* in hand one after another; their views, and their equality, compared.     *)
(*   SIZE, EXPORT                                                            *)
EXTENDS Events, Json, IOUtils

Prop == IOEnv.PROP
Big == IOEnv.SIZE = "2"
Exporting == IOEnv.EXPORT = "1"

(***************************************************************************)
(* Where messages come from: an entry of a catalogue (its message, and its *)
(* previous message), or the user.                                         *)
(***************************************************************************)
Line(kw, s) == Encode(kw) \o <<SP, DQ>> \o Encode(Escape(s)) \o <<DQ, LF>>
KId == S("msgid")  KPl == S("msgid_plural")  KStr == S("msgstr")  KPId == S("#| msgid")  KPPl == S("#| msgid_plural")
KStrN(n) == S("msgstr[") \o Dec(n) \o <<93>>
Decls == <<S("nplurals=2; plural=n>1;"), S("nplurals=1; plural=0;"), S("nplurals=3; plural=2;")>>
HeadLines(f) == IF f = 0 THEN <<Line(KId, <<>>), Line(KStr, <<>>)>>
                ELSE <<Line(KId, <<>>), Line(KStr, S("Plural-Forms: ") \o Decls[f] \o <<LF>>)>>
Opt(kw, o) == IF o = <<>> THEN <<>> ELSE <<Line(kw, o[1])>>
EntryDoc(f, pid, ppl, id, pl, strs) ==
  [segs |-> HeadLines(f) \o Opt(KPId, pid) \o Opt(KPPl, ppl) \o <<Line(KId, id)>> \o Opt(KPl, pl)
            \o (IF pl = <<>> THEN <<Line(KStr, strs[1])>> ELSE [i \in 1..Len(strs) |-> Line(KStrN(i - 1), strs[i])]),
   fault |-> <<>>, probes |-> <<>>]
Read(d) == [segs |-> d.segs, built |-> <<>>, msgs |-> LET r == CallThrough(DoNext(CallThrough(DoParse(NewReader), DocToks(d))), DocToks(d)) IN
                                                    IF r.out.ev # "unit" THEN <<>> ELSE <<r.out.u.msg, r.out.u.pmsg>>]
Built(id, text) == [segs |-> <<>>, built |-> <<[id |-> id, text |-> text]>>, msgs |-> <<Simple(id, text)>>]

tA == S("a")  tB == S("b")  tAb == S("a b")  tX == S("x")  tUp == S("A")  tSp == S("a ")  tE == <<233>>  tD == <<101, 769>>
Ids == {tA, tB} \cup IF Big THEN {tAb, tUp, tSp, tE, tD, <<97, 10>>} ELSE {tUp, tSp}
Texts == {<<>>, tX, tA} \cup IF Big THEN {<<10>>, <<SP>>, tB, <<0>>} ELSE {<<SP>>}
Vals == {<<<<>>>>, <<tX>>, <<<<>>, tX>>, <<tX, <<>>>>, <<<<>>, <<>>>>, <<<<SP>>>>, <<<<>>, <<>>, <<>>, <<>>, tB>>}
Pool ==
  {Built(id, t) : id \in Ids \cup {<<>>}, t \in {<<>>} \cup {<<x>> : x \in Texts}}
  \cup {Read(EntryDoc(0, <<>>, <<>>, id, <<>>, <<t>>)) : id \in Ids, t \in Texts}
  \cup {Read(EntryDoc(f, <<>>, <<>>, id, <<pl>>, vs)) : f \in 0..1, id \in {<<>>, tA, tB}, pl \in {<<>>, tA, tB}, vs \in {<<<<>>>>, <<<<>>, tX>>}}
  \cup {Read(EntryDoc(f, <<>>, <<>>, id, <<pl>>, vs)) : f \in 0..Len(Decls), id \in {tA}, pl \in {tA, tB}, vs \in Vals}
  \cup {Read(EntryDoc(f, <<id>>, ppl, tB, <<>>, <<tX>>)) : f \in 0..1, id \in {<<>>, tA, tB}, ppl \in {<<>>, <<<<>>>>, <<tA>>, <<tB>>}}
ASSUME \A x \in Pool : x.msgs # <<>>

(***************************************************************************)
(* Pairs of things taken in hand; the messages they hold.                  *)
(***************************************************************************)
VARIABLES vHeld
Held == FlattenSeq([i \in 1..Len(vHeld) |-> vHeld[i].msgs])
Init == vHeld \in {<<x>> : x \in Pool}
Hold == Len(vHeld) < 2 /\ \E x \in Pool : vHeld' = Append(vHeld, x)
Next == Hold
Spec == Init /\ [][Next]_vHeld
Done == Len(vHeld) = 2

(* Views.                                                                    *)
Trs(m) == IF m.plural THEN Range1(m.vals) ELSE Range1(m.text)
Views ==
  \A m \in Range1(Held) :
    /\ IsSimple(m) => ~m.plural /\ Len(m.id) > 0
    /\ ~m.plural /\ Len(m.id) > 0 => IsSimple(m)
    /\ IsBlank(m) <=> \A t \in Trs(m) : t = <<>>
    /\ TextOf(m) \in Trs(m) \cup {<<>>}
    /\ (~m.plural /\ m.text # <<>>) => TextOf(m) = m.text[1]
    /\ (m.plural /\ m.vals # <<>>) => TextOf(m) = m.vals[1]
    /\ IsBlank(m) => TextOf(m) = <<>>
(* Equality: the key of a message is what equality looks at.                 *)
KeyOf(m) == IF m.plural THEN <<"plural", m.id, m.pid>> ELSE <<"simple", m.id, IF m.text = <<>> THEN <<>> ELSE m.text[1]>>
Equality ==
  \A i \in 1..Len(Held) : \A j \in 1..Len(Held) :
    /\ MsgEq(Held[i], Held[j]) <=> KeyOf(Held[i]) = KeyOf(Held[j])
    /\ i = j => MsgEq(Held[i], Held[j])
    /\ MsgEq(Held[i], Held[j]) => MsgEq(Held[j], Held[i])
    /\ \A k \in 1..Len(Held) : MsgEq(Held[i], Held[j]) /\ MsgEq(Held[j], Held[k]) => MsgEq(Held[i], Held[k])

Row(ms, i) ==
  LET m == ms[i] IN
  [ev |-> "message", pl |-> m.plural, id |-> m.id, pid |-> IF m.plural THEN <<m.pid>> ELSE <<>>,
   txt |-> IF m.plural THEN <<>> ELSE m.text, vals |-> IF m.plural THEN m.vals ELSE <<>>,
   simple |-> IsSimple(m), blank |-> IsBlank(m), text |-> TextOf(m), eq |-> <<>> \o [j \in 1..Len(ms) |-> MsgEq(m, ms[j])]]
(* Those read come first.                                                    *)
Sorted == SelectSeq(vHeld, LAMBDA x : x.built = <<>>) \o SelectSeq(vHeld, LAMBDA x : x.built # <<>>)
Replies == LET ms == FlattenSeq([i \in 1..2 |-> Sorted[i].msgs]) IN <<>> \o [i \in 1..Len(ms) |-> Row(ms, i)]
Export == Exporting /\ Done =>
  PrintT(ToJson([op |-> "eq", prev |-> TRUE,
                 docs |-> LET r == SelectSeq(vHeld, LAMBDA x : x.built = <<>>) IN <<>> \o [i \in 1..Len(r) |-> [segs |-> r[i].segs]],
                 simple |-> FlattenSeq([i \in 1..2 |-> vHeld[i].built]), exp |-> Replies]))
=============================================================================
