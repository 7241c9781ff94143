-------------------------------- MODULE MCUse -------------------------------
(* Every way of using a catalogue, ACTS acts long.                           *)
(*   PROP = C25: units are values.  PROP = C26: any way of iterating gives   *)
(*   what repeated next gives.      ACTS, EXPORT                             *)
EXTENDS Use, Json, IOUtils

Prop == IOEnv.PROP
Acts == CHOOSE n \in 1..20 : ToString(n) = IOEnv.ACTS
Exporting == IOEnv.EXPORT = "1"

L(lines) == [segs |-> <<>> \o [i \in 1..Len(lines) |-> Append(Encode(S(lines[i])), LF)], fault |-> <<>>]
Failing(x) == [x EXCEPT !.fault = <<[kind |-> "BrokenPipe", msg |-> S("gone")]>>]
H(f) == <<"# t", "msgid \"\"", "msgstr \"\"", "\"Language: fr\\n\"", "\"Plural-Forms: nplurals=" \o f \o ";\\n\"", "">>
P1 == <<"#, fuzzy", "#: f:1", "msgctxt \"c\"", "msgid \"a\"", "msgid_plural \"b\"", "msgstr[0] \"x\"", "msgstr[1] \"y\"", "">>
P2 == <<"# n", "#! o", "msgid \"e\"", "msgid_plural \"f\"", "msgstr[0] \"\"", "msgstr[1] \"w\"", "">>
S1 == <<"#| msgctxt \"pc\"", "#| msgid \"pi\"", "msgid \"z\"", "msgstr \"Z\"", "">>
S2 == <<"#, no-wrap", "#: f:2 f:3", "#~ msgid \"o\"", "#~ msgstr \"O\"", "">>
Catalogues ==
  <<L(H("2; plural=n>1") \o P1 \o S1 \o P2),
    L(H("3; plural=n") \o P2 \o P1 \o S2),
    L(S1 \o P1 \o S2),
    L(P1 \o S1 \o <<"oops">> \o S2),
    Failing(L(H("1; plural=0") \o P1 \o P2 \o <<"msgid \"q\"">>)),
    L(S1 \o <<"msgid \"\"", "msgstr \"\"", "">> \o S2),
    L(H("2; plural=n>1")),
    L(S1 \o <<"oops">>), L(<<>>)>>
NC == Len(Catalogues)
Toks == [k \in 1..NC |-> DocToks(Catalogues[k])]
Probes == <<<<0>>, <<1>>, <<2>>, <<3>>, <<1000>>, <<1, 0, 0, 0, 1, 0, 0, 0>>>>

A(a, k) == [a |-> a, k |-> k]
Menu(s) ==
  IF Prop = "C25"
  THEN {A("next", 0), A("take", 2), A("rest", 0), A("drop", 0)} \cup {A(a, k) : a \in {"ask", "clone", "release"}, k \in 1..3}
  ELSE {A(a, 0) : a \in {"next", "dyn", "hint", "rest", "fold", "count", "last"}} \cup {A(a, k) : a \in {"nth", "take"}, k \in 0..3}

VARIABLES vC, vS, vActs, vOut, vPos
vars == <<vC, vS, vActs, vOut, vPos>>
Do(x) ==
  LET y == DoAct(vS, x, Toks[vC], Probes) IN
  /\ vS' = y.s /\ vActs' = Append(vActs, x)
  /\ vOut' = Append(vOut, [i \in 1..Len(y.evs) |-> Project(Prop, y.evs[i])])

(* Alone: everything repeated next gives, up to the end.                     *)
Alone == [k \in 1..NC |-> LET s0 == DoAct(NewUse, A("open", 0), Toks[k], Probes).s
                              a == IF s0.r.dead THEN [items |-> <<>>] ELSE TakeAll(s0.r, Toks[k], -1, <<>>) IN
                          [i \in 1..Len(a.items) |-> [e |-> Project(Prop, Flat(a.items[i].e, s0.r, Probes)), u |-> IF a.items[i].e.ev = "unit" THEN <<a.items[i].e.u>> ELSE <<>>]]]
(* Where an act takes the position, given as many items as there are.        *)
Passed(x, pos) ==
  LET left == Len(Alone[vC]) - pos
      n == CASE x.a \in {"next", "dyn"} -> 1 [] x.a = "nth" -> x.k + 1 [] x.a = "take" -> x.k
             [] x.a \in {"rest", "fold", "count", "last"} -> left [] OTHER -> 0 IN
  IF n > left THEN left ELSE n

Init == /\ vC \in 1..NC /\ vPos = 0
        /\ LET y == DoAct(NewUse, A("open", 0), Toks[vC], Probes) IN
           vS = y.s /\ vActs = <<A("open", 0)>> /\ vOut = <<[i \in 1..1 |-> Project(Prop, y.evs[i])]>>
Act == Len(vActs) <= Acts /\ \E x \in Menu(vS) :
         CanAct(vS, x) /\ Do(x) /\ vPos' = vPos + Passed(x, vPos) /\ UNCHANGED vC
Next == Act
Spec == Init /\ [][Next]_vars
Idle == ~ \E x \in Menu(vS) : CanAct(vS, x)
Done == Len(vActs) = Acts + 1 \/ Idle

(* The returns of the last act are the items at the position it started at.  *)

LastItems ==
  LET x == Last(vActs)  pos == vPos  all == Alone[vC]  out == Last(vOut)
      end == Project(Prop, Flat([ev |-> "end"], vS.r, Probes)) IN
  vS.r.dead \/
  CASE x.a \in {"next", "dyn", "nth"} -> out \in {<<all[pos].e>> : p \in IF pos = 0 THEN {} ELSE {pos}} \cup (IF pos = Len(all) THEN {<<end>>} ELSE {})
    [] x.a \in {"take", "rest", "fold"} -> \E from \in 0..pos : out = [i \in 1..(pos - from) |-> all[from + i].e]
    [] x.a = "last" -> pos = Len(all) /\ out = <<IF out[1].ev = "end" THEN end ELSE all[pos].e>>
    [] x.a = "count" -> pos = Len(all)
    [] OTHER -> TRUE
(* The next item is always the one at the position.                          *)
InPlace == vS.gone \/ vS.r.dead \/ Remaining(vS.r, Toks[vC]) = Len(Alone[vC]) - vPos
(* Units kept are units of the catalogue, in whatever state the reader is.   *)
Values == \A i \in 1..Len(vS.held) : \E k \in 1..vPos : Alone[vC][k].u = <<vS.held[i]>>
Asked == Last(vActs).a = "ask" => \E k \in 1..vPos : Last(vOut) = <<Alone[vC][k].e>>

(* At the end every unit kept is asked, the reader being gone.               *)
Finish(s, acts, out) ==
  LET drop == IF s.gone \/ s.r.dead THEN <<>> ELSE IF Prop = "C25" THEN <<A("drop", 0)>> ELSE <<A("rest", 0)>>
      asks == IF Prop = "C25" THEN [i \in 1..Len(s.held) |-> A("ask", i)] ELSE <<>>
      more == drop \o asks
      go(p, x) == LET y == DoAct(p.s, x, Toks[vC], Probes) IN [s |-> y.s, out |-> Append(p.out, [i \in 1..Len(y.evs) |-> Project(Prop, y.evs[i])])]
  IN [acts |-> acts \o more, out |-> FoldLeft(go, [s |-> s, out |-> out], more).out]
Export == Exporting /\ Done =>
  LET f == Finish(vS, vActs, vOut) IN
  PrintT(ToJson([op |-> "use", segs |-> Catalogues[vC].segs, fault |-> Catalogues[vC].fault, probes |-> Probes,
                 acts |-> f.acts, exp |-> FlattenSeq(f.out)]))
=============================================================================
