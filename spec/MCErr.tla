-------------------------------- MODULE MCErr -------------------------------
(* Errors of every kind, with and without their optional parts, shown,       *)
(* converted to a standard I/O error (Convert), possibly read back as the    *)
(* failure of another catalogue (Wrap), and shown again.                     *)
(*   SIZE, EXPORT                                                            *)
EXTENDS Events, Json, IOUtils

Big == IOEnv.SIZE = "2"
Exporting == IOEnv.EXPORT = "1"

LineNos == {S("0"), S("1"), S("9"), S("10"), S("255"), S("256"), S("65535"), S("65536"), S("4294967296"), S("18446744073709551615")}
Plain == <<<<>>, S("x"), S(" "), S("msgstr"), S("Unexpected error at line 3: "), S("{} {0} {line}"), S("%s\\n"), <<8216, 97, 8217>>, <<97, 10, 98>>,
           <<233>>, <<128512>>, <<0>>, S("a,b"), [i \in 1..300 |-> 97 + (i % 26)], S(" at line 7"), S("expected, got")>>
Texts == IF Big THEN {Plain[i] : i \in 1..Len(Plain)} ELSE {Plain[i] : i \in {1, 2, 3, 5, 6, 8, 9, 10, 11, 14, 15}}
Few == {<<>>, S("x"), Plain[5], Plain[8]}
IoKinds == {"NotFound", "PermissionDenied", "ConnectionReset", "WouldBlock", "InvalidData", "TimedOut", "UnexpectedEof", "Interrupted", "OutOfMemory", "Other"}

Made ==
  {[kind |-> "io", line |-> l, msg |-> m, iokind |-> k, got |-> <<>>, want |-> <<>>] : l \in LineNos, m \in Texts, k \in IoKinds}
  \cup {[kind |-> "parse", line |-> l, got |-> g, want |-> x, msg |-> <<>>, iokind |-> "Other"] : l \in LineNos \ {S("0")}, g \in Texts, x \in Texts}
  \cup {[kind |-> "unexpected", line |-> l, msg |-> m, got |-> <<>>, want |-> <<>>, iokind |-> "Other"] : l \in LineNos, m \in Texts}
  \cup {[kind |-> "plural", line |-> S("0"), msg |-> m, got |-> <<>>, want |-> <<>>, iokind |-> "Other"] : m \in Texts}

TextOfError(e) == CASE e.kind = "io" -> TextIo(e.line, e.msg)
                    [] e.kind = "parse" -> TextParse(e.line, e.got, e.want)
                    [] e.kind = "unexpected" -> TextUnexpected(e.line, e.msg)
                    [] e.kind = "plural" -> TextPlural(e.msg)
DebugIo(k, inner) == S("Custom { kind: ") \o S(k) \o S(", error: ") \o inner \o S(" }")
DebugOfError(e) == IF e.kind = "io" THEN TextIo(e.line, DebugIo(e.iokind, S("Fault<") \o e.msg \o S(">"))) ELSE TextOfError(e)

(* What is in hand: an error of the crate, or a standard I/O error.          *)
(*   text, dbg: how it shows; cause: the texts of the chain of sources;      *)
(*   orig: whether the original cause is still found in that chain           *)
VARIABLES vE, vWrap, vStage, vShown
vars == <<vE, vWrap, vStage, vShown>>

Wraps == {<<>>, <<S("0")>>, <<S("12")>>}
Init == /\ vE \in Made /\ vStage = "made" /\ vShown = <<>>
        /\ vWrap \in IF vE.msg \in Few /\ vE.got \in Few /\ vE.want \in Few /\ vE.line \in {S("0"), S("1"), S("65536")} THEN Wraps ELSE {<<>>}
Current == vShown[Len(vShown)]
Display1 ==
  /\ vStage = "made" /\ vStage' = "error"
  /\ vShown' = <<[text |-> TextOfError(vE), dbg |-> DebugOfError(vE), std |-> FALSE,
                  cause |-> IF vE.kind = "io" THEN <<vE.msg>> ELSE <<>>, orig |-> vE.kind = "io"]>>
  /\ UNCHANGED <<vE, vWrap>>
Convert ==
  /\ vStage \in {"error", "wrapped"} /\ vStage' = IF vStage = "error" THEN "std" ELSE "std2"
  /\ vShown' = Append(vShown, [Current EXCEPT !.std = TRUE, !.dbg = DebugIo("Other", Current.dbg)])
  /\ UNCHANGED <<vE, vWrap>>
Wrap ==
  /\ vStage = "std" /\ vWrap # <<>> /\ vStage' = "wrapped"
  /\ vShown' = Append(vShown, [text |-> TextIo(vWrap[1], Current.text), dbg |-> TextIo(vWrap[1], Current.dbg), std |-> FALSE,
                               cause |-> <<Current.text>> \o Current.cause, orig |-> Current.orig])
  /\ UNCHANGED <<vE, vWrap>>
Next == Display1 \/ Convert \/ Wrap
Spec == Init /\ [][Next]_vars
Done == vStage = IF vWrap = <<>> THEN "std" ELSE "std2"

(***************************************************************************)
(* The property, said otherwise: every fact is in the text, exactly the     *)
(* parts present, and converting changes neither text nor cause.            *)
(***************************************************************************)
HasText(t, x) == x = <<>> \/ \E i \in 1..(Len(t) - Len(x) + 1) : SubSeq(t, i, i + Len(x) - 1) = x

LineWord == S("line ")
Facts ==
  vStage = "error" =>
    LET t == Current.text IN
    /\ vE.line # S("0") => HasText(t, LineWord \o vE.line)
    /\ HasText(t, vE.msg) /\ HasText(t, vE.got) /\ HasText(t, vE.want)
    /\ vE.kind = "parse" =>      \* the parts shown are those present, each between quotes
         Cardinality({i \in 1..Len(t) : t[i] = 8216})
         = (IF vE.want = <<>> THEN 0 ELSE 1) + (IF vE.got = <<>> THEN 0 ELSE 1)
           + Cardinality({i \in 1..Len(vE.got) : vE.got[i] = 8216}) + Cardinality({i \in 1..Len(vE.want) : vE.want[i] = 8216})
    /\ vE.kind # "parse" =>      \* nothing about a line when there is none
         (vE.line = S("0") => Cardinality({i \in 1..Len(t) : IsDigit(t[i])}) = Cardinality({i \in 1..Len(vE.msg) : IsDigit(vE.msg[i])}))
Survives ==
  \A i \in 1..(Len(vShown) - 1) :
    /\ vShown[i + 1].std => vShown[i + 1].text = vShown[i].text /\ vShown[i + 1].cause = vShown[i].cause
    /\ vShown[i + 1].orig = vShown[i].orig
    /\ HasText(vShown[i + 1].text, vShown[i].text)
    /\ vE.kind = "io" => vShown[i + 1].cause[Len(vShown[i + 1].cause)] = vE.msg

(* Two errors that differ in a fact differ in their text, when the texts     *)
(* cannot be confused with the frame around them.                            *)
Distinct ==
  LET ps == {e \in Made : e.kind = "parse" /\ e.got \in {<<>>, S("x"), S("msgstr")} /\ e.want \in {<<>>, S("x"), S("msgstr")}} IN
  \A a \in ps : \A b \in ps : TextOfError(a) = TextOfError(b) => a = b
ASSUME Distinct

View(i) ==
  LET x == vShown[i]  y == vShown[i + 1] IN
  [disp |-> x.text, dbg |-> x.dbg, conv |-> y.text,
   src |-> IF x.cause = <<>> THEN <<>> ELSE <<x.cause[1]>>, csrc |-> IF y.cause = <<>> THEN <<>> ELSE <<y.cause[1]>>,
   srcorig |-> x.orig, csrcorig |-> y.orig]
Replies ==
  <<[ev |-> vE.kind, line |-> vE.line] @@ View(1)>>
  \o IF vWrap = <<>> THEN <<>> ELSE <<[ev |-> "io", line |-> vWrap[1]] @@ View(3)>>
Export == Exporting /\ Done =>
  PrintT(ToJson([op |-> "err", kind |-> vE.kind, line |-> vE.line, msg |-> vE.msg, got |-> vE.got, exp_token |-> vE.want, iokind |-> vE.iokind,
                 wrap |-> vWrap, exp |-> Replies]))
=============================================================================
