-------------------------------- MODULE MCMulti -----------------------------
(* Several readers of one parser.  At any moment one of them makes a call    *)
(* (opening, next), or is dropped (its catalogue may then be opened again).  *)
(* The parser is no part of the state: it never changes.  Checked: what each *)
(* reader returns is a prefix of what it returns alone.  Every interleaving  *)
(* is replayed into one real parser.                                         *)
(*   SIZE, EXPORT                                                            *)
EXTENDS Events, Json, IOUtils

Prop == IOEnv.PROP
Big == IOEnv.SIZE = "2"
Exporting == IOEnv.EXPORT = "1"

L(lines) == [segs |-> <<>> \o [i \in 1..Len(lines) |-> Append(Encode(S(lines[i])), LF)], fault |-> <<>>]
Failing(x) == [x EXCEPT !.fault = <<[kind |-> "BrokenPipe", msg |-> S("gone")]>>]
(* Headers which say, or do not say, what the other one says.                *)
HeadLangs == <<"", "\"Language: \\n\"", "\"Language: fr\\n\"", "\"Language: de_DE\\n\"", "\"Language: ?\\n\"">>
HeadPlurals == <<"", "\"Plural-Forms: \\n\"", "\"Plural-Forms: nplurals=2; plural=n>1;\\n\"", "\"Plural-Forms: nplurals=3; plural=n>1;\\n\"", "\"Plural-Forms: plural=n;\\n\"",
                 "\"Plural-Forms: nplurals=2;\\n\"", "\"Plural-Forms: nplurals=3;plural=n>1;\\n\"", "\"Plural-Forms: x\\n\"">>
HeadDoc(i, j) == L(SelectSeq(<<"# h", "msgid \"\"", "msgstr \"\"", HeadLangs[i], HeadPlurals[j], "#, fuzzy", "msgid \"a\"", "msgid_plural \"b\"", "msgstr[0] \"x\"", "msgstr[1] \"y\"",
                               "#: f:1", "msgctxt \"c\"", "msgid \"a\"", "msgstr \"\"">>, LAMBDA x : x # ""))
Heads == [k \in 1..40 |-> HeadDoc(1 + (k - 1) \div 8, 1 + ((k - 1) % 8))]
Base ==
  <<L(<<"# t", "msgid \"\"", "msgstr \"\"", "\"Language: fr\\n\"", "\"Plural-Forms: nplurals=2; plural=n>1;\\n\"", "", "#, fuzzy", "msgctxt \"c\"", "msgid \"a\"", "msgid_plural \"b\"",
         "msgstr[0] \"x\"", "msgstr[1] \"y\"", "", "msgid \"z\"", "msgstr \"Z\"">>),
    L(<<"msgid \"\"", "msgstr \"\"", "\"Language: de\\n\"", "\"Plural-Forms: nplurals=3; plural=n;\\n\"", "", "msgid \"a\"", "msgid_plural \"b\"",
         "msgstr[0] \"x\"", "msgstr[1] \"\"", "msgstr[2] \"w\"", "#~ msgid \"z\"", "#~ msgstr \"Z\"">>),
    L(<<"msgid \"a\"", "msgid_plural \"b\"", "msgstr[0] \"x\"", "msgstr[1] \"y\"", "", "#| msgctxt \"p\"", "#| msgid \"q\"", "msgid \"z\"", "msgstr \"\"">>),
    L(<<"msgid \"a\"", "msgstr \"x\"", "oops", "msgid \"b\"", "msgstr \"y\"">>),
    L(<<"msgid \"\"", "msgstr \"Plural-Forms: nplurals=x; plural=n;\\n\"", "", "msgid \"a\"", "msgstr \"x\"">>),
    Failing(L(<<"msgid \"\"", "msgstr \"Language: it\\n\"", "", "msgid \"z\"", "msgstr \"\"", "", "#: f:1", "msgid \"a\"", "msgctxt \"z\"">>)),
    L(<<"msgid \"\"", "msgstr \"\"", "\"Plural-Forms: nplurals=2; plural=n>1;\\n\"", "\"X: 1\\n\"", "", "msgid \"a\"", "msgid_plural \"b\"", "msgstr[0] \"only\"", "", "# end">>),
    L(<<"msgid \"z\"", "msgstr \"Z\"", "", "msgid \"\"", "msgstr \"empty\"">>),
    L(<<>>)>>
NC == Len(Base)
Catalogues == Base \o Heads
Toks == [k \in 1..Len(Catalogues) |-> DocToks(Catalogues[k])]
Probes == <<<<0>>, <<1>>, <<2>>>>

(* Who reads what.  At most k calls each; drops; all in order.               *)
Setups == {[c |-> <<i, j>>, k |-> 4, drops |-> 0, turns |-> FALSE] : i \in 1..NC, j \in 1..NC}
          \cup {[c |-> <<i, j>>, k |-> 3, drops |-> 1, turns |-> FALSE] : i \in 1..NC, j \in 1..NC}
          \cup {[c |-> <<i, j, 3>>, k |-> (IF Big THEN 3 ELSE 2), drops |-> 0, turns |-> FALSE] : i \in 1..NC, j \in 1..NC}
          \cup {[c |-> <<i, j>>, k |-> 4, drops |-> 0, turns |-> TRUE] : i, j \in {3} \cup (NC + 1)..Len(Catalogues)}
          \cup {[c |-> <<i, j>>, k |-> 2, drops |-> 0, turns |-> FALSE] : i, j \in {x \in (NC + 1)..Len(Catalogues) : Big}}
          \cup {[c |-> x, k |-> 6, drops |-> 0, turns |-> TRUE] : x \in IF Big THEN [1..4 -> 1..NC] ELSE [1..3 -> 1..NC]}

VARIABLES vSet, vRs, vCalls, vDrops, vSched, vOut
vars == <<vSet, vRs, vCalls, vDrops, vSched, vOut>>
N == Len(vSet.c)
Init == /\ vSet \in Setups /\ vRs = [i \in 1..Len(vSet.c) |-> NewReader] /\ vCalls = [i \in 1..Len(vSet.c) |-> 0]
        /\ vDrops = 0 /\ vSched = <<>> /\ vOut = <<>>

Stopped(r) == r.nout > 0 /\ r.out.ev \notin {"unit", "opened"}
Over(i) == vRs[i].dead \/ vCalls[i] = vSet.k \/ (vSet.turns /\ Stopped(vRs[i]))
(* One after another: only the first that is not over.                       *)
Turn(i) == ~vSet.turns \/ \A j \in 1..(i - 1) : Over(j)
Call(i) ==
  /\ ~Over(i) /\ Turn(i)
  /\ LET r == CallThrough(IF CanParse(vRs[i]) THEN DoParse(vRs[i]) ELSE DoNext(vRs[i]), Toks[vSet.c[i]]) IN
     /\ vRs' = [vRs EXCEPT ![i] = r]
     /\ vOut' = Append(vOut, [who |-> i] @@ Project(Prop, Flat(r.out, r, Probes)))
  /\ vCalls' = [vCalls EXCEPT ![i] = @ + 1] /\ vSched' = Append(vSched, i) /\ UNCHANGED <<vSet, vDrops>>
Drop(i) ==
  /\ vDrops < vSet.drops /\ vRs[i].nout > 0
  /\ vDrops' = vDrops + 1 /\ vRs' = [vRs EXCEPT ![i] = NewReader]
  /\ vCalls' = [vCalls EXCEPT ![i] = 0] /\ vSched' = Append(vSched, 0 - i) /\ UNCHANGED <<vSet, vOut>>
Next == \E i \in 1..N : Call(i) \/ Drop(i)
Spec == Init /\ [][Next]_vars
Done == \A i \in 1..N : Over(i)

(* Alone.                                                                    *)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(r, toks, evs, k) ==
  IF k = 0 \/ r.dead THEN evs
  ELSE LET y == CallThrough(IF CanParse(r) THEN DoParse(r) ELSE DoNext(r), toks) IN
       RunFrom(y, toks, Append(evs, Project(Prop, Flat(y.out, y, Probes))), k - 1)
Alone == [k \in 1..Len(Catalogues) |-> RunFrom(NewReader, Toks[k], <<>>, 8)]
(* The returns of reader i since it was (re)opened are its last ones.        *)
Independent ==
  \A i \in 1..N :
    LET mine == SelectSeq(vOut, LAMBDA e : e.who = i)
        n == vCalls[i]
        last == SubSeq(mine, Len(mine) - n + 1, Len(mine)) IN
    \A k \in 1..n : last[k] = [who |-> i] @@ Alone[vSet.c[i]][k]

Export == Exporting /\ Done =>
  PrintT(ToJson([op |-> "multi", docs |-> [i \in 1..N |-> [segs |-> Catalogues[vSet.c[i]].segs, fault |-> Catalogues[vSet.c[i]].fault, probes |-> Probes]],
                 schedule |-> vSched, exp |-> vOut]))
=============================================================================
