------------------------------- MODULE Reader -------------------------------
(* One catalogue reader: a deterministic machine fed with line tokens on     *)
(* demand and called by its user (parse once, then next any number of        *)
(* times).  A reader is a record; every step of the code is one operator     *)
(* CanX(r) / DoX(r), so that the same definitions serve one reader (MC),     *)
(* several (Multi), and the validation of recorded runs (Trace).             *)
(*                                                                           *)
(*   call : "idle" | "parse" | "next" - the call in progress                 *)
(*   dead : nothing can be called any more (parse failed)                    *)
(*   stage: "first" (header or first entry) | "more"                         *)
(*   la   : look-ahead of one token (<<>> or <<token>>)                      *)
(*   n    : physical lines pulled so far; over: the source is exhausted      *)
(*   ph   : what is being looked for in the entry being read                 *)
(*   ext  : a string has been opened and may be continued                    *)
(*   u, f : the unit being built; its fields read so far                     *)
(*   nxt  : the result read ahead: none | unit | error                       *)
(*   meta : what the header says (hf, its fields, is for the invariants)     *)
(*   out  : the last thing returned to the user; nout: how many returns      *)
EXTENDS Source, Header

(***************************************************************************)
(* Data.                                                                   *)
(***************************************************************************)
Simple(id, text) == [plural |-> FALSE, id |-> id, text |-> text]        \* text: <<>> or <<t>>
EmptyMessage == Simple(<<>>, <<>>)
Plural(id, pid, vals, forms) ==
  [plural |-> TRUE, id |-> id, pid |-> pid, vals |-> vals, forms |-> forms]

NewUnit == [ctxt |-> <<>>, msg |-> EmptyMessage, pctxt |-> <<>>, pmsg |-> EmptyMessage,
            flags |-> {}, notes |-> <<>>, locs |-> <<>>, comms |-> <<>>,
            state |-> "empty", obs |-> FALSE]

(* Views of a message.                                                       *)
IsEmptySource(m) == ~m.plural /\ m.id = <<>>
IsSimple(m) == ~m.plural /\ m.id # <<>>
IsBlank(m) == IF m.plural THEN \A i \in 1..Len(m.vals) : m.vals[i] = <<>>
              ELSE m.text = <<>> \/ m.text = <<<<>>>>
TextOf(m) == IF m.plural THEN (IF m.vals = <<>> THEN <<>> ELSE m.vals[1])
             ELSE IF m.text = <<>> THEN <<>> ELSE m.text[1]
(* The form designated for a count: <<>> or <<word>>.                        *)
FormOf(m, n) == IF ~m.plural \/ m.forms = <<>> THEN <<>>
                ELSE Designated(m.forms[1].e, n, m.forms[1].cnt)
(* The text for a count: <<>> or <<t>>.                                      *)
PluralText(m, n) ==
  IF ~m.plural THEN m.text
  ELSE LET d == FormOf(m, n) IN
       IF d # <<>> /\ Len(d[1]) = 1 /\ d[1][1] < Len(m.vals)
       THEN <<m.vals[d[1][1] + 1]>> ELSE <<>>
MsgEq(a, b) ==
  IF a.plural THEN b.plural /\ a.id = b.id /\ a.pid = b.pid
  ELSE ~b.plural /\ a.id = b.id /\ TextOf(a) = TextOf(b)

(* Errors.                                                                   *)
ErrIo(line, f) == [ev |-> "io", line |-> line, iokind |-> f.kind, iomsg |-> f.msg, orig |-> f.msg # <<>>]
ErrParse(line, got, exp) == [ev |-> "parse", line |-> line, got |-> got, exp |-> exp]
ErrUnexpected(line, msg) == [ev |-> "unexpected", line |-> line, msg |-> msg]
ErrPlural(why) == [ev |-> "plural", why |-> why]
(* The error of an erroneous token.  An unintelligible line is reported with *)
(* the number of the line after it (pinned by the existing tests).           *)
ErrOfTok(t) == IF t.k = "ioerr" THEN ErrIo(t.n, t.e) ELSE ErrParse(t.n + 1, t.s, <<>>)
IsErrTok(t) == t.k \in {"ioerr", "bad"}

End == [ev |-> "end"]
EmptySourceMsg == S("Source should not be empty")

KwStr0 == S("msgstr[0]")

NoFields == [pctxt |-> <<>>, pid |-> <<>>, ppl |-> <<>>, ctxt |-> <<>>, id |-> <<>>, pl |-> <<>>,
             str |-> <<>>, vals |-> <<>>]
NoMeta == [notes |-> <<>>, comms |-> <<>>, props |-> <<>>, lang |-> <<>>, hf |-> <<>>]

NewReader ==
  [call |-> "idle", dead |-> FALSE, opened |-> FALSE, stage |-> "first",
   la |-> <<>>, n |-> 0, over |-> FALSE,
   ph |-> "none", ext |-> <<>>, acc |-> <<>>, u |-> NewUnit, f |-> NoFields, line |-> 0,
   nxt |-> [ev |-> "none"], meta |-> NoMeta, forms |-> <<>>,
   out |-> [ev |-> "none"], nout |-> 0]

(***************************************************************************)
(* Calls and returns.                                                      *)
(***************************************************************************)
StartEntry(r) == [r EXCEPT !.ph = "comments", !.u = NewUnit, !.f = NoFields, !.ext = <<>>,
                           !.acc = <<>>, !.line = 0]
Return(r, e) == [r EXCEPT !.call = "idle", !.ph = "none", !.out = e, !.nout = @ + 1]

CanParse(r) == r.call = "idle" /\ ~r.opened /\ ~r.dead
DoParse(r) == StartEntry([r EXCEPT !.call = "parse", !.stage = "first"])

CanNext(r) == r.call = "idle" /\ r.opened
(* The result read ahead is handed out; if it is a unit, another one is read *)
(* first.                                                                    *)
DoNext(r) ==
  IF r.nxt.ev = "none" THEN Return(r, End)
  ELSE IF r.nxt.ev # "unit" THEN Return([r EXCEPT !.nxt = [ev |-> "none"]], r.nxt)
  ELSE StartEntry([r EXCEPT !.call = "next", !.stage = "more"])

UnitEv(u) == [ev |-> "unit", u |-> u]

(* The reading of an entry ends with res: none, a unit, or an error.         *)
Opened(r, res) == Return([r EXCEPT !.nxt = res, !.opened = TRUE], [ev |-> "opened"])
Ended(r, res) ==
  IF r.call = "next" THEN Return([r EXCEPT !.nxt = res], r.nxt)
  ELSE IF r.stage = "more" THEN Opened(r, res)
  ELSE IF res.ev = "none" THEN Opened(r, res)
  ELSE IF res.ev # "unit" THEN Return([r EXCEPT !.dead = TRUE], res)
  ELSE IF ~IsEmptySource(res.u.msg) THEN Opened(r, res)
  ELSE \* the header
    LET props == Properties(TextOf(res.u.msg))
        decl == Property(props, S("Plural-Forms"))
        p == ParsePlural(decl[1])
        r2 == [r EXCEPT !.meta = [notes |-> res.u.notes, comms |-> res.u.comms,
                                  props |-> props, lang |-> TargetLanguage(props),
                                  hf |-> <<[f |-> r.f, obs |-> res.u.obs]>>],
                        !.stage = "more"]
    IN IF decl = <<>> \/ decl = <<<<>>>> THEN StartEntry(r2)
       ELSE IF ~p.ok THEN Return([r2 EXCEPT !.dead = TRUE],
                                 IF p.why = "list"
                                 THEN ErrUnexpected(0, S("Bad value list definition: `") \o decl[1] \o S("`"))
                                 ELSE ErrPlural(p.why))
       ELSE StartEntry([r2 EXCEPT !.forms = <<p.forms>>])

Absent(r) == Ended(r, [ev |-> "none"])
Failed(r, e) == Ended(r, e)

(***************************************************************************)
(* Pulling a line: the environment supplies the token of the next physical *)
(* line.  Blank lines are skipped; nothing is pulled after the end or an   *)
(* error.                                                                  *)
(***************************************************************************)
Reading(r) == r.ph # "none"
CanPull(r) == Reading(r) /\ r.la = <<>>
DoPull(r, tok) ==
  IF r.over THEN [r EXCEPT !.la = <<EofTok(r.n + 1)>>]
  ELSE IF tok.k = "blank" THEN [r EXCEPT !.n = @ + 1]
  ELSE IF tok.k = "eof" THEN [r EXCEPT !.la = <<tok>>, !.over = TRUE]
  ELSE IF IsErrTok(tok)
       THEN [r EXCEPT !.la = <<tok>>, !.over = TRUE, !.n = @ + (IF tok.k = "bad" THEN 1 ELSE tok.begun)]
  ELSE [r EXCEPT !.la = <<tok>>, !.n = @ + 1]
Ready(r) == Reading(r) /\ r.la # <<>>
Tok(r) == r.la[1]
Take(r) == [r EXCEPT !.la = <<>>]

(* Any error met while reading an entry replaces the entry.                  *)
CanFail(r) == Ready(r) /\ IsErrTok(Tok(r))
DoFail(r) == Failed(Take(r), ErrOfTok(Tok(r)))
Live(r) == Ready(r) /\ ~IsErrTok(Tok(r))

(***************************************************************************)
(* Comments.                                                               *)
(***************************************************************************)
KFlag == 44  KRef == 58  KDev == 46
Fuzzy == S("fuzzy")
AddComment(u, t) ==
  IF t.kind = KFlag
  THEN LET fs == {Trim(x) : x \in Range1(Split(t.s, 44))} IN
       [u EXCEPT !.flags = @ \cup fs, !.state = IF Fuzzy \in fs THEN "needswork" ELSE @]
  ELSE IF t.kind = KRef THEN [u EXCEPT !.locs = @ \o Words(t.s)]
  ELSE IF t.kind = KDev THEN [u EXCEPT !.notes = Append(@, <<"dev", t.s>>)]
  ELSE IF t.kind = SP THEN [u EXCEPT !.notes = Append(@, <<"tra", t.s>>)]
  ELSE [u EXCEPT !.comms = Append(@, <<t.kind, t.s>>)]

CanComment(r) == Live(r) /\ r.ph = "comments" /\ Tok(r).k = "comment"
DoComment(r) == [Take(r) EXCEPT !.u = AddComment(@, Tok(r))]

(* The entry's first line that is not a comment: obsolete or live.           *)
ObsMark(mark) == mark \in {"~", "~|"}
PrevMark(mark) == mark \in {"|", "~|"}
CanBegin(r) == Live(r) /\ r.ph = "comments" /\ Tok(r).k # "comment"
DoBegin(r) ==
  IF Tok(r).k = "eof" THEN Absent(r)
  ELSE [r EXCEPT !.ph = "pctxt", !.line = Tok(r).n,
                 !.u.obs = (Tok(r).k = "msg" /\ ObsMark(Tok(r).mark))]

(***************************************************************************)
(* Fields, in their only order.                                            *)
(***************************************************************************)
PhTag(ph) == CASE ph \in {"pctxt", "ctxt"} -> "msgctxt" [] ph \in {"pid", "id"} -> "msgid"
               [] ph \in {"ppl", "pl"} -> "msgid_plural" [] ph = "str" -> "msgstr"
               [] ph = "vals" -> "msgstr[]"
FieldPhases == {"pctxt", "pid", "ppl", "ctxt", "id", "pl", "str", "vals"}

FormCount(r) == IF r.forms = <<>> THEN <<2>> ELSE r.forms[1].cnt

Fits(r, t) ==
  /\ t.k = "msg"
  /\ t.tag = PhTag(r.ph)
  /\ r.ph = "vals" => /\ t.idx = Len(r.f.vals)
                      /\ WULess(<<Len(r.f.vals)>>, FormCount(r))
  /\ PrevMark(t.mark) = (r.ph \in {"pctxt", "pid", "ppl"})
  /\ ObsMark(t.mark) = r.u.obs

FoundText(t) == CASE t.k = "msg" -> S(t.mark) [] t.k = "cont" -> <<DQ>>
                  [] t.k = "comment" -> <<HASH, t.kind>> [] OTHER -> <<>>
MarkText(t) == IF t.mark = "" THEN <<>> ELSE <<HASH>> \o S(t.mark)

(* The entry cannot go on here: at the end it is dropped, else it is an      *)
(* error.                                                                    *)
Expected(r, exp) ==
  IF Tok(r).k = "eof" THEN Absent(r)
  ELSE Failed(r, ErrParse(Tok(r).n, FoundText(Tok(r)), exp))

Complete(r, m) ==
  LET f == r.f
      pm == IF f.pid = <<>> THEN EmptyMessage
            ELSE IF f.ppl = <<>> THEN Simple(f.pid[1], <<>>)
            ELSE Plural(f.pid[1], f.ppl[1], <<>>, r.forms)
      u == [r.u EXCEPT !.ctxt = f.ctxt, !.pctxt = f.pctxt, !.pmsg = pm, !.msg = m,
                       !.state = IF @ = "empty" /\ ~IsBlank(m) THEN "final" ELSE @]
  IN IF r.stage = "more" /\ IsEmptySource(m)
     THEN Failed(r, ErrUnexpected(r.line, EmptySourceMsg))
     ELSE Ended(r, UnitEv(u))

SimpleOf(f) == Simple(f.id[1], IF f.str = <<<<>>>> THEN <<>> ELSE f.str)

(* A field is there: its string is opened.                                   *)
CanField(r) == Live(r) /\ r.ph \in FieldPhases /\ r.ext = <<>> /\ Fits(r, Tok(r))
DoField(r) == [Take(r) EXCEPT !.ext = <<Tok(r).mark>>, !.acc = Tok(r).s]

(* A continuation line: same marker, nothing in between.                     *)
CanExtend(r) == Live(r) /\ r.ext # <<>> /\ Tok(r).k = "cont" /\ Tok(r).mark = r.ext[1]
DoExtend(r) == [Take(r) EXCEPT !.acc = @ \o Tok(r).s]

(* The string ends: the field is complete.                                   *)
CanClose(r) == Live(r) /\ r.ext # <<>> /\ ~CanExtend(r)
DoClose(r) ==
  LET r2 == [r EXCEPT !.ext = <<>>, !.acc = <<>>]  s == r.acc IN
  CASE r.ph = "pctxt" -> [r2 EXCEPT !.f.pctxt = <<s>>, !.ph = "pid"]
    [] r.ph = "pid" -> [r2 EXCEPT !.f.pid = <<s>>, !.ph = "ppl"]
    [] r.ph = "ppl" -> [r2 EXCEPT !.f.ppl = <<s>>, !.ph = "ctxt"]
    [] r.ph = "ctxt" -> [r2 EXCEPT !.f.ctxt = <<s>>, !.ph = "id"]
    [] r.ph = "id" -> [r2 EXCEPT !.f.id = <<s>>, !.ph = "pl"]
    [] r.ph = "pl" -> IF r.f.id = <<>> THEN Complete([r2 EXCEPT !.f.pl = <<s>>], EmptyMessage)
                      ELSE [r2 EXCEPT !.f.pl = <<s>>, !.ph = "vals"]
    [] r.ph = "str" -> [r2 EXCEPT !.f.str = <<s>>, !.ph = "done"]
    [] r.ph = "vals" -> [r2 EXCEPT !.f.vals = Append(@, s)]

(* A field is not there.  The first entry may lack its source (it is then    *)
(* the header); any other must have one.                                     *)
CanSkip(r) == Live(r) /\ r.ph \in FieldPhases /\ r.ext = <<>> /\ ~Fits(r, Tok(r))
DoSkip(r) ==
  CASE r.ph = "pctxt" -> [r EXCEPT !.ph = "pid"]
    [] r.ph = "pid" -> [r EXCEPT !.ph = "ctxt"]
    [] r.ph = "ppl" -> [r EXCEPT !.ph = "ctxt"]
    [] r.ph = "ctxt" -> [r EXCEPT !.ph = "id"]
    [] r.ph = "id" -> IF r.stage = "more" THEN Expected(r, KwId) ELSE [r EXCEPT !.ph = "pl"]
    [] r.ph = "pl" -> IF r.f.id = <<>> THEN Complete(r, EmptyMessage) ELSE [r EXCEPT !.ph = "str"]
    [] r.ph = "str" -> Expected(r, KwStr)
    [] r.ph = "vals" -> IF r.f.vals = <<>> THEN Expected(r, KwStr0)
                        ELSE Complete(r, Plural(r.f.id[1], r.f.pl[1], r.f.vals, r.forms))

CanFinish(r) == Live(r) /\ r.ph = "done"
DoFinish(r) == Complete(r, SimpleOf(r.f))

(* One internal step (everything but calls and pulls): at most one is        *)
(* enabled.                                                                  *)
CanWork(r) == Ready(r)
DoWork(r) ==
  IF CanFail(r) THEN DoFail(r)
  ELSE IF r.ph = "comments" THEN (IF Tok(r).k = "comment" THEN DoComment(r) ELSE DoBegin(r))
  ELSE IF r.ph = "done" THEN DoFinish(r)
  ELSE IF r.ext # <<>> THEN (IF CanExtend(r) THEN DoExtend(r) ELSE DoClose(r))
  ELSE IF Fits(r, Tok(r)) THEN DoField(r) ELSE DoSkip(r)

(***************************************************************************)
(* Several steps at once: everything that needs no further line, then a    *)
(* whole call, for a stream given by its tokens (toks[n]: line n; after    *)
(* them, the end).                                                         *)
(***************************************************************************)
RECURSIVE Drain(_)
Drain(r) == IF CanWork(r) THEN Drain(DoWork(r)) ELSE r

TokOf(toks, n) == IF n <= Len(toks) THEN toks[n] ELSE EofTok(n)
CallThrough(r, toks) ==
  FoldLeft(LAMBDA a, i : IF CanPull(a) THEN Drain(DoPull(a, TokOf(toks, a.n + 1))) ELSE a,
           Drain(r), [i \in 1..(Len(toks) + 2 - r.n) |-> i])
=============================================================================
