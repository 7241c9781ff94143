-------------------------------- MODULE Props -------------------------------
(* The listed properties as predicates on a history: toks, the tokens of the *)
(* lines pulled so far (blank lines left out, each with its line number n);  *)
(* hist, what has been returned, each [e: the return, n: lines pulled then]; *)
(* meta, the header.  They are stated over whole lines and whole histories,  *)
(* independently of the reader's steps.                                      *)
EXTENDS Events

(***************************************************************************)
(* Items: the strings of the file, each with the continuation lines that   *)
(* directly follow it; comments and stray continuation lines stand alone.  *)
(***************************************************************************)
Item0(t) == [k |-> t.k, tag |-> IF t.k = "msg" THEN t.tag ELSE t.k,
             idx |-> IF t.k = "msg" THEN t.idx ELSE 0,
             mark |-> IF t.k \in {"msg", "cont"} THEN t.mark ELSE "",
             s |-> IF t.k = "bad" \/ t.k = "ioerr" THEN <<>> ELSE t.s,
             first |-> t.n, last |-> t.n]
Merge(toks) ==
  LET add(acc, t) ==
        LET m == Len(acc) IN
        IF m > 0 /\ t.k = "cont" /\ acc[m].k = "msg" /\ acc[m].mark = t.mark
        THEN [acc EXCEPT ![m].s = @ \o t.s, ![m].last = t.n]
        ELSE Append(acc, Item0(t))
  IN FoldLeft(add, <<>>, toks)
Strings(toks) == SelectSeq(Merge(toks), LAMBDA x : x.k # "comment")

(* The strings an entry consists of.                                         *)
SerField(tag, idx, mark, o) == IF o = <<>> THEN <<>> ELSE <<<<tag, idx, mark, o[1]>>>>
SerFields(f, obs) ==
  LET m == IF obs THEN "~" ELSE ""  p == IF obs THEN "~|" ELSE "|" IN
  SerField("msgctxt", 0, p, f.pctxt) \o SerField("msgid", 0, p, f.pid)
  \o SerField("msgid_plural", 0, p, f.ppl)
  \o SerField("msgctxt", 0, m, f.ctxt) \o SerField("msgid", 0, m, f.id)
  \o SerField("msgid_plural", 0, m, f.pl) \o SerField("msgstr", 0, m, f.str)
  \o FlattenSeq([i \in 1..Len(f.vals) |-> SerField("msgstr[]", i - 1, m, <<f.vals[i]>>)])
FieldsOfUnit(u) ==
  [pctxt |-> u.pctxt,
   pid |-> IF u.pmsg.plural \/ u.pmsg.id # <<>> THEN <<u.pmsg.id>> ELSE <<>>,
   ppl |-> IF u.pmsg.plural THEN <<u.pmsg.pid>> ELSE <<>>,
   ctxt |-> u.ctxt, id |-> <<u.msg.id>>,
   pl |-> IF u.msg.plural THEN <<u.msg.pid>> ELSE <<>>,
   str |-> IF u.msg.plural THEN <<>> ELSE IF u.msg.text = <<>> THEN <<<<>>>> ELSE u.msg.text,
   vals |-> IF u.msg.plural THEN u.msg.vals ELSE <<>>]
SerUnit(u) == SerFields(FieldsOfUnit(u), u.obs)
SerHeader(meta) == IF meta.hf = <<>> THEN <<>> ELSE SerFields(meta.hf[1].f, meta.hf[1].obs)

Units(hist) == SelectSeq(hist, LAMBDA h : h.e.ev = "unit")
Stops(hist) == SelectSeq(hist, LAMBDA h : h.e.ev \notin {"unit", "opened"})

(* spans[i]: [a, b]: unit i is made of the strings a..b.  An empty previous  *)
(* source is the one thing a unit does not show, so it is looked up.         *)
Spans(strs, meta, hist) ==
  LET us == Units(hist)
      key(x) == <<x.tag, x.idx, x.mark, x.s>>
      pmk(u) == IF u.obs THEN "~|" ELSE "|"
      len(u, a) == Len(SerUnit(u)) +
                   (IF FieldsOfUnit(u).pid = <<>> /\ \E j \in a..(a + 1) : j <= Len(strs) /\ key(strs[j]) = <<"msgid", 0, pmk(u), <<>>>>
                    THEN 1 ELSE 0)
      add(acc, h) == LET a == IF acc = <<>> THEN Len(SerHeader(meta)) + 1 ELSE acc[Len(acc)].b + 1
                     IN Append(acc, [a |-> a, b |-> a + len(h.e.u, a) - 1])
  IN FoldLeft(add, <<>>, us)

NoEmptyPrev(x) == ~(x.tag = "msgid" /\ x.mark \in {"|", "~|"} /\ x.s = <<>>)
Keys4(strs) == [i \in 1..Len(strs) |-> <<strs[i].tag, strs[i].idx, strs[i].mark, strs[i].s>>]

(* C01, C02, C03, C07, C16: the header and the units delivered, written out, *)
(* are exactly the first strings of the file: nothing is lost, repeated,     *)
(* moved to another field or entry, invented or absorbed.                    *)
Delivered(meta, hist) ==
  FoldLeft(LAMBDA acc, h : acc \o SerUnit(h.e.u), SerHeader(meta), Units(hist))
Faithful(toks, meta, hist) ==
  IsPrefix(SelectSeq(Delivered(meta, hist), LAMBDA x : ~(x[1] = "msgid" /\ x[3] \in {"|", "~|"} /\ x[4] = <<>>)),
           Keys4(SelectSeq(Strings(toks), NoEmptyPrev)))

(* What is left of the strings once everything delivered is taken away.      *)
LeftOver(toks, meta, hist) ==
  LET strs == Strings(toks)  sp == Spans(strs, meta, hist)
      b == IF sp = <<>> THEN Len(SerHeader(meta)) ELSE sp[Len(sp)].b
  IN SubSeq(strs, b + 1, Len(strs))
HasTranslation(items) == \E i \in 1..Len(items) : items[i].tag \in {"msgstr", "msgstr[]"}

(* C01, C16, C20: at the end nothing is left but an entry cut short before   *)
(* its first translation.                                                    *)
NothingLeft(toks, meta, hist) ==
  LET st == Stops(hist) IN
  st # <<>> /\ st[1].e.ev = "end" => ~HasTranslation(LeftOver(toks, meta, hist))

(* C16: a misplaced line is the one at the reported line, and no complete    *)
(* entry, no other error stands between the last delivered unit and it.      *)
Located(toks, meta, hist) ==
  LET st == Stops(hist) IN
  st # <<>> /\ st[1].e.ev = "parse" =>
    LET e == st[1].e IN
    IF e.exp = <<>>
    THEN \E i \in 1..Len(toks) : toks[i].k = "bad" /\ toks[i].n + 1 = e.line /\ i = Len(toks) /\ toks[i].s = e.got
    ELSE /\ \E i \in 1..Len(toks) :
              toks[i].n = e.line /\ i = Len(toks) /\ toks[i].k \in {"msg", "cont", "comment"} /\ e.got = FoundText(toks[i])
         /\ LET rest == SelectSeq(LeftOver(toks, meta, hist), LAMBDA x : x.first < e.line) IN
            ~HasTranslation(rest)

(* C15: one opening, then units, then one stop; after it only ends.          *)
Final(hist) ==
  \A i \in 1..Len(hist) :
    /\ (hist[i].e.ev = "opened") => i = 1
    /\ i > 1 => hist[1].e.ev = "opened"
    /\ \A j \in 1..(i - 1) : hist[j].e.ev \notin {"unit", "opened"} => hist[i].e.ev = "end"

(* C19: when unit i is handed out, no line beyond the one that ends the      *)
(* entry after it has been pulled; at the opening, the one that ends the     *)
(* first.  The line that ends an entry is the first non-blank one after it   *)
(* (comments belong to the next entry).                                      *)
EndsAt(toks, strs, sp, i) ==
  LET after == SelectInSeq(toks, LAMBDA t : t.n > strs[sp[i].b].last) IN
  IF after = 0 THEN 999999 ELSE toks[after].n
LookAhead(toks, meta, hist) ==
  LET strs == Strings(toks)  sp == Spans(strs, meta, hist)  us == Units(hist) IN
  /\ \A i \in 1..(Len(us) - 1) : us[i].n <= EndsAt(toks, strs, sp, i + 1)
  /\ sp # <<>> => hist[1].n <= EndsAt(toks, strs, sp, 1)

(* C04: the comments of a unit are those between the entry before and it.    *)
Attached(toks, meta, hist) ==
  LET strs == Strings(toks)  sp == Spans(strs, meta, hist)  us == Units(hist) IN
  \A i \in 1..Len(us) :
    LET from == IF sp[i].a = 1 THEN 0 ELSE strs[sp[i].a - 1].last
        to == strs[sp[i].a].first
        cs == SelectSeq(toks, LAMBDA t : t.k = "comment" /\ t.n > from /\ t.n < to)
        of(k) == SelectSeq(cs, LAMBDA t : t.kind = k)
        texts(k) == [j \in 1..Len(of(k)) |-> of(k)[j].s]
        notes == SelectSeq(cs, LAMBDA t : t.kind \in {KDev, SP})
        others == SelectSeq(cs, LAMBDA t : t.kind \notin {KDev, SP, KFlag, KRef})
        u == us[i].e.u
    IN /\ u.flags = UNION {{Trim(x) : x \in Range1(Split(f, 44))} : f \in Range1(texts(KFlag))}
       /\ u.locs = FlattenSeq([j \in 1..Len(of(KRef)) |-> Words(of(KRef)[j].s)])
       /\ u.notes = [j \in 1..Len(notes) |-> <<IF notes[j].kind = KDev THEN "dev" ELSE "tra", notes[j].s>>]
       /\ u.comms = [j \in 1..Len(others) |-> <<others[j].kind, others[j].s>>]

(* C06                                                                       *)
StateRule(hist) ==
  \A h \in Range1(Units(hist)) :
    LET u == h.e.u
        ts == IF u.msg.plural THEN Range1(u.msg.vals) ELSE Range1(u.msg.text)
    IN u.state = IF Fuzzy \in u.flags THEN "needswork"
                 ELSE IF ts \subseteq {<<>>} THEN "empty" ELSE "final"

(* C07: all the strings of a unit carry its marker.                          *)
OneMarker(toks, meta, hist) ==
  LET strs == Strings(toks)  sp == Spans(strs, meta, hist)  us == Units(hist) IN
  \A i \in 1..Len(us) : \A j \in sp[i].a..sp[i].b :
    strs[j].mark \in IF us[i].e.u.obs THEN {"~", "~|"} ELSE {"", "|"}

(* C17: a simple unit after the first has a source, and the error says where *)
(* the entry starts.                                                         *)
Sourced(toks, meta, hist) ==
  /\ \A h \in Range1(Units(hist)) : ~IsEmptySource(h.e.u.msg)
  /\ \A h \in Range1(Stops(hist)) : h.e.ev = "unexpected" /\ h.e.line > 0 =>
       LET rest == LeftOver(toks, meta, hist) IN
       /\ rest # <<>> /\ rest[1].first = h.e.line
       /\ \E i \in 1..Len(rest) : /\ rest[i].tag = "msgid" /\ rest[i].mark \in {"", "~"} /\ rest[i].s = <<>>
                                  /\ i + 1 <= Len(rest) /\ rest[i + 1].tag = "msgstr"
                                  /\ \A j \in 1..(i - 1) : rest[j].tag = "msgctxt" \/ rest[j].mark \in {"|", "~|"}

(* C14: the failure is reported exactly when it is met before another error, *)
(* once, as it is, at the line it happened in.                               *)
FaultReported(toks, hist) ==
  LET st == Stops(hist)
      ios == SelectSeq(hist, LAMBDA h : h.e.ev = "io")
      met == toks # <<>> /\ toks[Len(toks)].k = "ioerr"
  IN /\ Len(ios) <= 1
     /\ ios # <<>> => met /\ st[1] = ios[1]
                      /\ ios[1].e = ErrIo(toks[Len(toks)].n, toks[Len(toks)].e)
     /\ met /\ st # <<>> => ios # <<>> \/ st[1].e.ev \in {"parse", "unexpected", "plural"}

(* C08                                                                       *)
HeaderRule(toks, meta, hist) ==
  hist # <<>> /\ hist[1].e.ev = "opened" =>
    LET strs == Strings(toks)
        ids == SelectInSeq(strs, LAMBDA x : x.tag = "msgid" /\ x.mark \in {"", "~"})
        plain == ids # 0 /\ ~(ids + 1 <= Len(strs) /\ strs[ids + 1].tag = "msgid_plural")
    IN (meta.hf = <<>> => meta.props = <<>> /\ meta.notes = <<>> /\ meta.comms = <<>> /\ meta.lang = <<>>)
       /\ (meta.hf # <<>> /\ meta.hf[1].f.id # <<>> => meta.hf[1].f.id = <<<<>>>> /\ plain /\ strs[ids].s = <<>>)

AllRules(toks, meta, hist) ==
  /\ Faithful(toks, meta, hist) /\ NothingLeft(toks, meta, hist) /\ Located(toks, meta, hist)
  /\ Final(hist) /\ LookAhead(toks, meta, hist) /\ Attached(toks, meta, hist)
  /\ StateRule(hist) /\ OneMarker(toks, meta, hist) /\ Sourced(toks, meta, hist)
  /\ FaultReported(toks, hist) /\ HeaderRule(toks, meta, hist)
=============================================================================
