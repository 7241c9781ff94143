------------------------------ MODULE Catalogue -----------------------------
(* Catalogues as their authors mean them, how they are written as lines, and *)
(* what reading them must give.  Nothing here uses the reader's steps.       *)
(*                                                                           *)
(* entry : [cs, obs, pctxt, pid, ppl, ctxt, id, pl, strs]                    *)
(*         optional strings are <<>> or <<text>>; strs: the translations     *)
(*         (exactly one without a plural source)                             *)
(* cs    : its comments: [c |-> "flag" | "ref", ws |-> names]                *)
(*         [c |-> "dev" | "tra", s], [c |-> "other", kind, s]                *)
(* catalogue: [header |-> <<>> or <<[cs, lines]>>, entries]                  *)
(*         lines: of the header's text: [k, v, p]: "k: v" with padding p, or *)
(*         [raw] for a line without a colon                                  *)
EXTENDS Events

Entry(id, strs) == [cs |-> <<>>, obs |-> FALSE, pctxt |-> <<>>, pid |-> <<>>, ppl |-> <<>>,
                    ctxt |-> <<>>, id |-> id, pl |-> <<>>, strs |-> strs]

(***************************************************************************)
(* Writing.  A layout says how:                                            *)
(*   cuts  : the strings are cut after these numbers of characters (0: an  *)
(*           empty first piece)                                            *)
(*   indent, trail : white space around every line                         *)
(*   gap   : lines between entries      tail: lines after the last one     *)
(*   tight : no blank between the marker and the keyword                   *)
(***************************************************************************)
Plain == [cuts |-> {}, indent |-> <<>>, trail |-> <<>>, gap |-> <<<<>>>>, tail |-> <<>>, tight |-> FALSE]

Pieces(s, cuts) ==
  LET at == SelectSeq(<<>> \o [i \in 1..(Len(s) + 1) |-> i - 1], LAMBDA x : x \in cuts /\ (x < Len(s) \/ x = 0))
      ends == Append(at, Len(s))
  IN <<>> \o [i \in 1..Len(ends) |-> SubSeq(s, (IF i = 1 THEN 0 ELSE ends[i - 1]) + 1, ends[i])]

Quote(s) == <<DQ>> \o Escape(s) \o <<DQ>>
Dress(lay, t) == lay.indent \o t \o lay.trail
(* One string: its keyword, then its pieces.                                 *)
WriteString(lay, mark, kw, s) ==
  LET ps == Pieces(s, lay.cuts)
      m == IF mark = <<>> THEN <<>> ELSE <<HASH>> \o mark \o (IF lay.tight THEN <<>> ELSE <<SP>>)
  IN <<>> \o [i \in 1..Len(ps) |->
        Dress(lay, IF i = 1 THEN m \o kw \o (IF lay.tight THEN <<>> ELSE <<SP>>) \o Quote(ps[1])
                   ELSE m \o Quote(ps[i]))]
WriteOpt(lay, mark, kw, o) == IF o = <<>> THEN <<>> ELSE WriteString(lay, mark, kw, o[1])

KwNth(i) == KwStrOpen \o Dec(i) \o <<93>>
Sharp(k, s) == <<HASH, k>> \o (IF k = SP \/ s = <<>> THEN <<>> ELSE <<SP>>) \o s
WriteComment(lay, c) ==
  Dress([lay EXCEPT !.trail = <<>>],
        CASE c.c = "flag" -> Sharp(44, Join(c.ws, <<44, SP>>))
          [] c.c = "ref" -> Sharp(58, Join(c.ws, <<SP>>))
          [] c.c = "dev" -> Sharp(46, c.s)
          [] c.c = "tra" -> Sharp(SP, c.s)
          [] c.c = "other" -> Sharp(c.kind, c.s))

CpsTilde == <<126>>  CpsBar == <<124>>  CpsTildeBar == <<126, 124>>
WriteFields(lay, e) ==
  LET m == IF e.obs THEN CpsTilde ELSE <<>>  p == IF e.obs THEN CpsTildeBar ELSE CpsBar IN
  WriteOpt(lay, p, KwCtxt, e.pctxt) \o WriteOpt(lay, p, KwId, e.pid) \o WriteOpt(lay, p, KwPlural, e.ppl)
  \o WriteOpt(lay, m, KwCtxt, e.ctxt) \o WriteString(lay, m, KwId, e.id) \o WriteOpt(lay, m, KwPlural, e.pl)
  \o (IF e.pl = <<>> THEN WriteString(lay, m, KwStr, e.strs[1])
      ELSE FlattenSeq([i \in 1..Len(e.strs) |-> WriteString(lay, m, KwNth(i - 1), e.strs[i])]))
WriteEntry(lay, e) ==
  <<>> \o [i \in 1..Len(e.cs) |-> WriteComment(lay, e.cs[i])] \o WriteFields(lay, e)

HeaderLine(l) == IF "raw" \in DOMAIN l THEN l.raw ELSE l.p \o l.k \o l.p \o <<58>> \o l.p \o l.v \o l.p
HeaderText(h) == FlattenSeq([i \in 1..Len(h.lines) |-> HeaderLine(h.lines[i]) \o <<LF>>])
HeaderEntry(h) == [Entry(<<>>, <<HeaderText(h)>>) EXCEPT !.cs = h.cs]

AllEntries(cat) == (IF cat.header = <<>> THEN <<>> ELSE <<HeaderEntry(cat.header[1])>>) \o cat.entries

(* The lines, and for each entry the numbers of its first line (comments     *)
(* included) and of its last.                                                *)
WriteAll(lay, es) ==
  LET add(acc, e) ==
        LET g == IF acc.n = 0 THEN <<>> ELSE lay.gap
            w == WriteEntry(lay, e)
            k == Len(acc.lines) + Len(g)
        IN [n |-> acc.n + 1, lines |-> acc.lines \o g \o w,
            spans |-> Append(acc.spans, [first |-> k + 1, fields |-> k + Len(e.cs) + 1, last |-> k + Len(w)])]
      r == FoldLeft(add, [n |-> 0, lines |-> <<>>, spans |-> <<>>], es)
  IN [lines |-> r.lines \o lay.tail, spans |-> r.spans]
Write(lay, cat) == WriteAll(lay, AllEntries(cat))

(* As bytes, cut after every line end.  The last line may lack its own       *)
(* (unless it is empty: there would be no line).                             *)
Segs(lines, eol, open) ==
  <<>> \o [i \in 1..Len(lines) |->
              Encode(lines[i]) \o (IF open /\ i = Len(lines) /\ lines[i] # <<>> THEN <<>> ELSE eol)]

(***************************************************************************)
(* Meaning.                                                                *)
(***************************************************************************)
OfKind(cs, K) == SelectSeq(cs, LAMBDA c : c.c \in K)
FlagsOf(cs) == UNION {Range1(c.ws) : c \in Range1(OfKind(cs, {"flag"}))}
LocsOf(cs) == LET l == OfKind(cs, {"ref"}) IN FlattenSeq([i \in 1..Len(l) |-> l[i].ws])
NotesOf(cs) == LET l == OfKind(cs, {"dev", "tra"}) IN [i \in 1..Len(l) |-> <<l[i].c, l[i].s>>]
CommsOf(cs) == LET l == OfKind(cs, {"other"}) IN [i \in 1..Len(l) |-> <<l[i].kind, l[i].s>>]

Translated(e) == \E i \in 1..Len(e.strs) : e.strs[i] # <<>>
MessageOf(e, forms) ==
  IF e.pl # <<>> THEN Plural(e.id, e.pl[1], e.strs, forms)
  ELSE Simple(e.id, IF e.strs[1] = <<>> THEN <<>> ELSE <<e.strs[1]>>)
PrevOf(e, forms) ==
  IF e.pid = <<>> THEN EmptyMessage
  ELSE IF e.ppl = <<>> THEN Simple(e.pid[1], <<>>) ELSE Plural(e.pid[1], e.ppl[1], <<>>, forms)
UnitOf(e, forms) ==
  [ctxt |-> e.ctxt, msg |-> MessageOf(e, forms), pctxt |-> e.pctxt, pmsg |-> PrevOf(e, forms),
   flags |-> FlagsOf(e.cs), notes |-> NotesOf(e.cs), locs |-> LocsOf(e.cs), comms |-> CommsOf(e.cs),
   state |-> IF Fuzzy \in FlagsOf(e.cs) THEN "needswork" ELSE IF Translated(e) THEN "final" ELSE "empty",
   obs |-> e.obs]

(* The header's properties: for each key, its values in order, joined.       *)
PropsOf(h) ==
  LET kv == SelectSeq(h.lines, LAMBDA l : "k" \in DOMAIN l)
      vals(k) == LET l == SelectSeq(kv, LAMBDA x : x.k = k) IN [i \in 1..Len(l) |-> l[i].v]
  IN {<<k, Join(vals(k), <<SP>>)>> : k \in {l.k : l \in Range1(kv)}}

(* What reading the whole must return, the forms declared being given        *)
(* (<<>> or <<forms>>), as well as the language.                             *)
MetaOf(cat, lang) ==
  IF cat.header = <<>> THEN [notes |-> <<>>, comms |-> <<>>, props |-> {}, lang |-> <<>>]
  ELSE LET h == cat.header[1] IN
       [notes |-> NotesOf(h.cs), comms |-> CommsOf(h.cs), props |-> PropsOf(h), lang |-> lang]
Meaning(cat, forms) ==
  <<[ev |-> "opened"]>> \o [i \in 1..Len(cat.entries) |-> [ev |-> "unit", u |-> UnitOf(cat.entries[i], forms)]]
  \o <<End, End, End>>
=============================================================================
