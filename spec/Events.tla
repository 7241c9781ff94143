------------------------------- MODULE Events -------------------------------
(* What a user observes: the returns of a reader as flat records, with the   *)
(* texts of errors, and the part of them that each property is about.        *)
EXTENDS Reader

(***************************************************************************)
(* Texts of errors.  ln: the line number as decimal text, "0" if none.     *)
(***************************************************************************)
LOCAL AtLine == S(" at line ")        LOCAL ParseAt == S("Parse error at line ")
LOCAL Exp1 == S(" expected ")         LOCAL Got1 == S(", got ")
LOCAL UnexpAt == S("Unexpected error at line ")   LOCAL Unexp == S("Unexpected error: ")
LOCAL Plur == S("Error in plurals forms: ")
LOCAL Quoted(s) == <<8216>> \o s \o <<8217>>
LOCAL Zero == <<48>>
TextIo(ln, msg) == IF ln = Zero THEN msg ELSE msg \o AtLine \o ln
TextParse(ln, got, exp) == ParseAt \o ln
                           \o (IF exp = <<>> THEN <<>> ELSE Exp1 \o Quoted(exp))
                           \o (IF got = <<>> THEN <<>> ELSE Got1 \o Quoted(got))
TextUnexpected(ln, msg) == IF ln = Zero THEN Unexp \o msg
                           ELSE UnexpAt \o ln \o <<58, 32>> \o msg
TextPlural(msg) == Plur \o msg

(* disp: the text; src: the text of the source, if any; after conversion to  *)
(* a standard I/O error, conv is its text and csrc its source's.             *)
LOCAL WithText(e, text, src) ==
  e @@ [disp |-> text, dbg |-> text, conv |-> text, src |-> src, csrc |-> src]

(***************************************************************************)
(* Flat records.  Probes: the counts whose text is asked of each message.  *)
(***************************************************************************)
FormsRec(m) == IF ~m.plural \/ m.forms = <<>> THEN [fc |-> <<>>, fd |-> <<>>, fs |-> <<>>]
               ELSE LET f == m.forms[1] IN
                    [fc |-> <<ToBytes(f.cnt)>>, fd |-> <<f.def>>, fs |-> <<f.src>>]
FlatUnit(u, probes) ==
  LET m == u.msg  p == u.pmsg IN
  [ev |-> "unit",
   ctxt |-> u.ctxt, pl |-> m.plural, id |-> m.id,
   pid |-> IF m.plural THEN <<m.pid>> ELSE <<>>,
   txt |-> IF m.plural THEN <<>> ELSE m.text,
   vals |-> IF m.plural THEN m.vals ELSE <<>>,
   ans |-> <<>> \o [i \in 1..Len(probes) |-> PluralText(m, probes[i])],
   gv |-> <<>> \o [i \in 1..Len(probes) |-> FormOf(m, probes[i])],
   pc |-> u.pctxt, ppl |-> p.plural, pi |-> p.id,
   pp |-> IF p.plural THEN <<p.pid>> ELSE <<>>, pt |-> TextOf(p),
   flags |-> u.flags, notes |-> u.notes, locs |-> u.locs, comms |-> u.comms,
   state |-> u.state, tr |-> u.state = "final", obs |-> u.obs,
   psimple |-> IsSimple(p), pblank |-> IsBlank(p), pvals |-> IF p.plural THEN p.vals ELSE <<>>,
   pans |-> <<>> \o [i \in 1..Len(probes) |-> PluralText(p, probes[i])], pforms |-> LET f == FormsRec(p) IN <<f.fc, f.fd, f.fs>>,
   simple |-> IsSimple(m), blank |-> IsBlank(m), text |-> TextOf(m)] @@ FormsRec(m)

(* Metadata accompany the opening; later returns say whether they changed.   *)
FlatMeta(meta) == [lang |-> meta.lang, hnotes |-> meta.notes, hcomms |-> meta.comms,
                   props |-> Range1(meta.props)]

Flat(e, r, probes) ==
  [pulled |-> r.n] @@
  CASE e.ev = "opened" -> e @@ FlatMeta(r.meta)
    [] e.ev = "unit" -> FlatUnit(e.u, probes) @@ [ms |-> TRUE]
    [] e.ev = "end" -> e @@ [ms |-> TRUE]
    [] e.ev = "io" -> IF e.iomsg = <<>>      \* the standard library's own message
                      THEN [x \in (DOMAIN e) \ {"iomsg"} |-> e[x]]
                      ELSE [x \in {"disp", "conv", "src", "csrc"} |-> WithText(e, TextIo(Dec(e.line), e.iomsg), <<e.iomsg>>)[x]] @@ [srcorig |-> e.orig, csrcorig |-> e.orig] @@ e
    [] e.ev = "parse" -> WithText(e, TextParse(Dec(e.line), e.got, e.exp), <<>>)
    [] e.ev = "unexpected" -> WithText(e, TextUnexpected(Dec(e.line), e.msg), <<>>)
    [] e.ev = "plural" -> e

(***************************************************************************)
(* The observations each property is about.                                *)
(***************************************************************************)
LOCAL IdKeys == {"ctxt", "pl", "id", "pid"}
LOCAL TextKeys == IdKeys \cup {"txt", "vals"}
LOCAL PrevKeys == {"pc", "ppl", "pi", "pp"}
LOCAL CommKeys == {"flags", "notes", "locs", "comms"}
LOCAL UnitKeys == TextKeys \cup PrevKeys \cup CommKeys
                  \cup {"state", "tr", "obs", "simple", "blank", "text", "pt", "ans", "gv", "fc", "fd", "fs",
                        "psimple", "pblank", "pvals", "pans", "pforms"}
LOCAL MetaKeys == {"lang", "hnotes", "hcomms", "props", "ms"}
LOCAL ErrKeys == {"line", "iokind", "iomsg", "got", "exp", "msg", "disp"}
LOCAL AllKeys == UnitKeys \cup MetaKeys \cup ErrKeys

Keys(prop) ==
  {"ev"} \cup
  CASE prop = "C01" -> TextKeys
    [] prop = "C02" -> TextKeys \cup PrevKeys
    [] prop = "C03" -> TextKeys \cup PrevKeys \cup {"pt"}
    [] prop = "C04" -> {"id", "hnotes", "hcomms"} \cup CommKeys
    [] prop = "C05" -> TextKeys \cup PrevKeys \cup {"obs"}
    [] prop = "C06" -> {"id", "state", "tr"}
    [] prop = "C07" -> TextKeys \cup PrevKeys \cup {"obs", "state", "line"}
    [] prop = "C08" -> {"id", "ctxt", "hnotes", "hcomms", "props", "ms"}
    [] prop = "C09" -> {"lang", "ms"}
    [] prop = "C10" -> {"fc", "fd", "fs"}
    [] prop = "C11" -> {"vals", "ans", "txt", "gv"}
    [] prop = "C12" -> {"ans", "gv", "fs"}
    [] prop = "C13" -> {"ans", "gv"}
    [] prop = "C14" -> IdKeys \cup {"line", "iokind", "iomsg", "orig"}
    [] prop = "C15" -> IdKeys
    [] prop = "C16" -> IdKeys \cup {"line", "got", "exp"}
    [] prop = "C17" -> IdKeys \cup {"line"}
    [] prop = "C18" -> AllKeys
    [] prop = "C19" -> {"id", "pulled"}
    [] prop = "C20" -> TextKeys \cup PrevKeys \cup {"obs"}
    [] prop = "C21" -> AllKeys
    [] prop = "C22" -> {}
    [] prop = "C23" -> {"line", "disp", "dbg", "conv", "src", "csrc", "srcorig", "csrcorig"}
    [] prop = "C24" -> IdKeys \cup {"txt", "vals", "simple", "blank", "text", "pt", "psimple", "pblank", "pvals"}
    [] prop = "C25" -> UnitKeys
    [] prop = "C26" -> TextKeys \cup {"line", "n", "lo", "hi"}
    [] OTHER -> AllKeys \cup {"pulled", "orig", "dbg", "conv", "src", "csrc"}

Project(prop, e) == [k \in (DOMAIN e) \cap Keys(prop) |-> e[k]]
=============================================================================
