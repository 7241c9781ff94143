------------------------------ MODULE MCDelivery ----------------------------
(* The stream hands its bytes out in pieces of any size, now and then says   *)
(* "interrupted, try again", and ends or fails.  A line source assembles     *)
(* physical lines from the pieces.  Checked: the lines it yields are those   *)
(* of the document, whatever the pieces, at every moment; so the reader, who *)
(* sees lines only, does not depend on the pieces.  Every schedule is        *)
(* replayed into the real reader.                                            *)
(*   SIZE ("1": quick, "2": thorough), EXPORT                                *)
EXTENDS Events, Json, IOUtils

Prop == IOEnv.PROP
Big == IOEnv.SIZE = "2"
Exporting == IOEnv.EXPORT = "1"

(* Documents: bytes, the failure at the end, how many cuts, interruptions.   *)
B(str) == Encode(S(str))
Lf == <<10>>  CrLf == <<13, 10>>
Smile == <<240, 159, 152, 128>>  Ee == <<195, 169>>
Lost == <<[kind |-> "Other", msg |-> S("lost")]>>
Blocked == <<[kind |-> "WouldBlock", msg |-> S("again")]>>
D(b, f, c, i) == [b |-> b, f |-> f, c |-> IF Big THEN c + 1 ELSE c, i |-> i]
Entry1(e) == B("msgid\"a\"") \o e \o B("msgstr\"") \o Ee \o B("\"") \o e
HeadOf(e) == B("msgid\"\"") \o e \o B("msgstr\"K:") \o Smile \o B("\\n\"") \o e
Long(e) == HeadOf(e) \o e \o B("#, fuzzy") \o e \o B("msgid \"") \o Ee \o Smile \o B("\"") \o e \o B("\"b\\\\\"") \o e \o B("msgstr \"x\"") \o e
           \o B("#~ msgid \"o\"") \o e \o B("#~ msgstr \"\"")
Docs ==
  <<D(Entry1(Lf), <<>>, 3, 1), D(Entry1(CrLf), <<>>, 3, 1), D(SubSeq(Entry1(CrLf), 1, 21), <<>>, 2, 2),
    D(Long(Lf), <<>>, 2, 0), D(Long(CrLf), <<>>, 2, 0), D(Long(Lf), <<>>, 1, 1), D(Long(CrLf) \o CrLf, <<>>, 1, 1),
    D(<<>>, <<>>, 1, 3), D(Lf, <<>>, 1, 2), D(CrLf \o Lf \o <<32>>, <<>>, 3, 2),
    D(Entry1(Lf) \o <<195>>, <<>>, 2, 1),                                                  \* cut inside a character
    D(Entry1(Lf) \o B("# ") \o <<226, 130>> \o Lf \o Entry1(Lf), <<>>, 2, 0),          \* half a character
    D(Entry1(Lf) \o B("#") \o <<255>> \o Lf, <<>>, 2, 0),
    D(Entry1(Lf) \o B("# x\ry\r") \o CrLf, <<>>, 2, 1), D(Entry1(<<13>>), <<>>, 2, 1),   \* CR alone
    D(Entry1(<<13>> \o CrLf), <<>>, 2, 1), D(Entry1(Lf) \o <<13>>, <<>>, 2, 1),
    D(Entry1(Lf), Lost, 2, 1), D(SubSeq(Entry1(Lf), 1, 18), Lost, 2, 1), D(SubSeq(Entry1(Lf), 1, 8), Blocked, 2, 1), D(<<>>, Lost, 1, 2),
    D(Long(Lf), Lost, 1, 0), D(SubSeq(Long(CrLf), 1, 71), Lost, 2, 0),
    D(Entry1(Lf) \o B("oops") \o Lf \o Entry1(Lf), <<>>, 2, 0), D(<<239, 187, 191>> \o Entry1(Lf), <<>>, 2, 0),
    D(B("#") \o Ee \o Lf \o Entry1(Lf), <<>>, 2, 1),
    D(Entry1(Lf) \o <<0>> \o Lf, <<>>, 1, 1), D(Entry1(Lf) \o <<12>> \o Lf \o <<194, 133>> \o Lf \o <<11>> \o B("# z"), <<>>, 2, 0)>>

(* A piece up to and with each LF.                                           *)
RECURSIVE CutLines(_)
CutLines(b) == LET f == Find(b, LF, 1) IN
               IF b = <<>> THEN <<>> ELSE IF f = 0 THEN <<b>>
               ELSE <<SubSeq(b, 1, f)>> \o CutLines(SubSeq(b, f + 1, Len(b)))
AsDoc(d) == [segs |-> CutLines(d.b), fault |-> d.f]

(* All the returns for a document.                                           *)
Probes == <<<<0>>, <<1>>>>
RECURSIVE RunFrom(_, _, _, _)
RunFrom(r, toks, evs, extra) ==
  LET y == CallThrough(r, toks)
      es == Append(evs, Flat(y.out, y, Probes))
      stop == y.out.ev \notin {"unit", "opened"} IN
  IF y.dead \/ (stop /\ extra = 0) THEN es
  ELSE RunFrom(DoNext(y), toks, es, IF stop THEN extra - 1 ELSE extra)
Run(d) == RunFrom(DoParse(NewReader), DocToks(AsDoc(d)), <<>>, 2)
Runs == [k \in 1..Len(Docs) |-> Run(Docs[k])]

VARIABLES vD, vSched, vPos, vCuts, vInts, vBuf, vLines, vState
vars == <<vD, vSched, vPos, vCuts, vInts, vBuf, vLines, vState>>
d == Docs[vD]

Init == vD \in 1..Len(Docs) /\ vSched = <<>> /\ vPos = 0 /\ vCuts = 0 /\ vInts = 0 /\ vBuf = <<>> /\ vLines = <<>> /\ vState = "open"

(* The source: lines are taken out of the buffer as soon as they are whole.  *)
Took(buf) == LET ls == CutLines(buf) IN
             IF ls = <<>> THEN [lines |-> <<>>, rest |-> <<>>]
             ELSE IF ls[Len(ls)][Len(ls[Len(ls)])] = LF THEN [lines |-> ls, rest |-> <<>>]
             ELSE [lines |-> SubSeq(ls, 1, Len(ls) - 1), rest |-> ls[Len(ls)]]
Read(n) == LET t == Took(vBuf \o SubSeq(d.b, vPos + 1, vPos + n)) IN
           /\ vPos' = vPos + n /\ vSched' = Append(vSched, n)
           /\ vBuf' = t.rest /\ vLines' = vLines \o t.lines
           /\ vCuts' = (IF vPos + n < Len(d.b) THEN vCuts + 1 ELSE vCuts) /\ UNCHANGED <<vD, vInts, vState>>
Deliver == vState = "open" /\ vPos < Len(d.b) /\ \E n \in 1..(Len(d.b) - vPos) : (vCuts < d.c \/ n = Len(d.b) - vPos) /\ Read(n)
Interrupt == /\ vState = "open" /\ vInts < d.i /\ vInts' = vInts + 1 /\ vSched' = Append(vSched, 0)
             /\ UNCHANGED <<vD, vPos, vCuts, vBuf, vLines, vState>>
(* The end: what is left in the buffer is the last line; if the stream fails *)
(* it is lost.                                                               *)
Close == /\ vState = "open" /\ vPos = Len(d.b)
         /\ vState' = IF d.f = <<>> THEN "ended" ELSE "failed"
         /\ vLines' = IF d.f = <<>> /\ vBuf # <<>> THEN Append(vLines, vBuf) ELSE vLines
         /\ vBuf' = <<>> /\ UNCHANGED <<vD, vSched, vPos, vCuts, vInts>>
Next == Deliver \/ Interrupt \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver) /\ WF_vars(Close)

Whole == AsDoc(d).segs
LinesPrefix == Len(vLines) <= Len(Whole) /\ \A i \in 1..Len(vLines) : vLines[i] = Whole[i]
LinesWhole == /\ vState = "ended" => vLines = Whole
              /\ vState = "failed" => Len(vLines) = Lines(AsDoc(d))
NothingLost == vState = "open" => FlattenSeq(vLines) \o vBuf = SubSeq(d.b, 1, vPos)
Settled == <>(vState # "open")

(* LF and CR LF mean the same, and so does a missing last line end.          *)
Same(e, g) == [x \in DOMAIN e \ {"pulled"} |-> e[x]] = [x \in DOMAIN g \ {"pulled"} |-> g[x]]
SameRuns(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])
ASSUME SameRuns(Runs[1], Runs[2]) /\ SameRuns(Runs[1], Runs[3]) /\ SameRuns(Runs[4], Runs[5]) /\ SameRuns(Runs[4], Runs[7])

(* sizes are used over and over: the last one takes all that is left.        *)
Export == Exporting /\ vState # "open" =>
  PrintT(ToJson([segs |-> Whole, fault |-> d.f, sizes |-> Append(vSched, 1000), probes |-> Probes,
                 stop |-> IF d.f = <<>> THEN "end" ELSE "io", exp |-> [i \in 1..Len(Runs[vD]) |-> Project(Prop, Runs[vD][i])]]))
=============================================================================
