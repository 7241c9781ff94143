-------------------------------- MODULE Trace -------------------------------
(* Validation of recorded runs: each document with the returns recorded from *)
(* the real reader must be a behaviour of Reader.  The documents are the     *)
(* initial states, so they are validated side by side; each ends with one    *)
(* line ACCEPT or REJECT, which the driver counts.                           *)
(*   TRACE_FILE : one JSON document per line                                 *)
(*   PROP       : the property whose observations are compared               *)
EXTENDS Events, Json, IOUtils

Docs == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLES vD, vR, vK, vVerdict
vars == <<vD, vR, vK, vVerdict>>

Doc == Docs[vD]
Evs == Docs[vD].evs

SetKeys == {"flags", "props"}
(* Differing keys between an expected return and a recorded one.  pulled is  *)
(* an upper bound; a logged set comes as a list without repetition.          *)
Differ(e, g) ==
  IF e.ev # g.ev THEN {"ev"} ELSE
  {x \in (DOMAIN e) \cap Keys(Prop) :
     IF x \notin DOMAIN g THEN TRUE
     ELSE IF x = "pulled" THEN g[x] > e[x]
     ELSE IF x \in SetKeys THEN Range1(g[x]) # e[x]
     ELSE g[x] # e[x]}

(* C23: where the message comes from a library, the text must be built       *)
(* around the recorded message.                                              *)
OpenText(e, g) ==
  IF Prop # "C23" \/ e.ev # g.ev THEN e
  ELSE IF e.ev = "plural"
  THEN LET t == TextPlural(g.msg) IN e @@ [disp |-> t, dbg |-> t, conv |-> t, src |-> <<>>, csrc |-> <<>>]
  ELSE IF e.ev = "io"
  THEN LET ln == Dec(e.line)  t == TextIo(ln, g.iomsg) IN
       e @@ [disp |-> t, dbg |-> TextIo(ln, g.iodbg), conv |-> t, src |-> <<g.iomsg>>, csrc |-> <<g.iomsg>>]
  ELSE e

Init == /\ vD \in 1..Len(Docs)
        /\ GoodSegs(Docs[vD].segs)
        /\ vR = NewReader /\ vK = 1 /\ vVerdict = "running"

Report(tag, x) == PrintT(ToJson([verdict |-> tag, doc |-> Doc.id] @@ x))

(* Any step may end with a return; it must be the recorded one.              *)
(* (TLC works out a LET in an action anew wherever it is used: what is used  *)
(* more than once is bound with \E instead.)                                 *)
Checked(r2) ==
  /\ vR' = r2
  /\ IF vR'.nout = vR.nout THEN UNCHANGED <<vK, vVerdict>>
     ELSE IF vK > Len(Evs)
     THEN vVerdict' = "reject" /\ vK' = vK /\ Report("REJECT", [k |-> vK, why |-> "missing"])
     ELSE \E e \in {OpenText(Flat(vR'.out, vR', Doc.probes), Evs[vK])} : \E df \in {Differ(e, Evs[vK])} :
          IF df = {} THEN vK' = vK + 1 /\ vVerdict' = "running"
          ELSE /\ vVerdict' = "reject" /\ vK' = vK
               /\ Report("REJECT", [k |-> vK, why |-> df, exp |-> [x \in df |-> e[x]]])

Running == vVerdict = "running" /\ UNCHANGED vD

Parse == Running /\ CanParse(vR) /\ Checked(DoParse(vR))
NextCall == Running /\ CanNext(vR) /\ vK <= Len(Evs) /\ Checked(DoNext(vR))
Pull == /\ Running /\ CanPull(vR)
        /\ Checked(DoPull(vR, IF vR.over THEN EofTok(vR.n + 1) ELSE SourceTok(Doc, vR.n + 1)))
Fail == Running /\ CanFail(vR) /\ Checked(DoFail(vR))
Comment == Running /\ CanComment(vR) /\ Checked(DoComment(vR))
Begin == Running /\ CanBegin(vR) /\ Checked(DoBegin(vR))
Field == Running /\ CanField(vR) /\ Checked(DoField(vR))
Extend == Running /\ CanExtend(vR) /\ Checked(DoExtend(vR))
Close == Running /\ CanClose(vR) /\ Checked(DoClose(vR))
Skip == Running /\ CanSkip(vR) /\ Checked(DoSkip(vR))
Finish == Running /\ CanFinish(vR) /\ Checked(DoFinish(vR))

(* Everything recorded has been explained.                                   *)
Accept == /\ Running /\ vR.call = "idle" /\ vR.nout > 0 /\ vK = Len(Evs) + 1
          /\ vVerdict' = "accept" /\ UNCHANGED <<vR, vK>>
          /\ Report("ACCEPT", [k |-> vK])
(* The real reader went on where nothing may be called.                      *)
Surplus == /\ Running /\ vR.dead /\ vK <= Len(Evs)
           /\ vVerdict' = "reject" /\ UNCHANGED <<vR, vK>>
           /\ Report("REJECT", [k |-> vK, why |-> "surplus"])

Next == \/ Parse \/ NextCall \/ Pull \/ Fail \/ Comment \/ Begin \/ Field \/ Extend
        \/ Close \/ Skip \/ Finish \/ Accept \/ Surplus
Spec == Init /\ [][Next]_vars
=============================================================================
