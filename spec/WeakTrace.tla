------------------------------ MODULE WeakTrace -----------------------------
(* Recorded runs against Weak: one behaviour per document.                   *)
EXTENDS Weak, SequencesExt, Json, IOUtils, TLC

Docs == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES vD, vW, vK, vVerdict
vars == <<vD, vW, vK, vVerdict>>

Doc == Docs[vD]
Size == FoldLeft(LAMBDA a, g : a + Len(g), 0, Doc.segs)

Init == vD \in 1..Len(Docs) /\ vW = WNew /\ vK = 1 /\ vVerdict = "running"
Report(tag, x) == PrintT(ToJson([verdict |-> tag, doc |-> Doc.id] @@ x))
Running == vVerdict = "running" /\ UNCHANGED vD
More == vK <= Len(Doc.evs)

Explained == /\ Running /\ More /\ WStep(vW, Doc.evs[vK].ev, Len(Doc.segs))
             /\ vW' = WAfter(vW, Doc.evs[vK].ev) /\ vK' = vK + 1 /\ UNCHANGED vVerdict
Unexplained == /\ Running /\ More /\ ~WStep(vW, Doc.evs[vK].ev, Len(Doc.segs))
               /\ vVerdict' = "reject" /\ UNCHANGED <<vW, vK>>
               /\ Report("REJECT", [k |-> vK, why |-> "ev"])
(* The harness goes on until it has seen the end.                            *)
Finished == /\ Running /\ ~More
            /\ LET why == IF ~WDone(vW) THEN "never ends" ELSE IF Doc.work > WAllowance(Size) THEN "work" ELSE "" IN
               IF why = "" THEN vVerdict' = "accept" /\ UNCHANGED <<vW, vK>> /\ Report("ACCEPT", [k |-> vK])
               ELSE vVerdict' = "reject" /\ UNCHANGED <<vW, vK>> /\ Report("REJECT", [k |-> vK, why |-> why])
Next == Explained \/ Unexplained \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
