-------------------------------- MODULE MCFree ------------------------------
(* Every document of at most MAXLINES lines (after the start) over the       *)
(* property's alphabet, the environment choosing each line when the reader   *)
(* asks for it, ending it or (for some) failing at any moment.  Checks the   *)
(* listed properties on every history and exports every complete behaviour.  *)
EXTENDS Props, Alphabets, Json, IOUtils

Prop == IOEnv.PROP
Family == IOEnv.FAMILY            \* whose documents; the observations are those of PROP
MaxLines == atoi(IOEnv.MAXLINES)
Exporting == IOEnv.EXPORT = "1"

Texts == LinesOf(Family)
StartLines == Starts(Family)
(* The alphabet: the property's lines, then those of the starts.             *)
Extra == SetToSeq(UNION {Range1(s) : s \in StartLines} \ Range1(Texts))
Alphabet == [i \in 1..(Len(Texts) + Len(Extra)) |->
               S(IF i <= Len(Texts) THEN Texts[i] ELSE Extra[i - Len(Texts)])]
LineToks == [i \in 1..Len(Alphabet) |-> Lex(Alphabet[i])]
IndexOf(t) == CHOOSE i \in 1..Len(Alphabet) : Alphabet[i] = S(t)
StartIdx == {[i \in 1..Len(s) |-> IndexOf(s[i])] : s \in StartLines}
Probes == <<<<0>>, <<1>>, <<2>>>>
TheFault == [kind |-> "Other", msg |-> S("lost")]

ASSUME Exporting => PrintT(ToJson([alphabet |-> Alphabet]))

VARIABLES vR, vDoc, vStart, vHist, vToks, vExtra, vFlt
vars == <<vR, vDoc, vStart, vHist, vToks, vExtra, vFlt>>

Init == /\ vR = NewReader /\ vDoc = <<>> /\ vHist = <<>> /\ vToks = <<>> /\ vExtra = 2 /\ vFlt = <<>>
        /\ vStart \in StartIdx

Settle(x) ==
  LET y == Drain(x) IN
  /\ vR' = y
  /\ vHist' = IF y.nout > vR.nout THEN Append(vHist, [e |-> y.out, n |-> y.n]) ELSE vHist

Parse == CanParse(vR) /\ Settle(DoParse(vR)) /\ UNCHANGED <<vDoc, vStart, vToks, vExtra, vFlt>>
Stopped == vHist # <<>> /\ vHist[Len(vHist)].e.ev \notin {"unit", "opened"}
Next1 == CanNext(vR) /\ ~Stopped /\ Settle(DoNext(vR)) /\ UNCHANGED <<vDoc, vStart, vToks, vExtra, vFlt>>
Again == /\ CanNext(vR) /\ Stopped /\ vExtra > 0 /\ vExtra' = vExtra - 1
         /\ Settle(DoNext(vR)) /\ UNCHANGED <<vDoc, vStart, vToks, vFlt>>
Allowed == IF Len(vDoc) < Len(vStart) THEN {vStart[Len(vDoc) + 1]}
           ELSE IF Len(vDoc) < Len(vStart) + MaxLines THEN 1..Len(Texts) ELSE {}
Line == /\ CanPull(vR) /\ ~vR.over
        /\ \E i \in Allowed :
             LET t == [n |-> Len(vDoc) + 1] @@ LineToks[i] IN
             /\ vDoc' = Append(vDoc, i)
             /\ vToks' = IF t.k = "blank" THEN vToks ELSE Append(vToks, t)
             /\ Settle(DoPull(vR, t))
        /\ UNCHANGED <<vStart, vExtra, vFlt>>
Eof == /\ CanPull(vR) /\ (vR.over \/ Len(vDoc) >= Len(vStart))
       /\ Settle(DoPull(vR, EofTok(Len(vDoc) + 1)))
       /\ UNCHANGED <<vDoc, vStart, vToks, vExtra, vFlt>>
Fault == /\ CanPull(vR) /\ ~vR.over /\ Failing(Family) /\ Len(vDoc) >= Len(vStart)
         /\ vFlt' = <<TheFault>>
         /\ vToks' = Append(vToks, FaultTok(TheFault, Len(vDoc) + 1, 0))
         /\ Settle(DoPull(vR, FaultTok(TheFault, Len(vDoc) + 1, 0)))
         /\ UNCHANGED <<vDoc, vStart, vExtra>>
Next == Parse \/ Next1 \/ Again \/ Line \/ Eof \/ Fault
Spec == Init /\ [][Next]_vars

Done == vHist # <<>> /\ vR.call = "idle" /\ (vR.dead \/ (Stopped /\ vExtra = 0))

(* The documents of interest share no state, so checking the rules on every  *)
(* history that a step has just extended is checking them on all.            *)
Rules == Done => AllRules(vToks, vR.meta, vHist)

Export == Exporting /\ Done =>
  PrintT(ToJson([d |-> vDoc, fault |-> vFlt, probes |-> Probes, stop |-> Stops(vHist)[1].e.ev,
                 exp |-> [i \in 1..Len(vHist) |->
                            Project(Prop, Flat(vHist[i].e, [vR EXCEPT !.n = vHist[i].n], Probes))]]))
=============================================================================
