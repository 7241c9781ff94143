-------------------------------- MODULE MCTerm ------------------------------
(* Every step of the reader on every document of at most MAXLINES lines over *)
(* an alphabet with all kinds of lines, the stream being allowed to end or   *)
(* fail at any line: it is never stuck, it needs a number of steps bounded   *)
(* by the number of lines, it comes to its end whenever it goes on being     *)
(* asked, and it is a Weak reader.  The documents are exported.              *)
EXTENDS Reader, Alphabets, Weak, Json, IOUtils

MaxLines == atoi(IOEnv.MAXLINES)
Exporting == IOEnv.EXPORT = "1"

Texts == LinesOf("C22")
StartLines == {<<>>, HeadMax}
Extra == SetToSeq(UNION {Range1(s) : s \in StartLines} \ Range1(Texts))
Alphabet == [i \in 1..(Len(Texts) + Len(Extra)) |-> S(IF i <= Len(Texts) THEN Texts[i] ELSE Extra[i - Len(Texts)])]
LineToks == [i \in 1..Len(Alphabet) |-> Lex(Alphabet[i])]
IndexOf(t) == CHOOSE i \in 1..Len(Alphabet) : Alphabet[i] = S(t)
StartIdx == {[i \in 1..Len(s) |-> IndexOf(s[i])] : s \in StartLines}
TheFault == [kind |-> "Other", msg |-> S("lost")]

ASSUME Exporting => PrintT(ToJson([alphabet |-> Alphabet]))

VARIABLES vR, vDoc, vStart, vFlt, vSteps, vW
vars == <<vR, vDoc, vStart, vFlt, vSteps, vW>>

Init == /\ vR = NewReader /\ vDoc = <<>> /\ vFlt = <<>> /\ vSteps = 0 /\ vW = WNew
        /\ vStart \in StartIdx

Over == vW.phase \in {"refused", "ended"}
(* One step; a return is also a step of the weak reader.                     *)
To(r2) == /\ vR' = r2
          /\ vSteps' = vSteps + 1
          /\ vW' = IF r2.nout = vR.nout THEN vW ELSE WAfter(vW, r2.out.ev)
          /\ UNCHANGED vStart
Parse == CanParse(vR) /\ To(DoParse(vR)) /\ UNCHANGED <<vDoc, vFlt>>
Call == CanNext(vR) /\ ~Over /\ To(DoNext(vR)) /\ UNCHANGED <<vDoc, vFlt>>
Work == CanWork(vR) /\ To(DoWork(vR)) /\ UNCHANGED <<vDoc, vFlt>>
Allowed == IF Len(vDoc) < Len(vStart) THEN {vStart[Len(vDoc) + 1]}
           ELSE IF Len(vDoc) < Len(vStart) + MaxLines THEN 1..Len(Texts) ELSE {}
Line == /\ CanPull(vR) /\ ~vR.over
        /\ \E i \in Allowed : /\ vDoc' = Append(vDoc, i)
                              /\ To(DoPull(vR, [n |-> Len(vDoc) + 1] @@ LineToks[i]))
        /\ UNCHANGED vFlt
Eof == /\ CanPull(vR) /\ (vR.over \/ Len(vDoc) >= Len(vStart))
       /\ To(DoPull(vR, EofTok(Len(vDoc) + 1))) /\ UNCHANGED <<vDoc, vFlt>>
Fault == /\ CanPull(vR) /\ ~vR.over /\ Len(vDoc) >= Len(vStart)
         /\ To(DoPull(vR, FaultTok(TheFault, Len(vDoc) + 1, 0)))
         /\ vFlt' = <<TheFault>> /\ UNCHANGED vDoc
Next == Parse \/ Call \/ Work \/ Line \/ Eof \/ Fault
(* The user goes on asking, the stream goes on answering.                    *)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Never stuck: something can be done until the end has been seen.           *)
NotStuck == Over \/ ENABLED Next
(* At most one of these is possible: the reader is deterministic.            *)
OneWay == LET n == {k \in {"parse", "call", "work", "pull"} :
                      CASE k = "parse" -> CanParse(vR) [] k = "call" -> CanNext(vR)
                        [] k = "work" -> CanWork(vR) [] k = "pull" -> CanPull(vR)}
          IN Cardinality(n) <= 1
(* Work per line: its token is taken in one step; before it, at most all the *)
(* phases of an entry are gone through; and the calls.                       *)
Bounded == vSteps <= 14 * (Len(vDoc) + 2)
Finite == vW.calls <= WMost(Len(vDoc))
Terminates == <>Over
KeepsWeak == [][vR'.nout # vR.nout => WStep(vW, vR'.out.ev, Len(vDoc'))]_vars

Export == Exporting /\ Over => PrintT(ToJson([d |-> vDoc, fault |-> vFlt, probes |-> <<<<0>>, <<1>>, <<255, 255, 255, 255, 255, 255, 255, 255>>>>]))
=============================================================================
