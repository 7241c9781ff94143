------------------------------- MODULE UseTrace -----------------------------
(* Recorded uses (documents, acts, returns) against Use: one behaviour per   *)
(* document, one step per act.                                               *)
(*   TRACE_FILE, PROP                                                        *)
EXTENDS Use, Json, IOUtils

Docs == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP
DocsToks == [d \in 1..Len(Docs) |-> DocToks([segs |-> Docs[d].segs, fault |-> Docs[d].fault])]

VARIABLES vD, vS, vA, vK, vVerdict
vars == <<vD, vS, vA, vK, vVerdict>>
Doc == Docs[vD]

SetKeys == {"flags", "props"}
Differ(e, g) ==
  IF e.ev # g.ev THEN {"ev"} ELSE
  {x \in (DOMAIN e) \cap Keys(Prop) :
     IF x \notin DOMAIN g THEN TRUE
     ELSE IF x = "lo" THEN g[x] > e[x]
     ELSE IF x = "hi" THEN g[x] >= 0 /\ g[x] < e[x]      \* -1: no bound given
     ELSE IF x \in SetKeys THEN Range1(g[x]) # e[x]
     ELSE g[x] # e[x]}

Report(tag, x) == PrintT(ToJson([verdict |-> tag, doc |-> Doc.id] @@ x))
Init == /\ vD \in 1..Len(Docs) /\ GoodSegs(Docs[vD].segs)
        /\ vS = NewUse /\ vA = 0 /\ vK = 1 /\ vVerdict = "running"

ActNo(i) == IF i = 0 THEN [a |-> "open", k |-> 0] ELSE Doc.acts[i]
Step ==
  /\ vVerdict = "running" /\ vA <= Len(Doc.acts) /\ UNCHANGED vD
  /\ \E y \in {LET x == ActNo(vA) IN
              IF CanAct(vS, x) THEN DoAct(vS, x, DocsToks[vD], Doc.probes) ELSE [s |-> vS, evs |-> <<>>]} :   \* acts that make no sense are left out
     LET n == Len(y.evs)
         short == vK + n - 1 > Len(Doc.evs)
         bad == {i \in 1..n : vK + i - 1 <= Len(Doc.evs) /\ Differ(y.evs[i], Doc.evs[vK + i - 1]) # {}}
         first == CHOOSE i \in bad : \A j \in bad : i <= j
         df == Differ(y.evs[first], Doc.evs[vK + first - 1])
     IN IF bad # {}
        THEN /\ vVerdict' = "reject" /\ UNCHANGED <<vS, vA, vK>>
             /\ Report("REJECT", [k |-> vK + first - 1, why |-> df, exp |-> [z \in df |-> y.evs[first][z]]])
        ELSE IF short THEN vVerdict' = "reject" /\ UNCHANGED <<vS, vA, vK>> /\ Report("REJECT", [k |-> Len(Doc.evs) + 1, why |-> "missing"])
        ELSE vS' = y.s /\ vA' = vA + 1 /\ vK' = vK + n /\ UNCHANGED vVerdict
Accept ==
  /\ vVerdict = "running" /\ vA > Len(Doc.acts) /\ UNCHANGED <<vD, vS, vA, vK>>
  /\ IF vK = Len(Doc.evs) + 1 THEN vVerdict' = "accept" /\ Report("ACCEPT", [k |-> vK])
     ELSE vVerdict' = "reject" /\ Report("REJECT", [k |-> vK, why |-> "surplus"])
Next == Step \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
