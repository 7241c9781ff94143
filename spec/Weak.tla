-------------------------------- MODULE Weak --------------------------------
(* What every catalogue reader owes its user whatever the bytes are: the     *)
(* opening answers; then units, no more than there are lines; errors, if     *)
(* any, do not go on for ever; then the end.  Weaker than Reader on purpose: *)
(* MCTerm shows that Reader keeps it, WeakTrace that the real reader does,   *)
(* also where it differs from Reader in ways that other properties judge.    *)
EXTENDS Naturals

(* w.phase : "new" | "open" | "refused" | "ended"; w.calls : returns so far. *)
WNew == [phase |-> "new", calls |-> 0]
WErrors == {"io", "parse", "unexpected", "plural"}
WMost(lines) == lines + 4            \* returns until the end
WStep(w, e, lines) ==
  /\ w.calls < WMost(lines)
  /\ \/ w.phase = "new" /\ e \in {"opened"} \cup WErrors
     \/ w.phase = "open" /\ e \in {"unit", "end"} \cup WErrors
     \/ w.phase = "ended" /\ e = "end"
WAfter(w, e) ==
  [phase |-> IF w.phase = "new" THEN (IF e = "opened" THEN "open" ELSE "refused")
             ELSE IF e = "end" THEN "ended" ELSE w.phase,
   calls |-> w.calls + 1]
WDone(w) == w.phase \in {"refused", "ended"}

(* Asked of the allocator, in all: at most so many bytes for a document of   *)
(* size bytes.  Far more than what reading needs (some 200 per byte), but    *)
(* independent of the numbers written in the document.                       *)
WAllowance(size) == 4000000 + 600 * size
=============================================================================
