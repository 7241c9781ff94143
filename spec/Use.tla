--------------------------------- MODULE Use --------------------------------
(* A user at work: a reader is an iterator, which may be advanced in any of  *)
(* the ways iterators offer, and the units taken are values, which may be    *)
(* kept, copied, given up and asked in any order, the reader being there or  *)
(* not.                                                                      *)
(*   r    : the reader          gone : it is no more                         *)
(*   held : the units kept, in the order they came                           *)
(* An act is [a |-> name, k |-> number].                                     *)
EXTENDS Events

NewUse == [r |-> NewReader, held |-> <<>>, gone |-> FALSE]

LOCAL Call(r, toks) == CallThrough(IF CanParse(r) THEN DoParse(r) ELSE DoNext(r), toks)
LOCAL NoItem(e) == e.ev = "end"

(* At most k items; fewer when the reader reports the end.  k < 0: all.      *)
TakeAll(r, toks, k, got) ==
  LET most == Len(toks) + 3          \* no reader gives more items than there are lines, an error and the end
      n == IF k < 0 \/ k > most THEN most ELSE k
      Step(a, i) ==
        IF a.end \/ a.r.dead THEN a
        ELSE LET y == Call(a.r, toks) IN
             IF NoItem(y.out) THEN [a EXCEPT !.r = y, !.end = TRUE]
             ELSE [a EXCEPT !.r = y, !.items = Append(@, [e |-> y.out, n |-> y.n])]
  IN FoldLeft(Step, [r |-> r, items |-> got, end |-> FALSE], [i \in 1..n |-> i])
Remaining(r, toks) == Len(TakeAll(r, toks, -1, <<>>).items)

LOCAL UnitsIn(items) == FoldLeft(LAMBDA acc, i : IF i.e.ev = "unit" THEN Append(acc, i.e.u) ELSE acc, <<>>, items)
LOCAL Drop1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Kept(x) == x.a \in {"ask", "clone", "release"}
Advances(x) == x.a \in {"next", "dyn", "nth", "take"}
Consumes(x) == x.a \in {"rest", "fold", "count", "last", "drop"}
CanAct(s, x) ==
  CASE x.a = "open" -> CanParse(s.r)
    [] Kept(x) -> x.k \in 1..Len(s.held)
    [] OTHER -> ~s.gone /\ s.r.nout > 0 /\ ~s.r.dead

(* What comes of an act: the new state and the returns, flat.                *)
DoAct(s, x, toks, probes) ==
  LET F(r, e) == Flat(e, r, probes)
      Shown(its) == FoldLeft(LAMBDA acc, it : Append(acc, F([s.r EXCEPT !.n = it.n, !.meta = s.r.meta], it.e)), <<>>, its)
      Keep(st, us) == [st EXCEPT !.held = @ \o us]
      all == TakeAll(s.r, toks, -1, <<>>)
      some == TakeAll(s.r, toks, x.k, <<>>)
      one == TakeAll(s.r, toks, 1, <<>>)
      End1(r) == <<F(r, [ev |-> "end"])>>
  IN CASE x.a = "open" -> LET y == Call(s.r, toks) IN [s |-> [s EXCEPT !.r = y], evs |-> <<F(y, y.out)>>]
       [] x.a \in {"next", "dyn"} -> [s |-> Keep([s EXCEPT !.r = one.r], UnitsIn(one.items)), evs |-> IF one.end THEN End1(one.r) ELSE Shown(one.items)]
       [] x.a = "nth" ->            \* k items passed over, then one; none when the end is met
            IF some.end THEN [s |-> [s EXCEPT !.r = some.r], evs |-> End1(some.r)]
            ELSE LET l == TakeAll(some.r, toks, 1, <<>>) IN
                 [s |-> Keep([s EXCEPT !.r = l.r], UnitsIn(l.items)), evs |-> IF l.end THEN End1(l.r) ELSE Shown(l.items)]
       [] x.a = "take" -> [s |-> Keep([s EXCEPT !.r = some.r], UnitsIn(some.items)), evs |-> Shown(some.items)]
       [] x.a \in {"rest", "fold"} -> [s |-> Keep([s EXCEPT !.gone = TRUE], UnitsIn(all.items)), evs |-> Shown(all.items)]
       [] x.a = "count" -> [s |-> [s EXCEPT !.gone = TRUE], evs |-> <<[ev |-> "count", n |-> Len(all.items)]>>]
       [] x.a = "last" ->
            LET n == Len(all.items)  l == IF n = 0 THEN <<>> ELSE <<all.items[n]>> IN
            [s |-> Keep([s EXCEPT !.gone = TRUE], UnitsIn(l)), evs |-> IF l = <<>> THEN End1(all.r) ELSE Shown(l)]
       [] x.a = "hint" -> [s |-> s, evs |-> <<[ev |-> "hint", lo |-> Len(all.items), hi |-> Len(all.items)]>>]
       [] x.a = "ask" -> [s |-> s, evs |-> <<F(s.r, [ev |-> "unit", u |-> s.held[x.k]])>>]
       [] x.a = "clone" -> [s |-> Keep(s, <<s.held[x.k]>>), evs |-> <<>>]
       [] x.a = "release" -> [s |-> [s EXCEPT !.held = Drop1(@, x.k)], evs |-> <<>>]
       [] x.a = "drop" -> [s |-> [s EXCEPT !.gone = TRUE], evs |-> <<>>]
=============================================================================
