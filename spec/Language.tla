------------------------------ MODULE Language ------------------------------
(* Normalisation of the header's Language: a language range (RFC 4647), or   *)
(* failing that a Unix locale name, or failing that the invariant language,  *)
(* which is the empty text.                                                  *)
EXTENDS Text

LOCAL AllAlpha(s) == SelectInSeq(s, LAMBDA c : ~IsAlpha(c)) = 0
LOCAL AllDigit(s) == SelectInSeq(s, LAMBDA c : ~IsDigit(c)) = 0
LOCAL AllAlnum(s) == SelectInSeq(s, LAMBDA c : ~IsAlnum(c)) = 0
LOCAL Star == <<42>>   LOCAL Dash == <<45>>
LOCAL Alpha(s, a, b) == Len(s) >= a /\ Len(s) <= b /\ AllAlpha(s)
LOCAL Alnum(s, a, b) == Len(s) >= a /\ Len(s) <= b /\ AllAlnum(s)
LOCAL IsRegion(s) == Alpha(s, 2, 2) \/ (Len(s) = 3 /\ AllDigit(s))
LOCAL IsSubtag(s) == s = Star \/ Alnum(s, 1, 8)

LOCAL Title(s) == <<ToUpper(s[1])>> \o MapLower(Tail(s))

(* Subtags after the first, from index i: up to three extended language      *)
(* subtags, a script, a region, then anything; each with its case.           *)
RECURSIVE Rest(_, _, _)
Rest(t, i, stage) ==
  IF i > Len(t) THEN <<>>
  ELSE IF stage < 3 /\ Alpha(t[i], 3, 3)
       THEN Dash \o MapLower(t[i]) \o Rest(t, i + 1, stage + 1)
  ELSE IF stage < 4 /\ (t[i] = Star \/ Alpha(t[i], 4, 4))
       THEN Dash \o Title(t[i]) \o Rest(t, i + 1, 4)
  ELSE IF stage < 5 /\ (t[i] = Star \/ IsRegion(t[i]))
       THEN Dash \o MapUpper(t[i]) \o Rest(t, i + 1, 5)
  ELSE Dash \o MapLower(t[i]) \o Rest(t, i + 1, 5)

(* [ok, s]                                                                   *)
RangeTag(s) ==
  LET t == Split(s, 45) IN
  IF s = <<>> THEN [ok |-> TRUE, s |-> s]
  ELSE IF \A i \in 2..Len(t) : IsSubtag(t[i])
  THEN IF t[1] = Star THEN [ok |-> TRUE, s |-> Star \o Rest(t, 2, 3)]
       ELSE IF Alpha(t[1], 2, 3) THEN [ok |-> TRUE, s |-> MapLower(t[1]) \o Rest(t, 2, 0)]
       ELSE IF Alpha(t[1], 1, 8) THEN [ok |-> TRUE, s |-> MapLower(s)]
       ELSE [ok |-> FALSE, s |-> s]
  ELSE [ok |-> FALSE, s |-> s]

(* language[_region][.encoding][@modifier]                                   *)
LOCAL IsEncoding(s) == Len(s) >= 1 /\ Len(s) <= 20 /\ SelectInSeq(s, LAMBDA c : ~(IsAlnum(c) \/ c = 45)) = 0
LOCAL Cut(s, c) == LET p == Find(s, c, 1) IN
             IF p = 0 THEN [a |-> s, has |-> FALSE, b |-> <<>>]
             ELSE [a |-> SubSeq(s, 1, p - 1), has |-> TRUE, b |-> SubSeq(s, p + 1, Len(s))]

LOCAL Mod(m, lang) ==     \* script, variant, other variant
  LET x(sc, va, uv) == [lang |-> lang, script |-> S(sc), variant |-> S(va), uv |-> uv] IN
  CASE m = S("saaho") /\ lang = S("aa") -> [lang |-> S("ssy"), script |-> <<>>, variant |-> <<>>, uv |-> <<>>]
    [] m = S("arabic") -> x("Arab", "", <<>>)
    [] m \in {S("cyrl"), S("cyrillic")} -> x("Cyrl", "", <<>>)
    [] m = S("devanagari") -> x("Deva", "", <<>>)
    [] m = S("hebrew") -> x("Hebr", "", <<>>)
    [] m \in {S("iqtelif"), S("latn"), S("latin")} -> x("Latn", "", <<>>)
    [] m = S("shaw") -> x("Shaw", "", <<>>)
    [] m = S("ijekavianlatin") -> x("Latn", "ijekavsk", <<>>)
    [] m \in {S("ije"), S("ijekavian")} -> x("", "ijekavsk", <<>>)
    [] m = S("valencia") -> x("", "valencia", <<>>)
    [] m = S("euro") -> x("", "", <<>>)
    [] OTHER -> x("", "", SubSeq(m, 1, IF Len(m) > 8 THEN 8 ELSE Len(m)))

UnixName(s) ==
  LET m == Cut(s, 64)  e == Cut(m.a, 46)  r == Cut(e.a, 95)
      tagged == /\ Alpha(r.a, 2, 3)
                /\ r.has => IsRegion(r.b)
                /\ e.has => IsEncoding(e.b)
                /\ m.has => Alnum(m.b, 1, 20)
      inv == ~m.has /\ ~r.has /\ MapLower(e.a) \in {S("c"), S("posix")} /\ (e.has => IsEncoding(e.b))
      x == Mod(MapLower(m.b), MapLower(r.a))
      sub(p) == IF p = <<>> THEN <<>> ELSE Dash \o p
  IN IF tagged THEN [ok |-> TRUE, s |-> x.lang \o sub(x.script) \o sub(MapUpper(r.b)) \o sub(x.variant)
                                        \o (IF x.uv = <<>> THEN <<>> ELSE S("-u-va-") \o x.uv)]
     ELSE IF inv THEN [ok |-> TRUE, s |-> <<>>]
     ELSE [ok |-> FALSE, s |-> s]

NormLanguage(s) ==
  LET a == RangeTag(s) IN
  IF a.ok THEN a.s ELSE LET b == UnixName(s) IN IF b.ok THEN b.s ELSE <<>>
=============================================================================
