-------------------------------- MODULE MCExpr -------------------------------
(* Plural formulas (C12: which texts are formulas and how they group; C13:   *)
(* what they are worth).  Each case is a declaration; opening a catalogue    *)
(* with it either fails or gives a plural unit which answers the probes.     *)
(*   PROP (C12 or C13), SIZE, EXPORT                                         *)
EXTENDS Events, Json, IOUtils

Prop == IOEnv.PROP
Big == IOEnv.SIZE = "2"
Exporting == IOEnv.EXPORT = "1"

VARIABLES vSeed, vMade, vText, vProbes, vTree
vars == <<vSeed, vMade, vText, vProbes, vTree>>

SeqsUpTo(X, n) == UNION {[1..k -> X] : k \in 0..n}
Tk(t) == [t |-> t]
NumTk(n) == [t |-> "num", d |-> Dec(n)]

(***************************************************************************)
(* C12: groupings.  Operands are chosen so that wrong groupings show; 9 is   *)
(* the count.                                                              *)
(***************************************************************************)
BinOps == <<"||", "&&", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%">>
Bin == 1..13
Operands == <<<<7, 3, 9, 2, 5, 1>>, <<9, 0, 1, 0, 9, 2>>, <<0, 9, 5, 1, 3, 0>>, <<2, 9, 3, 9, 0, 1>>, <<1, 0, 9, 4, 9, 9>>, <<8, 9, 2, 3, 1, 9>>>>
Opd(a, i) == LET v == Operands[a][i] IN IF v = 9 THEN Tk("n") ELSE NumTk(v)
Op(o) == Tk(BinOps[o])
Pre(x) == CASE x = 0 -> <<>> [] x = 1 -> <<Tk("!")>> [] x = 2 -> <<Tk("-")>>
Wrap(ts) == <<Tk("(")>> \o ts \o <<Tk(")"), Tk("+"), NumTk(1000)>>
Wraps(ts) == IF Big THEN {ts, Wrap(ts)} ELSE {Wrap(ts)}
Raw(ts) == TokensText(ts)

Bases == <<<<"n">>, <<"(", "n", ")">>, <<"-", "n">>, <<"!", "n">>, <<"n", "?", "1", ":", "2">>, <<"n", "+", "1">>, <<"n", "-", "1", "*", "2">>, <<"n", "==", "1", "||", "n", ">", "2">>,
           <<"(", "n", "%", "2", ")", "&&", "!", "n">>, <<"n", "?", "n", ":", "1", "?", "2", ":", "3">>, <<"-", "(", "n", ")", "/", "2">>, <<"n", "<", "1", "?", "0", ":", "n", "!=", "2">>>>
KindOf(t) == IF t \in {"1", "2", "3", "0", "5"} THEN [t |-> "num", d |-> S(t)] ELSE Tk(t)
AnyTok == <<"n", "5", "(", ")", "?", ":", "!", "-", "||", "&&", "==", "!=", "<", "<=", ">", ">=", "+", "*", "/", "%">>
Chars == <<"n", "1", "0", "-", "+", "!", "=", "<", ">", "|", "&", "?", ":", "(", ")", " ", "o", "r", "a", "d", "t", "%", ";", ",", ".", "N", "\t", "_", "\"">>
Lexical == <<"nor1", "not n", "notn", "nandn", "n and1", "n or n", "norn", "or n", "n n", "1n", "n1", "10 0", "1 0", "0x1", "1_0", "007", "0", "00", "1.5", "+1", "n + +1", "- -n", "--n", "-(-n)", "!!n", "!(!n)", "not not n", "!-n", "-!n", "not(n)",
             "not(not n)", "n==1and n>0", "n and not n", "not n and n", "not n+1", "!n+1", "!n==0", "not n==1", "! n", "n ! = 1", "n!=1", "n! =1", "n<>1", "n=>1", "n=<1", "n<=1", "n< =1", "n===1", "n=1", "n|1", "n&1", "n|||1", "n&&&1", "n| |1", "n& &1",
             "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775807", "9223372036854775806+1", "99999999999999999999", "00000000000000000000000009", "18446744073709551615", "4294967296", "2147483648",
             "1e3", "n\tor\t1", "  n  ", "N", "OR", "n OR 1", "n Or 1", "n AND 1", "NOT n", "nn", "x", "n,1", "n;1", "(n", "n)", "()", "", " ", "(", ")", "((n))", "((((((((((n))))))))))", "(((((n)))", "n?1:2", "n?1", "n:1", "n?:1", "?1:2", "n?1:", "n?1:2:3",
             "n?1?2:3:4", "n?1:2?3:4", "n?1:n?2:3", "(n?1:2)?3:4", "n>1?1:0", "n-1-1", "n-1+1", "n+-1", "n*-1", "n/-1", "n- -1", "n--1", "n%3%2", "n/2/2", "n*2/2", "n/2*2", "n%2*2", "1<n<3", "n==1==1", "n==1!=1", "1<2==1", "n>1>=0", "n||1&&0",
             "n&&1||0", "n or 1 and 0", "n+1==2", "n==1+1", "!n||1", "!n&&1", "!n*2", "!n<1", "n+!1", "n*!1", "n==!1", "n&&!1", "n||!1", "-n+1", "-n*2", "-n%3", "-(n)%3", "-n==0", "-n?1:2", "!n?1:2", "n ? -1 : !1", "n?!1:-1", "n(1)", "n[0]", "n++", "++n", "n**2", "n^2",
             "~n", "n//2", "n %% 2", "a", "an", "and", "o", "no", "not", "nt", "n o r 1", "n a n d 1", "no t n", "orn", "1or n", "1and n", "1not n", "n'", "\"n\"", "(n))", "n ()", "() n", "(n)(1)", "1(n)", "n 1", "1 n", "!", "-", "+", "n -", "n +", "* n", "n ? 1 : 2 ? 3", "0?1:0?2:3">>

Seeds12 ==
  {<<1, o, p>> : o \in Bin, p \in Bin} \cup {<<2, o, p>> : o \in Bin, p \in Bin} \cup {<<3, o>> : o \in Bin}
  \cup {<<4, b>> : b \in 1..Len(Bases)} \cup {<<5, a, b>> : a \in 1..Len(AnyTok), b \in 0..Len(AnyTok)}
  \cup {<<6, a, b>> : a \in 1..Len(Chars), b \in 1..Len(Chars)} \cup {<<7>>}
Probes12 == <<<<0>>, <<1>>, <<2>>, <<3>>, <<6>>, <<9>>>>
Toks12(z) ==      \* sets of token strings
  CASE z[1] = 1 -> UNION {Wraps(Pre(x) \o <<Opd(a, 1), Op(z[2])>> \o Pre(y) \o <<Opd(a, 2), Op(z[3])>> \o Pre(w) \o <<Opd(a, 3)>>)
                          : x \in 0..2, y \in 0..2, w \in 0..2, a \in IF Big THEN 1..6 ELSE 1..2}
    [] z[1] = 2 -> UNION {Wraps(<<Opd(a, 1), Op(z[2]), Opd(a, 2), Op(z[3]), Opd(a, 3), Op(o), Opd(a, 4)>>) : o \in Bin, a \in 1..6}
                   \cup {<<Opd(a, 1), Op(z[2]), Opd(a, 2), Op(z[3]), Opd(a, 3)>> : a \in 1..6}
                   \cup {<<Tk("(")>> \o <<Opd(a, 1), Op(z[2]), Opd(a, 2)>> \o <<Tk(")"), Op(z[3]), Opd(a, 3)>> : a \in 1..6}
                   \cup {<<Opd(a, 1), Op(z[2]), Tk("("), Opd(a, 2), Op(z[3]), Opd(a, 3), Tk(")")>> : a \in 1..6}
    [] z[1] = 3 -> UNION {Wraps(<<Opd(a, 1), Op(z[2]), Opd(a, 2), Tk("?"), Opd(a, 3), Op(o), Opd(a, 4), Tk(":"), Opd(a, 5), Op(p), Opd(a, 6)>>) : o \in Bin, p \in (IF Big THEN Bin ELSE {1, 3, 9, 11}), a \in {3, 5}}
                   \cup {<<Opd(a, 1), Op(z[2]), Opd(a, 2), Tk("?"), Opd(a, 3), Tk("?"), Opd(a, 4), Tk(":"), Opd(a, 5), Tk(":"), Opd(a, 6)>> : a \in 1..6}
                   \cup {<<Opd(a, 1), Tk("?"), Opd(a, 2), Tk(":"), Opd(a, 3), Op(z[2]), Opd(a, 4), Tk("?"), Opd(a, 5), Tk(":"), Opd(a, 6)>> : a \in 1..6}
    [] z[1] = 4 -> LET b == [i \in 1..Len(Bases[z[2]]) |-> KindOf(Bases[z[2]][i])] IN
                   {b} \cup {SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b)) : i \in 1..Len(b)}
                   \cup {SubSeq(b, 1, i - 1) \o <<KindOf(AnyTok[t])>> \o SubSeq(b, i, Len(b)) : i \in 1..(Len(b) + 1), t \in 1..Len(AnyTok)}
                   \cup {[b EXCEPT ![i] = KindOf(AnyTok[t])] : i \in 1..Len(b), t \in 1..Len(AnyTok)}
    [] z[1] = 5 -> IF z[3] = 0 THEN {<<KindOf(AnyTok[z[2]])>>}
                   ELSE {<<KindOf(AnyTok[z[2]]), KindOf(AnyTok[z[3]])>> \o [i \in 1..Len(x) |-> KindOf(AnyTok[x[i]])] : x \in SeqsUpTo(1..Len(AnyTok), IF Big THEN 2 ELSE 1)}
    [] OTHER -> {}
Texts12(z) ==
  CASE z[1] = 6 -> {S(Chars[z[2]]) \o S(Chars[z[3]])} \cup {S(Chars[z[2]]) \o S(Chars[z[3]]) \o S(Chars[c]) : c \in 1..Len(Chars)}
                   \cup (IF Big THEN {S(Chars[z[2]]) \o S(Chars[z[3]]) \o S(Chars[c]) \o S(Chars[d]) : c \in 1..16, d \in 1..Len(Chars)} ELSE {})
    [] z[1] = 7 -> {S(Lexical[i]) : i \in 1..Len(Lexical)} \cup {<<1632>>, <<110, 160>>, <<110, 12288, 43, 49>>, <<65358>>, <<110, 8722, 49>>, <<233>>, <<49, 1634>>, <<110, 11, 43, 12, 49>>}
    [] OTHER -> {Raw(ts) : ts \in Toks12(z)}

(***************************************************************************)
(* C13: values.                                                            *)
(***************************************************************************)
W(str) == WOfDec(S(str))
BigTexts == {S("2147483647"), S("2147483648"), S("4294967295"), S("4294967296"), S("9007199254740993"),
             S("4611686018427387904"), S("9223372036854775807"), S("3037000500")}
BigNums == {WOfDec(t) : t \in BigTexts}
BigText == [v \in BigNums |-> CHOOSE t \in BigTexts : WOfDec(t) = v]
Consts == {<<0>>, <<1>>, <<2>>, <<3>>, <<10>>, <<100>>, <<1000000007>>} \cup BigNums
DecOf(v) == IF v \in BigNums THEN BigText[v] ELSE Dec(v[1])
OpText == [o \in {BinOps[i] : i \in Bin} |-> S(o)]
Max64 == W("9223372036854775807")
N2(op, a, b) == [o |-> op, a |-> a, b |-> b]
N1(op, a) == [o |-> op, a |-> a]
MostNeg == N2("-", N1("neg", Num(Max64)), Num(<<1>>))
ConstLeaves == {Num(v) : v \in Consts} \cup {N1("neg", Num(<<1>>)), MostNeg, N1("neg", Num(Max64))}
VarLeaves == {Var, N1("neg", Var), N2("*", Var, Var), N2("+", Var, Num(<<1>>)), N2("-", Var, Num(<<2>>)), N1("!", Var)}
Few == {Num(<<0>>), Num(<<1>>), N1("neg", Num(<<1>>)), Num(<<3>>), Num(Max64), MostNeg}
OpSet == {BinOps[i] : i \in Bin}
(* Text with parentheses around everything.                                  *)
RECURSIVE Full(_)
Full(e) ==
  CASE e.o = "n" -> <<110>>
    [] e.o = "num" -> DecOf(e.v)
    [] e.o = "neg" -> <<45, 40>> \o Full(e.a) \o <<41>>
    [] e.o = "!" -> <<33, 40>> \o Full(e.a) \o <<41>>
    [] e.o = "?" -> <<40>> \o Full(e.a) \o <<41, 63, 40>> \o Full(e.b) \o <<41, 58, 40>> \o Full(e.c) \o <<41>>
    [] OTHER -> <<40>> \o Full(e.a) \o <<41>> \o OpText[e.o] \o <<40>> \o Full(e.b) \o <<41>>
(* A negative value shows through -(e)-1.                                    *)
Flip(e) == N2("-", N1("neg", e), Num(<<1>>))
Seeds13 == {<<1, o, a>> : o \in OpSet, a \in VarLeaves} \cup {<<2, o, a>> : o \in OpSet, a \in ConstLeaves}
           \cup {<<3, o, p>> : o \in OpSet, p \in OpSet} \cup {<<4, a>> : a \in ConstLeaves \cup VarLeaves}
Trees13(z) ==
  CASE z[1] = 1 -> {N2(z[2], z[3], b) : b \in ConstLeaves \cup VarLeaves} \cup {N2(z[2], b, z[3]) : b \in ConstLeaves}
    [] z[1] = 2 -> {N2(z[2], z[3], b) : b \in ConstLeaves}
    [] z[1] = 3 -> {N2(z[2], N2(z[3], Var, a), b) : a \in Few, b \in (IF Big THEN Few ELSE {Num(<<3>>), N1("neg", Num(<<1>>)), MostNeg})}
                   \cup {N2(z[2], a, N2(z[3], b, Var)) : a \in Few, b \in (IF Big THEN Few ELSE {Num(<<1>>), MostNeg})}
    [] z[1] = 4 -> {N1("neg", z[2]), N1("!", z[2]), z[2], N1("neg", N1("neg", z[2])), N1("!", N1("!", z[2]))}
                   \cup {[o |-> "?", a |-> z[2], b |-> b, c |-> c] : b \in {Var, Num(<<5>>)}, c \in {Var, MostNeg, Num(<<7>>)}}
CountsAll == <<<<0>>, <<1>>, <<2>>, <<3>>, <<9>>, <<10>>, <<11>>, <<100>>, <<255>>, <<256>>, <<65535>>, <<65536>>, <<1000000>>, <<1073741823>>, W("1073741824"),
               W("2147483647"), W("2147483648"), W("2147483649"), W("3037000499"), W("3037000500"), W("4294967295"), W("4294967296"), W("4294967297"), W("9007199254740991"), W("9007199254740992"), W("9007199254740993"),
               W("4611686018427387903"), W("4611686018427387904"), W("9223372036854775806"), W("9223372036854775807"), W("9223372036854775808"), W("9223372036854775809"),
               W("10000000000000000000"), W("13835058055282163712"), W("18446744069414584320"), W("18446744073709551613"), W("18446744073709551614"), W("18446744073709551615")>>
CountsFew == <<<<0>>, <<1>>, <<7>>, W("4294967297"), W("9223372036854775807"), W("9223372036854775808"), W("18446744073709551615")>>
Probes13(z) == IF Big \/ z[1] = 4 \/ (z[1] = 1 /\ z[3] = Var) THEN CountsAll
               ELSE IF z[1] = 2 THEN <<<<0>>>> ELSE CountsFew

(***************************************************************************)
Init == /\ vMade = FALSE /\ vText = <<>> /\ vProbes = <<>> /\ vTree = <<>>
        /\ vSeed \in IF Prop = "C12" THEN Seeds12 ELSE Seeds13
Make12 == \E t \in Texts12(vSeed) : vText' = t /\ vProbes' = Probes12 /\ vTree' = <<>>
Make13 == \E e \in Trees13(vSeed) : \E x \in {e, Flip(e)} :
            vText' = Full(x) /\ vProbes' = Probes13(vSeed) /\ vTree' = <<x>>
Next == ~vMade /\ vMade' = TRUE /\ UNCHANGED vSeed /\ IF Prop = "C12" THEN Make12 ELSE Make13
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The grammar again, as derivations: which token strings are expressions,  *)
(* by all ways of cutting them.                                            *)
(***************************************************************************)
RECURSIVE Derives(_, _)
Cuts2(ts, L, R, ops) == \E i \in 2..(Len(ts) - 1) : ts[i].t \in ops /\ Derives(L, SubSeq(ts, 1, i - 1)) /\ Derives(R, SubSeq(ts, i + 1, Len(ts)))
Derives(l, ts) ==
  IF ts = <<>> THEN FALSE
  ELSE CASE l = 0 -> \/ Derives(1, ts)
                     \/ \E i, j \in 2..(Len(ts) - 1) : /\ i + 1 < j /\ ts[i].t = "?" /\ ts[j].t = ":"
                                                       /\ Derives(1, SubSeq(ts, 1, i - 1)) /\ Derives(0, SubSeq(ts, i + 1, j - 1)) /\ Derives(0, SubSeq(ts, j + 1, Len(ts)))
         [] l \in {1, 2, 3, 5, 6} -> Derives(l + 1, ts) \/ Cuts2(ts, l, l + 1, OpsOf(l))
         [] l = 4 -> Derives(5, ts) \/ (ts[1].t = "!" /\ Derives(5, Tail(ts)))
         [] l = 7 -> Derives(8, ts) \/ (ts[1].t = "-" /\ Derives(8, Tail(ts)))
         [] l = 8 -> \/ Len(ts) = 1 /\ (ts[1].t = "n" \/ (ts[1].t = "num" /\ FitsI64(ts[1].d)))
                     \/ Len(ts) > 2 /\ ts[1].t = "(" /\ ts[Len(ts)].t = ")" /\ Derives(0, SubSeq(ts, 2, Len(ts) - 1))
GrammarRule ==
  vMade /\ Prop = "C12" =>
    LET k == Tokens(Trim(vText)) IN
    k.ok /\ k.ts # <<>> /\ Len(k.ts) <= 5 => (ParseTokens(k.ts).ok <=> Derives(0, k.ts))
(* Writing a tree and reading it gives the tree.                             *)
Small == Len(vText) < 60 /\ \A i \in 1..Len(Tokens(vText).ts) :
           LET x == Tokens(vText).ts[i] IN x.t = "num" => Len(x.d) < 9
RoundTrip ==
  vMade => LET p == ParseFormula(vText) IN
           IF Prop = "C13" THEN p.ok /\ p.e = vTree[1]
           ELSE (p.ok /\ Trim(vText) # <<>> /\ Small) =>
                  LET ts == Show(p.e) IN ParseTokens(ts).ok /\ ParseTokens(ts).e = p.e /\ ParseFormula(TokensText(ts)).e = p.e
(* Laws of the arithmetic on the values met.                                 *)
LawsOf(a, b) ==
  /\ b # W0 => WAdd(WMul(WDiv(a, b), b), WRem(a, b)) = a
  /\ WSub(a, b) = WAdd(a, WNeg(b)) /\ WSub(WAdd(a, b), b) = a /\ WMul(a, b) = WMul(b, a)
  /\ Cardinality({i \in 1..3 : (CASE i = 1 -> WLess(a, b) [] i = 2 -> a = b [] i = 3 -> WLess(b, a))}) = 1
  /\ WDiv(a, W0) \in {WMax, WMin} /\ (WDiv(a, W0) = WMin <=> WIsNeg(a)) /\ WRem(a, W0) = a
Laws == vMade /\ Prop = "C13" /\ (Big \/ vSeed[1] \in {1, 2}) /\ "b" \in DOMAIN vTree[1] /\ "c" \notin DOMAIN vTree[1] =>
  \A i \in 1..Len(vProbes) : LawsOf(Eval(vTree[1].a, vProbes[i]), Eval(vTree[1].b, vProbes[i]))

DeclHead == S("nplurals=18446744073709551615; plural=")
Decl == DeclHead \o vText \o <<59>>
Vals == <<<<116, 48>>, <<116, 49>>, <<116, 50>>>>
Replies ==
  LET f == ParsePlural(Trim(Decl))
      u == [NewUnit EXCEPT !.msg = Plural(<<115>>, <<112>>, Vals, <<f.forms>>)] IN
  IF ~f.ok THEN <<[ev |-> "plural"]>>
  ELSE <<[ev |-> "opened"], Project(Prop, FlatUnit(u, vProbes))>>
Export == Exporting /\ vMade =>
  PrintT(ToJson([op |-> "formula", decl |-> Decl, vals |-> 3, probes |-> vProbes, exp |-> Replies]))
=============================================================================
