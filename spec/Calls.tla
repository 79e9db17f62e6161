-------------------------------- MODULE Calls --------------------------------
(* Captured calls (src/value_with_args.c): a function signature, two sets of   *)
(* arguments held by the caller, and calls captured from them.  An argument is *)
(* a value tree; a pointer names a block of `mem`, which the caller keeps and  *)
(* may change.  View says what of an argument is visible; showing, copying,    *)
(* comparing and releasing a captured call follow from it.                     *)
EXTENDS CText, Json, CSV

CONSTANTS SimDepth, Mix, EmitFile, Only
VARIABLES env,    \* structure name -> members
          sig,    \* [kind, ps]
          sets,   \* the caller's arguments: two sequences of values
          mem,    \* block -> [t, es, own]
          slots,  \* captured calls: [args, live, own]
          last, hist
vars == <<env, sig, sets, mem, slots, last, hist>>

RefT(n) == [k |-> "r", n |-> n]
Byte == B("uchar")
Par(n, t, a, s) == [n |-> n, of |-> t, an |-> a, s |-> s]
RECURSIVE Ex(_, _), Core0(_, _), Ref2(_, _)
Ex(e, t) == CASE t.k = "r" -> S(t.n, [i \in 1..Len(e[t.n]) |-> M(e[t.n][i].n, Ex(e, e[t.n][i].of))])
              [] t.k \in {"s", "u"} -> [t EXCEPT !.m = [i \in 1..Len(t.m) |-> M(t.m[i].n, Ex(e, t.m[i].of))]]
              [] t.k = "a" -> A(t.c, Ex(e, t.of)) [] t.k = "t" -> T(t.n, Ex(e, t.of)) [] t.k = "q" -> Q(t.q, Ex(e, t.of)) [] OTHER -> t
Core0(e, t) == CASE t.k = "r" -> [k |-> "s", n |-> t.n, m |-> e[t.n]] [] t.k \in {"t", "q"} -> Core0(e, t.of) [] OTHER -> t
Ref2(e, t) == CASE t.k = "r" -> D(t.n, "s") [] t.k = "p" -> P(Ref2(e, t.of)) [] t.k = "a" -> A(t.c, Ref2(e, t.of))
                [] t.k = "q" -> Q(t.q, Ref2(e, t.of)) [] OTHER -> t
IsFn(t) == t.k = "f"
IsConst(t) == t.k = "q" /\ t.q = "const"
Unknown(t) == t.k = "p" /\ Final(t.of).k \in {"v", "d"}

(* -------------------------------------------------------------- values *)
Num(x) == [v |-> "num", x |-> x]
Nil == [v |-> "nil"]
Raw(x) == [v |-> "raw", x |-> x]           \* an address that is never followed
Blk(id) == [v |-> "ptr", id |-> id]
St(m) == [v |-> "st", m |-> m]
Uni(x) == [v |-> "un", x |-> x]
Arr(es) == [v |-> "arr", es |-> es]
(* a format: its conversions, malformed or not; arguments behind an ellipsis *)
Fmt(id) == [v |-> "fmt", id |-> id]
Va(es) == [v |-> "va", es |-> es]
(* conversions and the type of argument each consumes; "str" is a string *)
Convs == <<[f |-> "%c", t |-> B("char")], [f |-> "%hd", t |-> B("short")], [f |-> "%d", t |-> B("int")], [f |-> "%5u", t |-> B("uint")], [f |-> "%ld", t |-> B("long")],
           [f |-> "%lx", t |-> B("ulong")], [f |-> "%lld", t |-> B("llong")], [f |-> "%f", t |-> B("double")], [f |-> "%.2Le", t |-> B("ldouble")], [f |-> "%hhu", t |-> B("uchar")],
           [f |-> "%s", t |-> [k |-> "str"]], [f |-> "%s", t |-> [k |-> "str"]], [f |-> "%p", t |-> P(Void)], [f |-> "%g", t |-> B("double")], [f |-> "%hi", t |-> B("short")]>>

(* the number a sibling parameter holds: counts are numbers 100 and up, number 2 is -1 *)
IntNames == {"bool", "char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"}
CountOf(ps, as, s) == LET is == {i \in 1..Len(ps) : ps[i].n = s} IN
    IF is = {} THEN -1
    ELSE LET i == CHOOSE i \in is : TRUE f == Final(ps[i].of) IN
         IF f.k # "b" \/ f.n \notin IntNames THEN -1 ELSE IF as[i].x >= 100 THEN as[i].x - 100 ELSE IF as[i].x = 2 THEN -1 ELSE as[i].x

(* ---------------------------------------------------------------- view *)
RECURSIVE View(_, _, _, _), Chars(_, _)
Chars(es, i) == IF es[i].x = 0 THEN i ELSE Chars(es, i + 1)
Ptr0(e, m, v, t, n) == [w |-> "ptr", id |-> v.id, t |-> t, es |-> [i \in 1..n |-> View(e, m, t, m[v.id].es[i])]]
View(e, m, t0, v) ==
    LET t == Core0(e, t0) IN
    CASE v.v = "num" -> [w |-> "num", t |-> t, x |-> v.x, ro |-> IsConst(t0) /\ t.k = "b"]
      [] v.v = "st" -> [w |-> "st", m |-> [i \in 1..Len(t.m) |-> View(e, m, t.m[i].of, v.m[i])]]
      [] v.v = "un" -> [w |-> "un", x |-> v.x]
      [] v.v = "arr" -> [w |-> "arr", t |-> t.of, es |-> [i \in 1..Len(v.es) |-> View(e, m, t.of, v.es[i])]]
      [] v.v = "nil" -> [w |-> "nil"]
      [] v.v = "raw" -> IF Unknown(t) THEN [w |-> "unk", x |-> v.x] ELSE [w |-> "err", adr |-> "r" \o ToString(v.x)]
      [] v.v = "ptr" -> Ptr0(e, m, v, t.of, 1)
(* one parameter, with its annotation if annotations are used *)
ViewP(e, m, ps, as, i, map) ==
    LET p == ps[i] v == as[i] t == Core0(e, p.of) IN
    CASE v.v = "fmt" -> [w |-> "fmt", id |-> v.id, whole |-> map, ro |-> IsConst(p.of.of)]
      [] v.v = "va" -> [w |-> "va", l |-> p.of.k = "l", es |-> [j \in 1..Len(v.es) |-> [t |-> v.es[j].t, w |-> View(e, m, v.es[j].t, v.es[j].v)]]]
      [] map /\ v.v = "ptr" /\ p.an = "zs" -> Ptr0(e, m, v, t.of, Chars(m[v.id].es, 1))
      [] map /\ v.v = "ptr" /\ p.an = "count" -> LET c == CountOf(ps, as, p.s) IN IF c < 0 THEN [w |-> "err", adr |-> v.id] ELSE Ptr0(e, m, v, t.of, c)
      [] OTHER -> View(e, m, p.of, v)
Views(e, m, ps, as, map) == [i \in 1..Len(ps) |-> ViewP(e, m, ps, as, i, map)]

RECURSIVE Parts(_)
Parts(w) == {w} \cup (CASE w.w = "st" -> UNION {Parts(w.m[i]) : i \in 1..Len(w.m)}
                        [] w.w \in {"ptr", "arr"} -> UNION {Parts(w.es[i]) : i \in 1..Len(w.es)}
                        [] w.w = "va" -> UNION {Parts(w.es[i].w) : i \in 1..Len(w.es)} [] OTHER -> {})
AllParts(ws) == UNION {Parts(ws[i]) : i \in 1..Len(ws)}
Refused(ws, m) == LET ks == {p.w : p \in AllParts(ws)} IN "err" \in ks \/ ("un" \in ks /\ m = "strict") \/ ("unk" \in ks /\ m = "strict")

(* numbers of a constant type are never written, in a copy neither *)
Fixed(ws) == \E p \in AllParts(ws) : p.w \in {"num", "fmt"} /\ p.ro
(* ------------------------------------------------------------- showing *)
RECURSIVE Join(_, _), Digits(_, _), Commas(_, _)
Join(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Join(s, i + 1)
Digits(s, i) == IF i > Len(s) THEN "" ELSE ToString(s[i].x) \o Digits(s, i + 1)
Commas(s, i) == IF i > Len(s) THEN <<>> ELSE IF s[i] = <<>> THEN Commas(s, i + 1)
                ELSE s[i] \o (IF \E j \in (i + 1)..Len(s) : s[j] # <<>> THEN <<",">> ELSE <<>>) \o Commas(s, i + 1)
EnumTok(t, x) == CASE x = 0 -> <<"e0" \o t.n>> [] x = 1 -> <<"e1" \o t.n>> [] x = 2 -> <<"e7" \o t.n>> [] OTHER -> <<"#en:" \o ToString(x)>>
Printable == {1, 3, 4}
IsChar(e, t) == Core0(e, t) = B("char")
RECURSIVE Show(_, _, _, _)
Els(e, w, deep) == LET n == Len(w.es) IN
    IF n >= 2 /\ IsChar(e, w.t) /\ (\A i \in 1..(n - 1) : w.es[i].x \in Printable) /\ w.es[n].x = 0
    THEN <<"$" \o Digits(SubSeq(w.es, 1, n - 1), 1)>>
    ELSE <<"{">> \o Join([i \in 1..n |-> Show(e, w.t, w.es[i], deep) \o <<",">>], 1) \o <<"}">>
Show(e, t0, w, deep) ==
    LET t == Core0(e, t0) IN
    CASE w.w = "err" -> IF deep THEN <<"!">> ELSE <<"@" \o w.adr>>
      [] w.w = "num" -> IF t.k = "e" THEN EnumTok(t, w.x) ELSE <<"#" \o t.n \o ":" \o ToString(w.x)>>
      [] w.w = "st" -> <<"{">> \o Join([i \in 1..Len(t.m) |-> <<".", t.m[i].n, "=">> \o Show(e, t.m[i].of, w.m[i], deep) \o <<",">>], 1) \o <<"}">>
      [] w.w = "un" -> <<"{", "}">>
      [] w.w = "arr" -> Els(e, w, deep)
      [] w.w = "nil" -> <<"NULL">>
      [] w.w = "unk" -> <<"@r" \o ToString(w.x)>>
      [] w.w = "ptr" -> IF ~deep THEN <<"@" \o w.id>>
                        ELSE LET x == Els(e, w, deep) IN
                             IF x[1] = "{" THEN <<"(">> \o TypeName(A(-1, Ref2(e, w.t))) \o <<")">> \o x ELSE x
      [] w.w = "fmt" -> IF ~deep THEN <<"@" \o w.id>> ELSE IF w.whole THEN <<"%" \o w.id>> ELSE <<"%%" \o w.id>>
      [] w.w = "va" -> LET item(j) == LET x == Show(e, w.es[j].t, w.es[j].w, deep) c == w.es[j].t IN
                                      IF w.es[j].w.w = "arr" /\ x[1] # "{" THEN x ELSE <<"(">> \o TypeName(c) \o <<")">> \o x
                           xs == Commas([j \in 1..Len(w.es) |-> item(j)], 1)
                       IN  IF w.l THEN <<"VA_LIST", "(">> \o xs \o <<")">> ELSE xs
Text(e, s, ws, deep) ==
    LET xs == Commas([i \in 1..Len(ws) |-> Show(e, s.ps[i].of, ws[i], deep)], 1)
        all == (IF s.kind = "g" THEN <<"fn">> ELSE <<"(", "fn_t", ")">>) \o <<"(">> \o xs \o <<")">>
    IN  IF \E i \in 1..Len(all) : all[i] = "!" THEN <<"!">> ELSE all

(* ------------------------------------------------------------- copying *)
(* the copy of a view and the blocks it needs: [v, bs] with bs a function *)
RECURSIVE Copy(_, _), CopyS(_, _, _)
CopyS(ws, k, i) == IF i > Len(ws) THEN [vs |-> <<>>, bs |-> <<>>]
                   ELSE LET a == Copy(ws[i], k) b == CopyS(ws, k, i + 1) IN [vs |-> <<a.v>> \o b.vs, bs |-> a.bs @@ b.bs]
Copy(w, k) ==
    CASE w.w = "num" -> [v |-> Num(w.x), bs |-> <<>>]
      [] w.w = "st" -> LET c == CopyS(w.m, k, 1) IN [v |-> St(c.vs), bs |-> c.bs]
      [] w.w = "un" -> [v |-> Uni(w.x), bs |-> <<>>]
      [] w.w = "arr" -> LET c == CopyS(w.es, k, 1) IN [v |-> Arr(c.vs), bs |-> c.bs]
      [] w.w = "nil" -> [v |-> Nil, bs |-> <<>>]
      [] w.w = "unk" -> [v |-> Raw(w.x), bs |-> <<>>]
      [] w.w = "ptr" -> LET c == CopyS(w.es, k, 1) id == k \o w.id IN [v |-> Blk(id), bs |-> (id :> [t |-> w.t, es |-> c.vs, own |-> TRUE]) @@ c.bs]
      [] w.w = "fmt" -> LET id == k \o w.id IN [v |-> Fmt(id), bs |-> (id :> [t |-> B("char"), of |-> w.id, es |-> <<>>, own |-> TRUE, whole |-> w.whole])]
      [] w.w = "va" -> LET c == CopyS([j \in 1..Len(w.es) |-> w.es[j].w], k, 1) IN
                       [v |-> Va([j \in 1..Len(w.es) |-> [t |-> w.es[j].t, v |-> c.vs[j]]]), bs |-> c.bs]

(* ------------------------------------------------------------ equality *)
RECURSIVE Eq(_, _, _, _)
EqN(a, b, m, f) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq(a[i], b[i], m, f)
RECURSIVE Root(_, _)
Root(m, id) == IF "of" \in DOMAIN m[id] THEN Root(m, m[id].of) ELSE id
(* the text a format argument points to: its conversions *)
FmtText(m, id) == m[Root(m, id)].cs
Eq(a, b, m, f) ==
    /\ a.w = b.w
    /\ CASE a.w = "num" -> a.t = b.t /\ a.x = b.x
         [] a.w = "st" -> EqN(a.m, b.m, m, f)
         [] a.w = "un" -> a.x = b.x
         [] a.w = "arr" -> EqN(a.es, b.es, m, f)
         [] a.w = "nil" -> TRUE
         [] a.w = "unk" -> a.x = b.x
         [] a.w = "ptr" -> EqN(a.es, b.es, m, f)
         [] a.w = "fmt" -> ~a.whole \/ FmtText(m, a.id) = FmtText(m, b.id)
         [] a.w = "va" -> Len(a.es) = Len(b.es) /\ \A i \in 1..Len(a.es) : a.es[i].t = b.es[i].t /\ Eq(a.es[i].w, b.es[i].w, m, f)

(* ---------------------------------------------------------- generation *)
SmallInts == {"char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "bool"}
En(z) == LET n == "E" \o ToString(z) IN E(n, z, <<[n |-> "e0" \o n, v |-> 0], [n |-> "e1" \o n, v |-> 1], [n |-> "e7" \o n, v |-> 7]>>)
AllBases == BaseNames \ {"schar"}
Leaf(x) == LET r == R(1..6) IN
    CASE r = 1 -> A(R(2..3), B(R(AllBases \ {"ldouble", "cldouble"}))) [] r = 2 -> P(B(R(AllBases)))
      [] r = 3 -> En(4) [] OTHER -> B(R(AllBases))
IntLeaf(x) == LET r == R(1..5) IN CASE r = 1 -> A(R(1..3), B(R({"char", "uchar"}))) [] r = 2 -> P(B(R(AllBases))) [] OTHER -> B(R(SmallInts))
GenEnv(x) == LET a == TLCEval([i \in 1..R(1..3) |-> M("a" \o ToString(i), IntLeaf(i))])
                 b == TLCEval([i \in 1..R(2..4) |-> M("b" \o ToString(i), IF R(1..5) = 1 THEN RefT("S1") ELSE IF R(1..8) = 1 THEN P(RefT("S1")) ELSE Leaf(i))])
             IN  [S1 |-> a, S2 |-> b]
(* what the calling convention lets a capture take by value: see the known findings *)
RECURSIVE Leaves(_)
Leaves(t) == CASE t.k \in {"s", "u"} -> UNION {Leaves(t.m[i].of) : i \in 1..Len(t.m)} [] t.k \in {"a", "t", "q"} -> Leaves(t.of) [] OTHER -> {t}
IntClass(t) == t.k \in {"p", "e"} \/ (t.k = "b" /\ t.n \in SmallInts)
ByVal(t) == LET ls == Leaves(t) IN Align(t) < 16 /\ (Size(t) > 16 \/ \A l \in ls : IntClass(l))
FnT == F(B("int"), <<M("", B("int"))>>)
GenT(e, d) ==
    LET r == R(1..30) IN
    CASE r \in 1..9 -> B(R(AllBases))
      [] r = 10 -> En(R({1, 2, 4, 8}))
      [] r \in 11..13 -> LET n == R({"S1", "S2"}) IN IF ByVal(Ex(e, RefT(n))) THEN RefT(n) ELSE P(RefT(n))
      [] r = 14 -> U("U1", <<M("ua", B("int")), M("ub", A(6, B("char")))>>)
      [] r \in 15..16 -> P(B(R(AllBases)))
      [] r \in 17..18 -> P(RefT(R({"S1", "S2"})))
      [] r = 19 -> P(P(B(R(AllBases))))
      [] r = 20 -> P(R({Void, Q("const", Void), D("Decl", "s")}))
      [] r = 21 -> P(FnT)
      [] r = 22 -> Q("const", B(R(AllBases)))
      [] r = 23 -> T("td1", B("uint"))
      [] r = 24 -> P(Q("const", RefT("S2")))
      [] r = 25 -> P(A(2, B("short")))
      [] r = 26 -> IF R(1..6) = 1 THEN B("schar") ELSE T("td1", B("uint"))
      [] r = 27 -> Q("volatile", P(B("int")))
      [] r = 28 -> T("td2", P(RefT("S1")))
      [] OTHER -> B(R({"int", "double", "long", "float"}))
PN(i) == "p" \o ToString(i)
VaL == [k |-> "l"]     \* va_list
VaE == [k |-> "x"]     \* the ellipsis
(* many arguments, more than registers hold *)
FlatT(e, i) == LET r == R(1..8) IN CASE r <= 4 -> B(R(AllBases)) [] r <= 6 -> En(R({1, 2, 4, 8})) [] OTHER -> GenT(e, i)
FlatPs(e) == LET n == R(6..14) IN TLCEval([i \in 1..n |-> Par(PN(i), FlatT(e, i), "none", "")])
GenPs(e) == IF Only = "flat" THEN FlatPs(e) ELSE
    LET n == R(0..7)
        base == TLCEval([i \in 1..n |-> Par(PN(i), GenT(e, i), "none", "")])
        cntI == R(1..8) cntJ == R(1..8)
        withCount == IF cntI <= n /\ cntJ <= n /\ cntI # cntJ
                     THEN [base EXCEPT ![cntI] = Par(PN(cntI), P(IF R(1..2) = 1 THEN B(R(AllBases)) ELSE RefT("S1")), "count", IF R(1..8) = 1 THEN "nosuch" ELSE PN(cntJ)),
                                       ![cntJ] = Par(PN(cntJ), B(R(IntNames)), "none", "")]
                     ELSE base
        zsI == R(1..10)
        withZs == IF zsI <= n /\ withCount[zsI].an = "none" /\ ~(\E i \in 1..n : withCount[i].s = PN(zsI)) THEN [withCount EXCEPT ![zsI] = Par(PN(zsI), P(IF R(1..3) = 1 THEN Q("const", B("char")) ELSE B("char")), "zs", "")] ELSE withCount
        v == R(1..5)
        fmt == Par("fmt", P(IF R(1..3) = 1 THEN Q("const", B("char")) ELSE B("char")), "zs", "")
        va == IF R(1..8) = 1 THEN "none" ELSE "va"
    IN  CASE v = 1 /\ n <= 6 -> withZs \o <<fmt, Par("...", VaE, va, "fmt")>>
          [] v = 2 /\ n >= 1 /\ n <= 6 -> LET k == R(1..n) IN SubSeq(withZs, 1, k - 1) \o <<fmt, Par("vl", VaL, va, "fmt")>> \o SubSeq(withZs, k, n)
          [] OTHER -> withZs

(* the parameters of a function type have no names: no sibling can be found *)
Nameless(kind, ps) == IF kind = "g" THEN ps ELSE [i \in 1..Len(ps) |-> IF ps[i].an = "count" THEN [ps[i] EXCEPT !.s = "nosuch"] ELSE ps[i]]

(* random values; blocks are collected next to them: [v, bs] *)
RECURSIVE GenV(_, _, _), GenVs(_, _, _, _)
NumOf(t) == Num(IF t.k = "b" /\ t.n = "bool" THEN R(0..1) ELSE IF t.k = "e" THEN R(0..3) ELSE R(0..4))
GenVs(e, ts, id, i) == IF i > Len(ts) THEN [vs |-> <<>>, bs |-> <<>>]
                       ELSE LET a == TLCEval(GenV(e, ts[i], id \o "x" \o ToString(i))) b == GenVs(e, ts, id, i + 1) IN [vs |-> <<a.v>> \o b.vs, bs |-> a.bs @@ b.bs]
Rep(t, n) == [i \in 1..n |-> t]
Block(e, t, n, id) == LET c == GenVs(e, Rep(t, n), id, 1) IN [v |-> Blk(id), bs |-> (id :> [t |-> t, es |-> c.vs, own |-> FALSE]) @@ c.bs]
GenV(e, t0, id) ==
    LET t == Core0(e, t0) IN
    CASE t.k \in {"b", "e"} -> [v |-> NumOf(t), bs |-> <<>>]
      [] t.k = "s" -> LET c == GenVs(e, [i \in 1..Len(t.m) |-> t.m[i].of], id, 1) IN [v |-> St(c.vs), bs |-> c.bs]
      [] t.k = "u" -> [v |-> Uni(R(0..4)), bs |-> <<>>]
      [] t.k = "a" -> LET c == GenVs(e, Rep(t.of, t.c), id, 1) IN [v |-> Arr(c.vs), bs |-> c.bs]
      [] t.k = "p" -> IF R(1..5) = 1 THEN [v |-> Nil, bs |-> <<>>]
                      ELSE IF Unknown(t) \/ IsFn(t.of) THEN [v |-> Raw(R(1..5)), bs |-> <<>>]
                      ELSE Block(e, t.of, 1, id)
GenStr(id) == LET n == R(0..4)
                  es == TLCEval([i \in 1..(n + 1) |-> IF i = n + 1 THEN Num(0) ELSE IF R(1..12) = 1 THEN Num(2) ELSE Num(R({1, 3, 4}))])
              IN  (id :> [t |-> B("char"), es |-> es, own |-> FALSE])
GenConvs(x) == [i \in 1..R(0..4) |-> R(1..Len(Convs))]
GenVa(e, cs, id) ==
    LET item(i) == LET c == Convs[cs[i]] j == id \o "v" \o ToString(i) IN
                   IF c.t.k = "str" THEN (IF R(1..6) = 1 THEN [t |-> P(B("char")), v |-> Nil, bs |-> <<>>] ELSE [t |-> c.t, v |-> Blk(j), bs |-> GenStr(j)])
                   ELSE LET g == TLCEval(GenV(e, c.t, j)) IN [t |-> c.t, v |-> g.v, bs |-> g.bs]
        its == TLCEval([i \in 1..Len(cs) |-> TLCEval(item(i))])
        RECURSIVE All(_)
        All(i) == IF i > Len(its) THEN <<>> ELSE its[i].bs @@ All(i + 1)
    IN  [v |-> Va([i \in 1..Len(its) |-> [t |-> its[i].t, v |-> its[i].v]]), bs |-> All(1)]
(* arguments for a signature; k names the set *)
RECURSIVE GenArgs(_, _, _, _, _, _)
GenArgs(e, ps, k, i, cs, bad) ==
    IF i > Len(ps) THEN [vs |-> <<>>, bs |-> <<>>]
    ELSE LET p == ps[i]
             id == k \o p.n
             counter == \E j \in 1..Len(ps) : ps[j].s = p.n
             counted == p.an = "count"
             g == TLCEval(
                  CASE p.n = "fmt" -> [v |-> Fmt(id), bs |-> (id :> [t |-> B("char"), es |-> <<>>, own |-> FALSE, cs |-> cs, bad |-> bad])]
                    [] p.of.k \in {"x", "l"} -> GenVa(e, cs, k \o "va")
                    [] p.an = "zs" -> IF R(1..6) = 1 THEN [v |-> Nil, bs |-> <<>>] ELSE [v |-> Blk(id), bs |-> GenStr(id)]
                    [] counted -> IF R(1..8) = 1 THEN [v |-> Nil, bs |-> <<>>] ELSE Block(e, p.of.of, 3, id)
                    [] counter /\ p.of.n = "bool" -> [v |-> Num(R(0..1)), bs |-> <<>>]
                    [] counter -> [v |-> Num(IF R(1..9) = 1 /\ p.of.n \in {"short", "int", "long", "llong", "char"} THEN 2 ELSE R(100..103)), bs |-> <<>>]
                    [] OTHER -> GenV(e, p.of, id))
             r == GenArgs(e, ps, k, i + 1, cs, bad)
         IN  [vs |-> <<g.v>> \o r.vs, bs |-> g.bs @@ r.bs]
(* a second set like the first one: same values, blocks of its own *)
RECURSIVE Ren(_, _)
Ren(v, k) == CASE v.v \in {"ptr", "fmt"} -> [v EXCEPT !.id = k \o v.id] [] v.v = "st" -> [v EXCEPT !.m = [i \in 1..Len(v.m) |-> Ren(v.m[i], k)]]
               [] v.v = "arr" -> [v EXCEPT !.es = [i \in 1..Len(v.es) |-> Ren(v.es[i], k)]]
               [] v.v = "va" -> [v EXCEPT !.es = [i \in 1..Len(v.es) |-> [v.es[i] EXCEPT !.v = Ren(v.es[i].v, k)]]] [] OTHER -> v
Twin(e, ps, as, bs, k) == [vs |-> [i \in 1..Len(as) |-> Ren(as[i], k)],
                           bs |-> [id \in {k \o x : x \in DOMAIN bs} |-> LET x == bs[CHOOSE y \in DOMAIN bs : k \o y = id] IN [x EXCEPT !.es = [i \in 1..Len(x.es) |-> Ren(x.es[i], k)]]]]

(* ------------------------------------------------------------ behaviour *)
Res(op, a, b, m, map, res, x) == [op |-> op, a |-> a, b |-> b, m |-> m, map |-> map, res |-> res, x |-> x]
Log(x) == last' = x /\ hist' = Append(hist, x)
Null == [S1 |-> <<>>, S2 |-> <<>>]
Init == env = Null /\ sig = [kind |-> "", ps |-> <<>>] /\ sets = <<<<>>, <<>>>> /\ mem = <<>> /\ slots = <<>> /\ last = Res("none", 0, 0, "", FALSE, "", <<>>) /\ hist = <<>>
Setup ==
    \E e \in {GenEnv(hist)} : \E kind \in {IF R(1..4) = 1 THEN "t" ELSE "g"} : \E ps \in {Nameless(kind, GenPs(e))} : \E cs \in {TLCEval(GenConvs(hist))} : \E bad \in {R(1..10) = 1} :
    \E a \in {GenArgs(e, ps, "a", 1, cs, bad)} : \E b \in {IF R(1..2) = 1 THEN Twin(e, ps, a.vs, a.bs, "b") ELSE GenArgs(e, ps, "b", 1, IF R(1..2) = 1 THEN cs ELSE TLCEval(GenConvs(ps)), FALSE)} :
      /\ Only \in {"", "flat"} \/ \E i \in 1..Len(ps) : ps[i].an = Only
      /\ env' = e /\ sig' = [kind |-> kind, ps |-> ps]
      /\ sets' = <<a.vs, b.vs>> /\ mem' = a.bs @@ b.bs /\ UNCHANGED <<slots, last>>
      /\ hist' = <<[env |-> e, sig |-> sig', sets |-> sets', mem |-> mem', convs |-> Convs,
                    types |-> [i \in 1..Len(ps) |-> IF ps[i].of.k \in {"x", "l"} THEN <<>> ELSE TypeName(Ref2(e, ps[i].of))]]>>

HasVa == \E i \in 1..Len(sig.ps) : sig.ps[i].of.k \in {"x", "l"}
Unsupported == \E i \in 1..Len(sig.ps) : sig.ps[i].of.k \notin {"x", "l"} /\ Core0(env, sig.ps[i].of) = B("schar")
BadFmt(k) == \E i \in 1..Len(sig.ps) : sig.ps[i].n = "fmt" /\ sig.ps[i + 1].an = "va" /\ mem[sets[k][i].id].bad
(* what a capture takes over: strings behind an ellipsis are taken over whole *)
Take(v, an) == IF v.v # "va" THEN v
           ELSE IF an = "none" THEN Va(<<>>)
           ELSE Va([j \in 1..Len(v.es) |-> IF v.es[j].t.k = "str" THEN LET es == mem[v.es[j].v.id].es n == Chars(es, 1) IN [t |-> A(n, B("char")), v |-> Arr(SubSeq(es, 1, n))]
                                           ELSE v.es[j]])
Capture(k, map) ==
    /\ UNCHANGED <<env, sig, sets, mem>>
    /\ IF Unsupported \/ (HasVa /\ (~map \/ BadFmt(k))) THEN UNCHANGED slots /\ Log(Res("cap", k, 0, "", map, "refused", <<>>))
       ELSE /\ slots' = Append(slots, [args |-> [i \in 1..Len(sets[k]) |-> Take(sets[k][i], sig.ps[i].an)], live |-> TRUE, own |-> FALSE])
            /\ Log(Res("cap", k, Len(slots) + 1, "", map, "ok", slots'[Len(slots) + 1].args))
W(s, map) == Views(env, mem, sig.ps, slots[s].args, map)
Render(s, deep, map) == LET x == Text(env, sig, W(s, map), deep) IN
    UNCHANGED <<env, sig, sets, mem, slots>> /\ Log(Res("show", s, IF deep THEN 1 ELSE 0, "", map, IF x = <<"!">> THEN "none" ELSE "text", x))
List(s) == UNCHANGED <<env, sig, sets, mem, slots>> /\ Log(Res("list", s, 0, "", FALSE, "ok", slots[s].args))
CopyTo(s, m, map) ==
    IF Refused(W(s, map), m) \/ Fixed(W(s, map)) THEN UNCHANGED <<env, sig, sets, mem, slots>> /\ Log(Res("copy", s, 0, m, map, "fail", <<>>))
    ELSE LET c == CopyS(W(s, map), "c" \o ToString(Len(slots) + 1), 1) IN
         /\ slots' = Append(slots, [args |-> c.vs, live |-> TRUE, own |-> TRUE, map |-> map, m |-> m]) /\ mem' = c.bs @@ mem /\ UNCHANGED <<env, sig, sets>>
         /\ Log(Res("copy", s, Len(slots) + 1, m, map, "ok", [args |-> c.vs, bs |-> c.bs]))
(* a storage that holds a call already is no destination *)
Onto(s, t) == UNCHANGED <<env, sig, sets, mem, slots>> /\ Log(Res("onto", s, t, "lenient", TRUE, "fail", slots[t].args))
Compare(s, t, m, map) ==
    LET a == W(s, map) b == W(t, map) IN
    /\ UNCHANGED <<env, sig, sets, mem, slots>>
    /\ Log(Res("eq", s, t, m, map, IF Refused(a, m) \/ Refused(b, m) THEN "error" ELSE IF EqN(a, b, mem, map) THEN "1" ELSE "0", <<>>))
Owned(s) == {p.id : p \in {q \in AllParts(W(s, slots[s].map)) : q.w \in {"ptr", "fmt"}}}
Drop(s) ==
    /\ slots' = [slots EXCEPT ![s].live = FALSE] /\ UNCHANGED <<env, sig, sets, mem>>
    /\ Log(Res("drop", s, 0, "", FALSE, "ok", IF slots[s].own THEN Cardinality(Owned(s)) ELSE 0))
(* the caller changes a variable it passed, or memory it passed the address of *)
PokeVar(k, i) ==
    LET t == Core0(env, sig.ps[i].of) IN
    \E x \in {NumOf(t)} : /\ sets' = [sets EXCEPT ![k][i] = x] /\ UNCHANGED <<env, sig, mem, slots>> /\ Log(Res("pokevar", k, i, "", FALSE, "", x))
PokeMem(id, i) ==
    \E x \in {NumOf(mem[id].t)} : /\ mem' = [mem EXCEPT ![id].es[i] = x] /\ UNCHANGED <<env, sig, sets, slots>> /\ Log(Res("pokemem", 0, i, "", FALSE, id, x))
Lives == {s \in 1..Len(slots) : slots[s].live}
Pokable == {id \in DOMAIN mem : ~mem[id].own /\ Len(mem[id].es) > 0 /\ mem[id].t.k = "b" /\ mem[id].t.n # "char"}
(* caller's variables that are numbers, but no counters *)
Vars(k) == {i \in 1..Len(sig.ps) : sets[k][i].v = "num" /\ ~(\E j \in 1..Len(sig.ps) : sig.ps[j].s = sig.ps[i].n)}
RMode(x) == R({"strict", "lenient", "lenient"})
Step(op) ==
    IF op = "cap" \/ Lives = {} THEN (IF Len(slots) < 6 THEN \E k \in {R(1..2)} : \E map \in {R(1..6) # 1} : Capture(k, map) ELSE Log(Res("nop", 0, 0, "", FALSE, "", <<>>)) /\ UNCHANGED <<env, sig, sets, mem, slots>>)
    ELSE \E s \in {R(Lives)} : \E t \in {R(Lives)} : \E map \in {slots[s].own \/ slots[t].own \/ R(1..5) # 1} : \E m \in {RMode(hist)} :
         CASE op = "show" -> \E deep \in {R(1..4) # 1} : Render(s, deep, map)
           [] op = "list" -> List(s)
           [] op = "copy" -> IF Len(slots) < 6 THEN CopyTo(s, m, TRUE) ELSE Compare(s, t, m, map)
           [] op = "onto" -> IF s # t /\ sig.ps # <<>> THEN Onto(s, t) ELSE List(s)
           [] op = "eq" -> Compare(s, t, m, map)
           [] op = "drop" -> Drop(s)
           [] op = "pokevar" -> \E k \in {R(1..2)} : IF Vars(k) = {} THEN List(s) ELSE \E i \in {R(Vars(k))} : PokeVar(k, i)
           [] op = "pokemem" -> IF Pokable = {} THEN List(s) ELSE \E id \in {R(Pokable)} : \E i \in {R(1..Len(mem[id].es))} : PokeMem(id, i)
Next == IF hist = <<>> THEN Setup ELSE \E op \in {Mix[R(1..Len(Mix))]} : Step(op)

(* ----------------------------------------------------------- properties *)
(* a call is captured as passed, and stays so whatever the caller does to its variables *)
AsPassed == last.op = "cap" /\ last.res = "ok" => \A i \in 1..Len(sig.ps) : sig.ps[i].of.k \notin {"x", "l"} => slots[last.b].args[i] = sets[last.a][i]
CopyEqual == last.op = "copy" /\ last.res = "ok" => EqN(W(last.a, last.map), W(last.b, last.map), mem, last.map)
CopyFresh == last.op = "copy" /\ last.res = "ok" => \A id \in Owned(last.b) : mem[id].own
Symmetric == last.op = "eq" /\ last.res # "error" => (last.res = "1") = EqN(W(last.b, last.map), W(last.a, last.map), mem, last.map)
Reflexive == last.op = "eq" /\ last.res # "error" => EqN(W(last.a, last.map), W(last.a, last.map), mem, last.map)
SimEmit == Len(hist) = SimDepth => CSVWrite("%1$s", <<ToJson(hist)>>, EmitFile)
=============================================================================
