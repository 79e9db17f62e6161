------------------------------- MODULE Units -------------------------------
(* C programs of several translation units, built declaration by             *)
(* declaration, and what reflection data has to say about them: every object *)
(* with its scope, line and type, every type with the layout C gives it      *)
(* (System V x86-64, bit-fields included), and what a declaration location   *)
(* finds.  Types that are defined somewhere are referred to by index, so     *)
(* that equal names in different scopes and units stay different types:      *)
(*  [k "r", i]  the type defs[i]   (the other forms are those of CTypes)     *)
EXTENDS CTypes, Json, CSV
CONSTANTS EmitFile, Steps, NUnits

VARIABLES defs,    \* type definitions of all units
          objs,    \* variables, functions and parameters
          locs,    \* declaration locations
          scopes,  \* [u, up, k]: file, fn, blk
          cur,     \* innermost open scope
          ln,      \* current line of the current unit
          evs,     \* per unit: what is written, in order
          left, done
vars == <<defs, objs, locs, scopes, cur, ln, evs, left, done>>

Ref(i) == [k |-> "r", i |-> i]
Unit == Len(evs)
RECURSIVE UpTo(_)
UpTo(s) == IF s = 0 THEN {} ELSE {s} \cup UpTo(scopes[s].up)
Chain == UpTo(cur)
IsFile == scopes[cur].k = "file"

(* ---------------------------------------------------------------- layout *)
RECURSIVE Fin(_, _), Cmpl(_, _), Flex(_, _), Sz(_, _), Al(_, _), LayS(_, _, _, _, _, _), LayU(_, _, _, _)
Fin(Dx, t) == IF t.k = "q" THEN Fin(Dx, t.of)
             ELSE IF t.k = "r" /\ Dx[t.i].k = "t" THEN Fin(Dx, Dx[t.i].of) ELSE t
(* complete object type *)
Cmpl(Dx, t) == CASE t.k \in {"b", "p"} -> TRUE [] t.k = "q" -> Cmpl(Dx, t.of)
                [] t.k = "a" -> t.c >= 0 /\ Cmpl(Dx, t.of)
                [] t.k = "r" -> (Dx[t.i].k \in {"s", "u", "e"} \/ (Dx[t.i].k = "t" /\ Cmpl(Dx, Dx[t.i].of)))
                [] OTHER -> FALSE
(* ends in a flexible array *)
Flex(Dx, t) == LET f == Fin(Dx, t) IN f.k = "r" /\ Dx[f.i].fx
Sz(Dx, t) == CASE t.k = "b" -> BaseSize[t.n] [] t.k = "p" -> 8 [] t.k = "q" -> Sz(Dx, t.of)
              [] t.k = "a" -> IF t.c < 0 THEN 0 ELSE t.c * Sz(Dx, t.of)
              [] t.k = "r" -> IF Dx[t.i].k = "t" THEN Sz(Dx, Dx[t.i].of) ELSE Dx[t.i].l.z
              [] OTHER -> 0
Al(Dx, t) == CASE t.k = "b" -> BaseAlign[t.n] [] t.k = "p" -> 8 [] t.k \in {"q", "a"} -> Al(Dx, t.of)
              [] t.k = "r" -> IF Dx[t.i].k = "t" THEN Al(Dx, Dx[t.i].of) ELSE Dx[t.i].l.al
              [] OTHER -> 1
(* bit offsets of the members from number j on, the first free bit being pos; a bit-field does not cross a unit of its type *)
LayS(Dx, pk, m, j, pos, al) ==
    IF j > Len(m) THEN [o |-> <<>>, pos |-> pos, al |-> al]
    ELSE LET a == Max(m[j].al, IF pk = 1 THEN 1 ELSE Al(Dx, m[j].of))
             tb == 8 * Sz(Dx, m[j].of)
             w == m[j].w
             p0 == IF w < 0 THEN Up(pos, 8 * a) ELSE IF w = 0 THEN Up(pos, tb)
                   ELSE IF pk = 0 /\ pos \div tb # (pos + w - 1) \div tb THEN Up(pos, tb) ELSE pos
             rest == LayS(Dx, pk, m, j + 1, p0 + (IF w < 0 THEN tb ELSE w), IF w >= 0 /\ m[j].n = "" THEN al ELSE Max(al, a))
         IN  [rest EXCEPT !.o = <<p0>> \o @]
LayU(Dx, pk, m, j) ==
    IF j > Len(m) THEN [o |-> <<>>, pos |-> 0, al |-> 1]
    ELSE LET rest == LayU(Dx, pk, m, j + 1)
             b == IF m[j].w < 0 THEN 8 * Sz(Dx, m[j].of) ELSE m[j].w
         IN  [o |-> <<0>> \o rest.o, pos |-> Max(b, rest.pos), al |-> Max(m[j].al, IF pk = 1 THEN rest.al ELSE Max(rest.al, Al(Dx, m[j].of)))]
(* aa: the alignment asked for by an attribute *)
Lay(Dx, k, pk, m, aa) == LET r == IF k = "s" THEN LayS(Dx, pk, m, 1, 0, 1) ELSE LayU(Dx, pk, m, 1)
                             al == Max(aa, r.al)
                         IN  [z |-> Up(Up(r.pos, 8), 8 * al) \div 8, al |-> al, o |-> r.o]

Def(k, n, line) == [u |-> Unit, sc |-> cur, k |-> k, n |-> n, m |-> <<>>, v |-> <<>>, of |-> Void, pk |-> 0, aa |-> 0, fx |-> FALSE,
                    ln |-> line, l |-> [z |-> 0, al |-> 1, o |-> <<>>]]
Aggr(Dx, k, n, pk, m, aa, line) ==
    [Def(k, n, line) EXCEPT !.m = m, !.pk = pk, !.aa = aa, !.l = Lay(Dx, k, pk, m, aa),
        !.fx = m # <<>> /\ ((m[Len(m)].of.k = "a" /\ m[Len(m)].of.c < 0) \/ (\E j \in 1..Len(m) : Flex(Dx, m[j].of)))]

(* ------------------------------------------------------------ visibility *)
Cls(k) == IF k = "t" THEN "t" ELSE "tag"
Seen(Dx) == {i \in 1..Len(Dx) : Dx[i].n # "" /\ Dx[i].u = Unit /\ Dx[i].sc \in Chain}
Visible(Dx) == {i \in Seen(Dx) : ~\E j \in Seen(Dx) : j > i /\ Cls(Dx[j].k) = Cls(Dx[i].k) /\ Dx[j].n = Dx[i].n}
Taken(c) == {defs[i].n : i \in {j \in 1..Len(defs) : defs[j].u = Unit /\ defs[j].sc = cur /\ Cls(defs[j].k) = c}}
FreeTags == {"A", "B", "C", "D"} \ Taken("tag")
FreeTypedefs == {"T1", "T2", "T3"} \ Taken("t")
FreeNames == {"x", "y", "z"} \ {objs[i].n : i \in {j \in 1..Len(objs) : objs[j].u = Unit /\ objs[j].sc = cur}}

(* ------------------------------------------------------ random types *)
(* structures, unions, enumerations and typedefs that may be part of an object *)
Parts(Dx) == {i \in Visible(Dx) : Cmpl(Dx, Ref(i)) /\ ~Flex(Dx, Ref(i))}
RECURSIVE GenO(_, _), GenP(_, _), GenPs(_, _)
Base(x) == B(R(BaseNames))
GenO(Dx, d) ==
    LET r == R(1..16) IN
    IF Parts(Dx) # {} /\ r <= 6 THEN Ref(R(Parts(Dx)))
    ELSE IF d = 0 \/ r <= 9 THEN Base(r)
    ELSE CASE r \in 10..11 -> A(R({0, 1, 2, 3, 7}), GenO(Dx, d - 1))
           [] r \in 12..14 -> P(GenP(Dx, d - 1))
           [] OTHER -> LET t == GenO(Dx, d - 1) IN IF Fin(Dx, t).k = "a" THEN t ELSE IF t.k = "q" THEN t ELSE Q(R({"const", "volatile"}), t)
(* what a parameter or result may be; gcc makes up a type for a result whose typedefs hide a qualifier *)
RECURSIVE Hides(_, _)
Hides(Dx, t) == CASE t.k \in {"q", "a"} -> TRUE [] t.k = "r" -> Dx[t.i].k = "t" /\ Hides(Dx, Dx[t.i].of) [] OTHER -> FALSE
Plain(Dx) == {i \in Parts(Dx) : LET t == Dx[i] IN t.k \in {"s", "u", "e"} \/ (t.k = "t" /\ ~Hides(Dx, t.of))}
GenV(Dx, d) == LET r == R(1..6) IN
              IF r <= 2 /\ Plain(Dx) # {} THEN Ref(R(Plain(Dx))) ELSE IF r <= 4 THEN Base(r) ELSE P(GenP(Dx, d))
GenPs(Dx, n) == IF n = 0 THEN <<>> ELSE <<M("", GenV(Dx, 0))>> \o GenPs(Dx, n - 1)
GenF(Dx, d) == LET n == R(0..2) ps == GenPs(Dx, n) IN
              F(IF R(1..3) = 1 THEN Void ELSE GenV(Dx, 0), IF n > 0 /\ R(1..4) = 1 THEN Append(ps, M("...", Void)) ELSE ps)
GenP(Dx, d) == LET r == R(1..12) IN
              CASE r = 1 -> Void
                [] r = 2 -> Q("const", Void)
                [] r = 3 -> GenF(Dx, 0)
                [] r = 4 /\ Visible(Dx) # {} -> Ref(R(Visible(Dx)))
                [] r = 5 -> A(R({-1, 2}), GenO(Dx, 0))
                [] OTHER -> GenO(Dx, d)
BitTypes == {"char", "uchar", "schar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "bool"}
Mb(n, t, w) == [n |-> n, of |-> t, w |-> w, al |-> 0]
(* member j of n; an anonymous aggregate, if given, becomes the first *)
RECURSIVE GenMs(_, _, _, _, _, _)
GenMs(Dx, su, pk, self, anon, jn) ==
    LET j == jn[1] n == jn[2] nm == "m" \o ToString(j) r == R(1..20) IN
    IF j > n THEN <<>>
    ELSE <<IF j = 1 /\ anon > 0 THEN Mb(IF Dx[anon].k \in {"s", "u"} /\ R(1..2) = 1 THEN "" ELSE nm, Ref(anon), -1)
           ELSE IF r <= 6 THEN
               LET b == R(BitTypes) mx == IF b = "bool" THEN 1 ELSE 8 * BaseSize[b] w == R({1, 2, 3, 5, 7, 8, 13, 24, 31, 33, 60})
                   ww == IF w > mx THEN mx ELSE w x == R(1..8)
               IN  IF su = "s" /\ j > 1 /\ x = 1 /\ pk = 0 THEN Mb("", B(b), 0)
                   ELSE IF su = "s" /\ j > 1 /\ x = 2 THEN Mb("", B(b), ww) ELSE Mb(nm, B(b), ww)
           ELSE IF r <= 8 /\ self > 0 THEN Mb(nm, P(IF R(1..3) = 1 THEN Q("const", Ref(self)) ELSE Ref(self)), -1)
           ELSE IF r = 9 /\ j = n /\ j > 1 /\ su = "s" THEN Mb(nm, A(-1, GenO(Dx, 0)), -1)
           ELSE IF r = 10 THEN [Mb(nm, GenO(Dx, 1), -1) EXCEPT !.al = R({1, 2, 4, 8, 16, 64})]
           ELSE Mb(nm, GenO(Dx, 2), -1)>> \o GenMs(Dx, su, pk, self, anon, <<j + 1, n>>)
EVals(style, n, pre) ==
    LET v(i) == ToString(CASE style \in {1, 4} -> R({-3, -1, 0, 1, 7, 100}) [] style \in {2, 3} -> R({0, 1, 128, 255, 65535}) [] OTHER -> R({-200, -1, 0, 128, 255}))
        last == CASE style = 2 -> "4294967295" [] style = 3 -> "8589934592" [] style = 5 -> "300" [] style = 6 -> "-8589934592" [] OTHER -> v(0)
    IN  [i \in 1..n |-> [n |-> pre \o "_" \o ToString(i), v |-> IF i = n THEN last ELSE v(i)]]
EStyleSize == <<4, 4, 8, 1, 2, 8>>
GenE(Dx, n, pre, line) ==
    LET s == R(1..6) z == EStyleSize[s] IN
    [Def("e", n, line) EXCEPT !.v = TLCEval(EVals(s, IF R(1..6) = 1 THEN R({10, 11, 30}) ELSE R(1..3), pre)), !.pk = IF s \in {4, 5} THEN 1 ELSE 0, !.l = [z |-> z, al |-> z, o |-> <<>>]]
(* a structure or union (k) named n put into Dx, with an anonymous one it may contain; while it is written its name *)
(* already hides those of the enclosing scopes.  self > 0: it was declared before, as Dx[self].  Result: <<Dx, index>> *)
GenA(Dx, k, n, self, line) ==
    LET me == IF self > 0 THEN self ELSE IF n = "" THEN 0 ELSE Len(Dx) + 1
        D0 == IF me > Len(Dx) THEN Append(Dx, [Def("d", n, line) EXCEPT !.v = k]) ELSE Dx
        inner == R(1..4) = 1
        ak == R({"s", "u", "e"})
        an == IF ak = "e" THEN GenE(D0, "", "z" \o ToString(Len(D0) + 1), line)
              ELSE Aggr(D0, ak, "", 0, TLCEval(GenMs(D0, ak, 0, 0, 0, <<1, R(1..3)>>)), 0, line)
        an2 == IF ak = "e" THEN an ELSE [an EXCEPT !.m = [j \in 1..Len(an.m) |-> IF an.m[j].n = "" THEN an.m[j] ELSE [an.m[j] EXCEPT !.n = "a" \o @]]]
        D1 == IF inner /\ ~an.fx THEN Append(D0, an2) ELSE D0
        pk == IF R(1..4) = 1 THEN 1 ELSE 0
        d == Aggr(D1, k, n, pk, TLCEval(GenMs(D1, k, pk, me, IF Len(D1) > Len(D0) THEN Len(D1) ELSE 0, <<1, IF R(1..8) = 1 THEN R({10, 12}) ELSE R(0..5)>>)), IF R(1..6) = 1 THEN R({2, 8, 16, 32}) ELSE 0, line)
    IN  IF me > 0 THEN <<[D1 EXCEPT ![me] = d], me>> ELSE <<Append(D1, d), Len(D1) + 1>>
SU(x) == IF R(1..4) = 1 THEN "u" ELSE "s"

(* ------------------------------------------------------------- actions *)
Put(e) == evs' = [evs EXCEPT ![Unit] = Append(@, e)]
Ev(ev, i, line) == [ev |-> ev, i |-> i, ln |-> line]
Obj(k, n, t, line) == [u |-> Unit, sc |-> cur, k |-> k, n |-> n, of |-> t, ps |-> <<>>, ln |-> line, stc |-> FALSE, link |-> FALSE, own |-> 0]
Tick(line) == ln' = line /\ left' = left - 1 /\ UNCHANGED done
Same(v) == UNCHANGED v

DefTag(line) ==
    \E n \in {R(FreeTags)} : \E g \in {IF R(1..4) = 1 THEN <<Append(defs, GenE(defs, n, n, line)), Len(defs) + 1>> ELSE GenA(defs, SU(line), n, 0, line)} :
        /\ defs' = g[1] /\ Put(Ev("def", g[2], line)) /\ Tick(line) /\ Same(<<objs, locs, scopes, cur>>)
Forward(line) ==
    \E n \in {R(FreeTags)} : \E k \in {R({"s", "u"})} :
        /\ defs' = Append(defs, [Def("d", n, line) EXCEPT !.v = k]) /\ Put(Ev("fwd", Len(defs) + 1, line)) /\ Tick(line) /\ Same(<<objs, locs, scopes, cur>>)
Pending == {i \in Visible(defs) : defs[i].k = "d" /\ defs[i].sc = cur}
Complete(line) ==
    \E i \in {R(Pending)} : \E g \in {GenA(defs, defs[i].v, defs[i].n, i, line)} :
        /\ defs' = g[1] /\ Put(Ev("def", i, line)) /\ Tick(line) /\ Same(<<objs, locs, scopes, cur>>)
Typedef(line) ==
    \E n \in {R(FreeTypedefs)} : \E r \in {R(1..5)} :
    \E g \in {CASE r = 1 -> GenA(defs, SU(line), "", 0, line) [] r = 2 -> <<Append(defs, GenE(defs, "", n, line)), Len(defs) + 1>> [] OTHER -> <<defs, 0>>} :
    \E t \in {IF r <= 2 THEN Ref(g[2]) ELSE GenP(defs, 2)} :
        /\ defs' = Append(g[1], [Def("t", n, line) EXCEPT !.of = t]) /\ Put(Ev("def", Len(g[1]) + 1, line)) /\ Tick(line) /\ Same(<<objs, locs, scopes, cur>>)

(* a definition repeated in another unit or scope, with what is visible there, perhaps slightly changed *)
RECURSIVE Anons(_), MapT(_, _, _), Mut(_)
Anons(t) == CASE t.k = "r" -> IF defs[t.i].n = "" THEN {t.i} ELSE {}
              [] t.k \in {"p", "a", "q"} -> Anons(t.of) [] OTHER -> {}
AnonsOf(d) == UNION ({Anons(d.m[j].of) : j \in 1..Len(d.m)} \cup {Anons(d.of)})
Others(i) == {j \in Visible(defs) : defs[j].n = defs[i].n /\ Cls(defs[j].k) = Cls(defs[i].k)}
(* references to j (the copied one) become me; anonymous an becomes am *)
MapT(t, j, x) ==
    CASE t.k = "r" -> IF t.i = j THEN Ref(x[1]) ELSE IF defs[t.i].n = "" THEN Ref(x[2]) ELSE Ref(CHOOSE o \in Others(t.i) : TRUE)
      [] t.k \in {"p", "a", "q"} -> [t EXCEPT !.of = MapT(@, j, x)]
      [] t.k = "f" -> [t EXCEPT !.of = MapT(@, j, x), !.ps = [q \in 1..Len(@) |-> [@[q] EXCEPT !.of = MapT(@, j, x)]]]
      [] OTHER -> t
RECURSIVE Refs(_)
Refs(t) == CASE t.k = "r" -> {t.i} [] t.k \in {"p", "a", "q"} -> Refs(t.of)
             [] t.k = "f" -> Refs(t.of) \cup UNION {Refs(t.ps[q].of) : q \in 1..Len(t.ps)} [] OTHER -> {}
RefsOf(d) == UNION ({Refs(d.m[j].of) : j \in 1..Len(d.m)} \cup {Refs(d.of)})
Twin(n) == LET s == {b \in BaseNames : BaseSize[b] = BaseSize[n] /\ BaseAlign[b] = BaseAlign[n]} IN R(s)
Mut(t) == CASE t.k = "b" -> B(Twin(t.n)) [] t.k = "p" -> IF R(1..3) = 1 /\ t.of.k \notin {"f", "a", "q"} THEN P(Q("const", t.of)) ELSE P(Mut(t.of))
            [] t.k = "a" -> IF R(1..3) = 1 /\ t.c > 1 THEN A(t.c - 1, t.of) ELSE A(t.c, Mut(t.of)) [] t.k = "q" -> Q(t.q, Mut(t.of)) [] OTHER -> t
MutM(m) == LET r == R(1..5) j == R(1..Len(m)) IN
           IF m[j].n = "" THEN IF m[j].w > 1 THEN [m EXCEPT ![j].w = @ - 1] ELSE m
           ELSE CASE r = 1 -> [m EXCEPT ![j].n = "k" \o @]
                  [] r = 2 /\ m[j].w > 1 -> [m EXCEPT ![j].w = @ - 1]
                  [] r = 4 /\ m[j].w < 0 -> [m EXCEPT ![j].al = IF @ = 0 THEN 8 ELSE 2 * @]
                  [] OTHER -> IF m[j].w < 0 THEN [m EXCEPT ![j].of = Mut(@)]
                              ELSE LET b == Twin(m[j].of.n) IN IF b \in BitTypes \ {"bool"} /\ m[j].of.n # "bool" THEN [m EXCEPT ![j].of = B(b)] ELSE m
MutD(d, x) == IF R(1..2) = 1 THEN d
           ELSE IF d.k = "e" THEN IF d.v[1].v \in {"0", "1", "7"} /\ Len(d.v) > 1 THEN [d EXCEPT !.v[1].v = R({"0", "1", "7"})] ELSE d
           ELSE IF d.k = "t" THEN [d EXCEPT !.of = Mut(@)]
           ELSE IF R(1..6) = 1 THEN [d EXCEPT !.aa = IF @ = 0 THEN 8 ELSE 2 * @]
           ELSE IF d.m = <<>> THEN d
           ELSE LET j == R(1..Len(d.m)) IN
                IF d.k = "s" /\ d.m[j].w > 0 /\ d.m[j].n # "" /\ R(1..3) = 1      \* moves the bits that follow
                THEN [d EXCEPT !.m = SubSeq(@, 1, j - 1) \o <<Mb("", @[j].of, 1)>> \o SubSeq(@, j, Len(@))]
                ELSE [d EXCEPT !.m = MutM(@)]
Again == {j \in 1..Len(defs) : /\ defs[j].n # "" /\ defs[j].k # "d" /\ (defs[j].u # Unit \/ defs[j].sc # cur)
                               /\ defs[j].n \notin Taken(Cls(defs[j].k))
                               /\ Cardinality(AnonsOf(defs[j])) <= 1
                               /\ \A i \in AnonsOf(defs[j]) : AnonsOf(defs[i]) = {}
                               /\ \A i \in RefsOf(defs[j]) \cup UNION {RefsOf(defs[a]) : a \in AnonsOf(defs[j])} :
                                      i = j \/ defs[i].n = "" \/ (Others(i) # {} /\ (Cls(defs[j].k) = "t" \/ Cls(defs[i].k) = "t" \/ defs[i].n # defs[j].n))}
(* a member needs a complete type in the new place, too *)
Fits(Dx, d) == /\ \A j \in 1..Len(d.m) : (Cmpl(Dx, d.m[j].of) /\ ~Flex(Dx, d.m[j].of)) \/ (d.k = "s" /\ j = Len(d.m) /\ j > 1 /\ d.m[j].of.k = "a" /\ d.m[j].of.c < 0 /\ Cmpl(Dx, d.m[j].of.of))
RECURSIVE ElemsOk(_, _)
ElemsOk(Dx, t) == CASE t.k = "a" -> Cmpl(Dx, t.of) /\ ~Flex(Dx, t.of) /\ ElemsOk(Dx, t.of)
                   [] t.k = "q" -> Fin(Dx, t).k # "a" /\ ElemsOk(Dx, t.of)
                   [] t.k = "p" -> ElemsOk(Dx, t.of)
                   [] t.k = "f" -> /\ ElemsOk(Dx, t.of) /\ (t.of.k = "v" \/ (Cmpl(Dx, t.of) /\ Fin(Dx, t.of).k # "a"))
                                   /\ \A q \in 1..Len(t.ps) : t.ps[q].n = "..." \/ (ElemsOk(Dx, t.ps[q].of) /\ Cmpl(Dx, t.ps[q].of) /\ Fin(Dx, t.ps[q].of).k # "a" /\ ~Flex(Dx, t.ps[q].of))
                   [] OTHER -> TRUE
RECURSIVE NoQ(_, _)
NoQ(Dx, t) == t.k # "q" /\ (t.k = "r" /\ Dx[t.i].k = "t" => NoQ(Dx, Dx[t.i].of))
RECURSIVE FnOk(_, _)
FnOk(Dx, t) == CASE t.k = "f" -> NoQ(Dx, t.of) /\ FnOk(Dx, t.of) /\ \A q \in 1..Len(t.ps) : NoQ(Dx, t.ps[q].of) /\ FnOk(Dx, t.ps[q].of)
                [] t.k \in {"p", "a", "q"} -> FnOk(Dx, t.of) [] OTHER -> TRUE
Copies(j, line) ==
    LET an == AnonsOf(defs[j])
        am == Len(defs) + 1
        me == Len(defs) + 1 + Cardinality(an)
        cp(d) == [d EXCEPT !.u = Unit, !.sc = cur, !.ln = line, !.of = MapT(@, j, <<me, am>>), !.m = [q \in 1..Len(@) |-> [@[q] EXCEPT !.of = MapT(@, j, <<me, am>>)]]]
        re(Dx, d) == IF d.k \in {"s", "u"} THEN [d EXCEPT !.l = Lay(Dx, d.k, d.pk, d.m, d.aa)] ELSE d
        D1 == IF an = {} THEN defs ELSE LET a == cp(defs[CHOOSE a \in an : TRUE]) IN Append(defs, re(defs, IF a.k = "e" THEN a ELSE MutD(a, j)))
    IN  <<D1, MutD(cp(defs[j]), j)>>
Copy(line) ==
    \E j \in {R(Again)} : \E g \in {TLCEval(Copies(j, line))} :
        LET Dx == g[1] d == g[2]
            E1 == Append(Dx, [d EXCEPT !.k = IF @ \in {"s", "u"} THEN "d" ELSE @, !.v = IF d.k \in {"s", "u"} THEN d.k ELSE @])      \* while it is being written
            D2 == Append(Dx, IF d.k \in {"s", "u"} THEN [d EXCEPT !.l = Lay(E1, d.k, d.pk, d.m, d.aa)] ELSE d)
            ok(x) == Fits(E1, x) /\ ElemsOk(E1, x.of) /\ FnOk(E1, x.of) /\ \A q \in 1..Len(x.m) : ElemsOk(E1, x.m[q].of) /\ FnOk(E1, x.m[q].of)
        IN  IF ok(d) /\ (Len(Dx) > Len(defs) => ok(Dx[Len(Dx)]))
            THEN /\ defs' = D2 /\ Put(Ev("def", Len(D2), line)) /\ Tick(line) /\ Same(<<objs, locs, scopes, cur>>)
            ELSE /\ Tick(line) /\ Same(<<defs, objs, locs, scopes, cur, evs>>)

VarType(x) == LET s == {i \in Visible(defs) : Cmpl(defs, Ref(i))} IN
              IF s # {} /\ R(1..3) # 1 THEN LET t == Ref(R(s)) r == R(1..4) IN IF r = 1 THEN P(t) ELSE IF r = 2 /\ ~Flex(defs, t) THEN A(R(1..3), t) ELSE t
              ELSE IF R(1..8) = 1 THEN IF R(1..3) = 1 THEN A(R({2, 30}), A(R({255, 256, 1000}), Base(x))) ELSE A(R({127, 128, 255, 256, 1000, 40000}), Base(x))   \* (not too much for a stack)
              ELSE GenO(defs, 2)
(* a global variable may be called like static ones of other units *)
FreeGlobals == FreeNames \ {objs[i].n : i \in {j \in 1..Len(objs) : scopes[objs[j].sc].k = "file" /\ ~objs[j].stc}}
Serial(p) == p \o ToString(Len(objs) + 1)
Var(line) ==
    \E stc \in {R(BOOLEAN)} : \E n \in {IF IsFile /\ ~stc THEN (IF R(1..3) = 1 /\ FreeGlobals # {} THEN R(FreeGlobals) ELSE Serial("w")) ELSE IF FreeNames = {} THEN "" ELSE R(FreeNames)} : \E t \in {VarType(line)} :
        IF n = "" THEN Tick(line) /\ Same(<<defs, objs, locs, scopes, cur, evs>>)
        ELSE /\ objs' = Append(objs, [Obj("var", n, t, line) EXCEPT !.stc = stc, !.link = IsFile /\ R(BOOLEAN)])
             /\ Put(Ev("var", Len(objs) + 1, line)) /\ Tick(line) /\ Same(<<defs, locs, scopes, cur>>)
(* declared first (an array perhaps without its length), defined on a later line *)
VarTwice(line) ==
    \E t \in {VarType(line)} : \E inc \in {t.k = "a" /\ R(BOOLEAN)} : \E n \in {Serial("w")} : \E link \in {R(BOOLEAN)} :
        /\ objs' = objs \o <<Obj("ext", n, IF inc THEN A(-1, t.of) ELSE t, line), [Obj("var", n, t, line + 1) EXCEPT !.link = link, !.own = Len(objs) + 1]>>
        /\ evs' = [evs EXCEPT ![Unit] = @ \o <<Ev("ext", Len(objs) + 1, line), Ev("var", Len(objs) + 2, line + 1)>>]
        /\ Tick(line + 1) /\ Same(<<defs, locs, scopes, cur>>)
(* a variable of an earlier unit *)
RECURSIVE NoRef(_)
NoRef(t) == CASE t.k \in {"b", "v"} -> TRUE [] t.k \in {"p", "a", "q"} -> NoRef(t.of) [] OTHER -> FALSE
Foreign == {i \in 1..Len(objs) : objs[i].k = "var" /\ objs[i].u # Unit /\ scopes[objs[i].sc].k = "file" /\ ~objs[i].stc /\ NoRef(objs[i].of)
                                 /\ ~\E j \in 1..Len(objs) : objs[j].u = Unit /\ objs[j].n = objs[i].n}
Extern(line) ==
    \E i \in {R(Foreign)} :
        /\ objs' = Append(objs, [Obj("ext", objs[i].n, objs[i].of, line) EXCEPT !.own = i])
        /\ Put(Ev("ext", Len(objs) + 1, line)) /\ Tick(line) /\ Same(<<defs, locs, scopes, cur>>)
Loc(line) ==
    \E n \in {IF IsFile THEN "gl" \o ToString(Len(locs) + 1) ELSE R({"la", "lb"})} :
        IF \E i \in 1..Len(locs) : locs[i].n = n /\ locs[i].u = Unit /\ locs[i].sc = cur THEN Tick(line) /\ Same(<<defs, objs, locs, scopes, cur, evs>>)
        ELSE /\ locs' = Append(locs, [u |-> Unit, sc |-> cur, n |-> n, ln |-> line]) /\ Put(Ev("loc", Len(locs) + 1, line)) /\ Tick(line) /\ Same(<<defs, objs, scopes, cur>>)
Fns == {"f", "g", "h"} \ {objs[i].n : i \in {j \in 1..Len(objs) : objs[j].u = Unit /\ objs[j].sc = cur}}
OpenFn(line) ==
    \E stc \in {R(BOOLEAN) /\ Fns # {}} : \E n \in {IF stc THEN R(Fns) ELSE Serial("w")} : \E f \in {GenF(defs, 1)} :
        LET sc == Len(scopes) + 1 fi == Len(objs) + 1
            pn(q) == IF f.ps[q].n = "..." THEN "..." ELSE <<"x", "p2", "p3">>[q]
            ps == [q \in 1..Len(f.ps) |-> [Obj("par", pn(q), f.ps[q].of, line) EXCEPT !.sc = sc, !.own = fi]]
        IN  /\ scopes' = Append(scopes, [u |-> Unit, up |-> cur, k |-> "fn"]) /\ cur' = sc
            /\ objs' = objs \o <<[Obj("fn", n, f.of, line) EXCEPT !.stc = stc, !.ps = [q \in 1..Len(f.ps) |-> [f.ps[q] EXCEPT !.n = pn(q)]], !.link = R(BOOLEAN), !.own = sc]>> \o ps
            /\ Put(Ev("open", fi, line)) /\ Tick(line) /\ Same(<<defs, locs>>)
OpenBlk(line) ==
    /\ scopes' = Append(scopes, [u |-> Unit, up |-> cur, k |-> "blk"]) /\ cur' = Len(scopes) + 1
    /\ Put(Ev("blk", Len(scopes) + 1, line)) /\ Tick(line) /\ Same(<<defs, objs, locs>>)
Close(line) == /\ cur' = scopes[cur].up /\ Put(Ev("close", cur, line)) /\ Tick(line) /\ Same(<<defs, objs, locs, scopes>>)

Write(op, line) ==
    CASE op = "tag" /\ FreeTags # {} -> DefTag(line)
      [] op = "fwd" /\ FreeTags # {} -> Forward(line)
      [] op = "complete" /\ Pending # {} -> Complete(line)
      [] op = "typedef" /\ FreeTypedefs # {} -> Typedef(line)
      [] op = "copy" /\ Again # {} -> Copy(line)
      [] op = "twice" /\ IsFile -> VarTwice(line)
      [] op = "extern" /\ IsFile /\ Foreign # {} -> Extern(line)
      [] op = "loc" -> Loc(line)
      [] op = "open" -> IF IsFile THEN OpenFn(line) ELSE IF Len(scopes) < 14 THEN OpenBlk(line) ELSE Var(line)
      [] op = "close" /\ ~IsFile -> Close(line)
      [] OTHER -> Var(line)
Ops == <<"tag", "tag", "tag", "fwd", "complete", "typedef", "typedef", "copy", "copy", "copy", "twice", "extern", "loc", "loc", "loc", "open", "open", "open", "close", "close",
         "var", "var", "var", "var", "var", "var">>
NewUnit == /\ scopes' = Append(scopes, [u |-> Unit + 1, up |-> 0, k |-> "file"]) /\ cur' = Len(scopes) + 1 /\ ln' = 1
           /\ evs' = Append(evs, <<>>) /\ left' = Steps /\ Same(<<defs, objs, locs, done>>)
Init == defs = <<>> /\ objs = <<>> /\ locs = <<>> /\ scopes = <<[u |-> 1, up |-> 0, k |-> "file"]>> /\ cur = 1 /\ ln = 1 /\ evs = <<<<>>>> /\ left = Steps /\ done = FALSE
Next == IF done THEN FALSE
        ELSE IF left > 0 THEN \E op \in {Ops[R(1..Len(Ops))]} : \E line \in {ln + R({0, 1, 2})} : Write(op, IF evs[Unit] # <<>> /\ evs[Unit][Len(evs[Unit])].ev = "ext" THEN ln + 1 ELSE line)
        ELSE IF ~IsFile THEN Close(ln + 1)
        ELSE IF Unit < NUnits THEN NewUnit
        ELSE done' = TRUE /\ UNCHANGED <<defs, objs, locs, scopes, cur, ln, evs, left>>

(* ---------------------------------------------------------- properties *)
(* what location l finds under name n: declared in the same scope on the same line *)
Hits(l, n) == {i \in 1..Len(objs) : objs[i].k \in {"var", "fn"} /\ objs[i].u = locs[l].u /\ objs[i].sc = locs[l].sc /\ objs[i].ln = locs[l].ln /\ objs[i].n = n}
AllNames == {objs[i].n : i \in 1..Len(objs)}
FindUnique == \A l \in 1..Len(locs) : \A n \in AllNames : Cardinality(Hits(l, n)) <= 1
NamesUnique == \A i, j \in 1..Len(objs) : i # j /\ objs[i].k # "ext" /\ objs[j].k # "ext" /\ objs[i].sc = objs[j].sc => objs[i].n # objs[j].n
Bits(d, j) == IF d.m[j].w >= 0 THEN d.m[j].w ELSE 8 * Sz(defs, d.m[j].of)
LayoutSound ==
    \A i \in 1..Len(defs) : LET d == defs[i] IN
        d.k \in {"s", "u"} =>
            /\ d.l.z % d.l.al = 0 /\ Len(d.l.o) = Len(d.m)
            /\ \A j \in 1..Len(d.m) :
                  /\ d.l.o[j] >= 0 /\ d.l.o[j] + Bits(d, j) <= 8 * d.l.z
                  /\ d.m[j].w < 0 => d.l.o[j] % 8 = 0 /\ (d.pk = 0 => d.l.o[j] % (8 * Al(defs, d.m[j].of)) = 0) /\ (d.m[j].al > 0 => d.l.o[j] % (8 * d.m[j].al) = 0)
                  /\ d.k = "s" => \A q \in 1..(j - 1) : d.l.o[q] + Bits(d, q) <= d.l.o[j]
                  /\ (d.m[j].w > 0 /\ d.pk = 0) => LET tb == 8 * Sz(defs, d.m[j].of) IN d.l.o[j] \div tb = (d.l.o[j] + d.m[j].w - 1) \div tb
(* a type refers to definitions of its own unit, and only to ones that may still be seen from it *)
OwnRefs == \A i \in 1..Len(defs) : \A r \in RefsOf(defs[i]) : r \in 1..Len(defs) /\ defs[r].u = defs[i].u
(* which objects a program asks to be linked: per module at most one of a name. Every unit may belong to another module *)
Mixed == <<"dflt", "mymod", "my">>
Wants(i) == objs[i].link \/ (objs[i].k = "ext" /\ objs[i].own > 0)
Links(mods) == {i \in 1..Len(objs) : Wants(i) /\ ~\E j \in 1..Len(objs) : j # i /\ Wants(j) /\ objs[j].n = objs[i].n /\ mods[objs[j].u] = mods[objs[i].u] /\ (IF objs[j].k = objs[i].k THEN j < i ELSE objs[i].k = "ext")}
(* the definition a link stands for: the unit's own, or the global one *)
Defn(i) == IF objs[i].k = "ext" THEN objs[i].own ELSE i
OneDefinition == \A i \in 1..Len(objs) : Wants(i) => objs[Defn(i)].n = objs[i].n /\ (objs[i].k = "ext" => ~objs[Defn(i)].stc /\ objs[Defn(i)].u # objs[i].u)
LinksOf(mods) == {<<i, Defn(i)>> : i \in Links(mods)}
Finds == {<<l, i>> : l \in 1..Len(locs), i \in 1..Len(objs)}
Emit == done => CSVWrite("%1$s", <<ToJson([defs |-> defs, objs |-> objs, locs |-> locs, scopes |-> scopes, evs |-> evs,
                    one |-> LinksOf([u \in 1..NUnits |-> "dflt"]), mix |-> LinksOf([u \in 1..NUnits |-> Mixed[((u - 1) % 3) + 1]]),
                    find |-> {x \in Finds : x[2] \in Hits(x[1], objs[x[2]].n)}])>>, EmitFile)
=============================================================================
