-------------------------------- MODULE Twins --------------------------------
(* Two units that define types of the same names: those of the second unit     *)
(* differ from those of the first in exactly one thing each (all the ways in    *)
(* which one can differ are enumerated), or in nothing.  Everything else is     *)
(* that of Units: both units' types have to be described as they are.           *)
EXTENDS Units

VARIABLE vx          \* which variant of each type
tvars == <<vars, vx>>

I == B("int")
Ps(s) == [q \in 1..Len(s) |-> M("", s[q])]
Dots == M("...", Void)
Mbs(s) == [j \in 1..Len(s) |-> Mb("m" \o ToString(j), s[j][1], s[j][2])]
Base0 == [u |-> 1, sc |-> 1, k |-> "s", n |-> "", m |-> <<>>, v |-> <<>>, of |-> Void, pk |-> 0, aa |-> 0, fx |-> FALSE, ln |-> 1, l |-> [z |-> 0, al |-> 1, o |-> <<>>]]
St(m) == [Base0 EXCEPT !.m = m]
En(p, s) == [Base0 EXCEPT !.k = "e", !.pk = p, !.v = s]
Td(t) == [Base0 EXCEPT !.k = "t", !.of = t]
V2(n, v) == [n |-> n, v |-> v]
(* the types: self references are Ref(0), references to the type before it Ref(-1) *)
Bases == <<
    St(Mbs(<<<<B("uint"), 3>>, <<B("uint"), 5>>, <<B("uint"), 7>>>>)),
    St(Mbs(<<<<B("long"), 9>>, <<B("char"), 3>>, <<B("char"), -1>>>>)),
    St(Mbs(<<<<B("char"), -1>>, <<I, -1>>, <<B("long"), -1>>>>)),
    [St(Mbs(<<<<I, -1>>, <<B("float"), -1>>, <<A(4, B("char")), -1>>>>)) EXCEPT !.k = "u"],
    [St(Mbs(<<<<B("char"), -1>>, <<I, -1>>, <<B("short"), 5>>>>)) EXCEPT !.pk = 1],
    St(Mbs(<<<<A(3, I), -1>>, <<P(I), -1>>, <<P(Q("const", B("char"))), -1>>, <<A(-1, B("char")), -1>>>>)),
    St(Mbs(<<<<P(F(I, Ps(<<I, B("char")>>))), -1>>, <<P(F(Void, Append(Ps(<<I>>), Dots))), -1>>>>)),
    St(Mbs(<<<<I, -1>>, <<P(Ref(0)), -1>>, <<Q("const", I), -1>>>>)),
    St(Mbs(<<<<P(Ref(-1)), -1>>, <<Ref(-1), -1>>, <<A(2, A(3, B("short"))), -1>>>>)),
    En(0, <<V2("a", "0"), V2("b", "1"), V2("c", "5")>>),
    En(1, <<V2("a", "0"), V2("b", "1"), V2("c", "100")>>),
    Td(P(F(B("long"), Ps(<<I, P(B("char"))>>)))),
    Td(A(2, A(3, I))),
    Td(Q("const", I)),
    Td(P(P(Q("volatile", B("uchar"))))),
    St(Mbs(<<<<Ref(-1), -1>>, <<P(Ref(-1)), -1>>>>)) >>
N == Len(Bases)
Nm(i) == IF Bases[i].k = "t" THEN "T" \o ToString(i) ELSE "P" \o ToString(i)

(* all one-step changes of a type *)
Other(n) == ({b \in BaseNames : BaseSize[b] = BaseSize[n] /\ BaseAlign[b] = BaseAlign[n]} \cup {"ldouble"}) \ {n}
RECURSIVE VT(_)
VT(t) == CASE t.k = "b" -> {B(b) : b \in Other(t.n)} \cup {P(t)}
           [] t.k = "p" -> {P(y) : y \in VT(t.of)} \cup {P(t)} \cup (IF t.of.k \in {"f", "q"} THEN {} ELSE {P(Q("const", t.of)), P(Void)}) \cup {Q("volatile", t)}
           [] t.k = "a" -> (IF t.c < 0 THEN {A(1, t.of)} ELSE {A(t.c + 1, t.of)} \cup (IF t.c > 1 THEN {A(t.c - 1, t.of)} ELSE {}) \cup {A(1, t)}) \cup {A(t.c, y) : y \in VT(t.of)}
           [] t.k = "q" -> {t.of, Q(IF t.q = "const" THEN "volatile" ELSE "const", t.of)} \cup {Q(t.q, y) : y \in {z \in VT(t.of) : z.k # "q"}}
           [] t.k = "f" -> {F(y, t.ps) : y \in {Void, B("uchar"), P(I)} \ {t.of}} \cup {F(t.of, SubSeq(t.ps, 1, q)) : q \in 0..(Len(t.ps) - 1)}
                           \cup (IF t.ps[Len(t.ps)].n = "..." THEN {F(t.of, <<M("", B("char"))>> \o t.ps)} ELSE {F(t.of, Append(t.ps, Dots)), F(t.of, Append(t.ps, M("", I)))})
                           \cup UNION {{F(t.of, [t.ps EXCEPT ![q].of = y]) : y \in {B("uint"), P(I)}} : q \in {q \in 1..Len(t.ps) : t.ps[q].n # "..."}}
           [] OTHER -> {P(t)}
Cut(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
Put1(s, j, y) == Cut(s, 1, j - 1) \o <<y>> \o Cut(s, j, Len(s))
Drop1(s, j) == Cut(s, 1, j - 1) \o Cut(s, j + 1, Len(s))
Flx(m) == m # <<>> /\ m[Len(m)].of.k = "a" /\ m[Len(m)].of.c < 0
(* of the members of a structure (k "s") or union *)
VM(k, m) ==
    LET L == Len(m) last == IF Flx(m) THEN L - 1 ELSE L IN
    UNION {LET c == m[j] IN
           {[m EXCEPT ![j].n = "k"]} \cup (IF L > 2 /\ (j # L \/ ~Flx(m)) THEN {Drop1(m, j)} ELSE {}) \cup (IF j # L \/ ~Flx(m) THEN {Put1(m, j, Mb("i", c.of, c.w))} ELSE {})
           \cup (IF c.w < 0 /\ c.of.k # "r" THEN {[m EXCEPT ![j].of = y] : y \in VT(c.of)} ELSE {})
           \cup (IF c.w < 0 THEN {[m EXCEPT ![j].al = y] : y \in {4, 8, 16}} ELSE {})
           \cup (IF c.w >= 0 THEN {[m EXCEPT ![j].w = @ + 1], [m EXCEPT ![j].w = @ - 1], [m EXCEPT ![j].w = -1], [m EXCEPT ![j].of = B(CHOOSE b \in Other(c.of.n) : b \in BitTypes)]} ELSE {})
           \cup (IF c.w >= 0 /\ k = "s" THEN {Put1(m, j, Mb("", c.of, y)) : y \in {0, 1, 4}} ELSE {})
           \cup (IF j < last THEN {[m EXCEPT ![j] = m[j + 1], ![j + 1] = m[j]]} ELSE {}) : j \in 1..L}
    \cup (IF Flx(m) THEN {} ELSE {Append(m, Mb("e", I, -1))})
VE(v) == UNION {{[v EXCEPT ![j].n = "k" \o @], [v EXCEPT ![j].v = "3"], Drop1(v, j), Put1(v, j, V2("i", "2"))} : j \in 1..Len(v)} \cup {Append(v, V2("e", "300")), Append(v, V2("e", "4294967296")), Append(v, V2("e", "-1"))}
VD(d) == CASE d.k = "e" -> {[d EXCEPT !.v = y] : y \in VE(d.v)} \cup {[d EXCEPT !.pk = 1 - @]}
           [] d.k = "t" -> {[d EXCEPT !.of = y] : y \in VT(d.of)}
           [] OTHER -> {[d EXCEPT !.m = y] : y \in VM(d.k, d.m)} \cup {[d EXCEPT !.aa = y] : y \in {8, 32}} \cup {[d EXCEPT !.pk = 1 - @]}
                       \cup (IF d.k = "u" \/ ~Flx(d.m) THEN {[d EXCEPT !.k = IF @ = "s" THEN "u" ELSE "s"]} ELSE {})
RECURSIVE ToSeq(_)
ToSeq(s) == IF s = {} THEN <<>> ELSE LET y == CHOOSE y \in s : TRUE IN <<y>> \o ToSeq(s \ {y})
(* the unchanged one, too *)
Vars == [i \in 1..N |-> <<Bases[i]>> \o ToSeq(VD(Bases[i]) \ {Bases[i]})]
VarsE == TLCEval(Vars)
NX == LET c == {Len(VarsE[i]) : i \in 1..N} IN CHOOSE m \in c : \A y \in c : y <= m

RECURSIVE SetRef(_, _)
SetRef(t, i) == CASE t.k = "r" -> Ref(IF t.i = 0 THEN i ELSE i - 1) [] t.k \in {"p", "a", "q"} -> [t EXCEPT !.of = SetRef(@, i)] [] OTHER -> t
(* minimal size an enumeration needs *)
ESize(d) == LET vs == {d.v[j].v : j \in 1..Len(d.v)} IN
            IF vs \cap {"4294967296"} # {} THEN 8 ELSE IF d.pk = 0 THEN 4 ELSE IF vs \cap {"300"} # {} THEN 2 ELSE 1
RECURSIVE Build(_, _, _)
(* appends the types of unit u to Dx *)
Build(Dx, u, i) ==
    IF i > N THEN Dx
    ELSE LET b == VarsE[i]
             d0 == IF u = 1 THEN b[1] ELSE b[((vx - 1) % Len(b)) + 1]
             me == Len(Dx) + 1
             d1 == [d0 EXCEPT !.u = u, !.sc = u, !.n = Nm(i), !.ln = i, !.of = SetRef(@, me), !.m = [j \in 1..Len(@) |-> [@[j] EXCEPT !.of = SetRef(@, me)]],
                              !.v = [j \in 1..Len(@) |-> [@[j] EXCEPT !.n = Nm(i) \o "_" \o @]]]
             d == CASE d1.k \in {"s", "u"} -> [d1 EXCEPT !.l = Lay(Append(Dx, [d1 EXCEPT !.k = "d", !.v = d1.k]), d1.k, d1.pk, d1.m, d1.aa), !.fx = Flx(d1.m)]
                    [] d1.k = "e" -> [d1 EXCEPT !.l = LET z == ESize(d1) IN [z |-> z, al |-> z, o |-> <<>>]]
                    [] OTHER -> d1
         IN  Build(Append(Dx, d), u, i + 1)
TInit ==
    /\ vx \in 1..NX
    /\ \E g \in {TLCEval(Build(<<>>, 1, 1))} : \E h \in {TLCEval(Build(g, 2, 1))} :
       /\ defs = h
       /\ objs = [q \in 1..(2 * N) |-> [u |-> IF q <= N THEN 1 ELSE 2, sc |-> IF q <= N THEN 1 ELSE 2, k |-> "var", n |-> "w" \o ToString(q), of |-> Ref(q), ps |-> <<>>,
                                        ln |-> (IF q <= N THEN q ELSE q - N), stc |-> FALSE, link |-> FALSE, own |-> 0]]
    /\ locs = <<>> /\ scopes = <<[u |-> 1, up |-> 0, k |-> "file"], [u |-> 2, up |-> 0, k |-> "file"]>>
    /\ cur = 2 /\ ln = N /\ left = 0 /\ done = TRUE
    /\ evs = [u \in 1..2 |-> [q \in 1..(2 * N) |-> LET i == (q + 1) \div 2 j == i + (u - 1) * N IN
                                                    IF q % 2 = 1 THEN [ev |-> "def", i |-> j, ln |-> i] ELSE [ev |-> "var", i |-> j, ln |-> i]]]
TSpec == TInit /\ [][FALSE]_tvars
(* in each unit exactly what was chosen, and the first unit never changes *)
OneChange == \A i \in 1..N : defs[i].u = 1 /\ defs[N + i].u = 2 /\ defs[i].n = defs[N + i].n /\ (vx = 1 => defs[i].l = defs[N + i].l)
=============================================================================
