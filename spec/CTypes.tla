------------------------------- MODULE CTypes -------------------------------
(* C types as the library describes them, with the System V x86-64 layout.   *)
(*  [k "b", n]            base type            [k "v"]              void      *)
(*  [k "p", of]           pointer              [k "a", c, of]       array     *)
(*  [k "q", q, of]        qualified type       [k "t", n, of]       typedef   *)
(*  [k "s"/"u", n, pk, m] structure / union, m = sequence of [n, of]          *)
(*  [k "e", n, z, v]      enumeration, v = sequence of [n, v]                 *)
(*  [k "f", of, ps]       function type, ps = sequence of [n, of]             *)
(*  [k "d", n, su]        structure/union that is only declared               *)
(* An array with c = -1 is flexible; a parameter [n "..."] is the ellipsis.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

BaseSize == [char |-> 1, uchar |-> 1, schar |-> 1, short |-> 2, ushort |-> 2, int |-> 4, uint |-> 4, long |-> 8, ulong |-> 8,
             llong |-> 8, ullong |-> 8, bool |-> 1, float |-> 4, double |-> 8, ldouble |-> 16, cfloat |-> 8, cdouble |-> 16, cldouble |-> 32]
BaseAlign == [BaseSize EXCEPT !["cfloat"] = 4, !["cdouble"] = 8, !["cldouble"] = 16]
BaseNames == DOMAIN BaseSize

B(n) == [k |-> "b", n |-> n]
Void == [k |-> "v"]
P(t) == [k |-> "p", of |-> t]
A(c, t) == [k |-> "a", c |-> c, of |-> t]
Q(q, t) == [k |-> "q", q |-> q, of |-> t]
T(n, t) == [k |-> "t", n |-> n, of |-> t]
S(n, m) == [k |-> "s", n |-> n, pk |-> 0, m |-> m]
PS(n, m) == [k |-> "s", n |-> n, pk |-> 1, m |-> m]
U(n, m) == [k |-> "u", n |-> n, pk |-> 0, m |-> m]
E(n, z, v) == [k |-> "e", n |-> n, z |-> z, v |-> v]
F(r, ps) == [k |-> "f", of |-> r, ps |-> ps]
D(n, su) == [k |-> "d", n |-> n, su |-> su]
M(n, t) == [n |-> n, of |-> t]

RECURSIVE Final(_), Quals(_), Size(_), Align(_), Sized(_)
Final(t) == IF t.k \in {"q", "t"} THEN Final(t.of) ELSE t
Quals(t) == IF t.k = "q" THEN {t.q} \cup Quals(t.of) ELSE IF t.k = "t" THEN Quals(t.of) ELSE {}
Max(a, b) == IF a > b THEN a ELSE b
Up(x, a) == ((x + a - 1) \div a) * a
(* complete object type of known, non-zero size *)
Sized(t) == CASE t.k = "b" -> TRUE [] t.k = "p" -> TRUE [] t.k = "e" -> TRUE
              [] t.k \in {"s", "u"} -> TRUE [] t.k = "a" -> t.c > 0 /\ Sized(t.of)
              [] t.k \in {"q", "t"} -> Sized(t.of) [] OTHER -> FALSE
Align(t) == CASE t.k = "b" -> BaseAlign[t.n] [] t.k = "p" -> 8 [] t.k = "e" -> t.z
              [] t.k = "a" -> Align(t.of) [] t.k \in {"q", "t"} -> Align(t.of)
              [] t.k \in {"s", "u"} ->
                   IF t.pk = 1 THEN 1
                   ELSE LET RECURSIVE G(_) G(i) == IF i = 0 THEN 1 ELSE Max(Align(t.m[i].of), G(i - 1)) IN G(Len(t.m))
              [] OTHER -> 1
MSize(t) == IF Final(t).k = "a" /\ Final(t).c = -1 THEN 0 ELSE Size(t)
(* offset of member i (the end of the last one for i = Len + 1) *)
Offset(t, i) ==
    IF t.k = "u" THEN 0
    ELSE LET RECURSIVE G(_)
             G(j) == IF j = 1 THEN 0
                     ELSE LET e == G(j - 1) + MSize(t.m[j - 1].of)
                          IN  IF t.pk = 1 \/ j > Len(t.m) THEN e ELSE Up(e, Align(t.m[j].of))
         IN G(i)
Size(t) == CASE t.k = "b" -> BaseSize[t.n] [] t.k = "p" -> 8 [] t.k = "e" -> t.z
             [] t.k = "a" -> t.c * Size(t.of)
             [] t.k \in {"q", "t"} -> Size(t.of)
             [] t.k = "s" -> Up(Offset(t, Len(t.m) + 1), Align(t))
             [] t.k = "u" -> LET RECURSIVE G(_) G(i) == IF i = 0 THEN 0 ELSE Max(MSize(t.m[i].of), G(i - 1))
                             IN  Up(G(Len(t.m)), Align(t))
             [] OTHER -> 0

(* ----------------------------------------------------- random generation *)
R(s) == RandomElement(s)
Tag(p) == p \o ToString(R(1..999999))
RECURSIVE Gen(_), GenObj(_), GenMembers(_, _, _)
Quals3 == {"const", "volatile"}
(* any complete object type *)
GenObj(d) ==
    IF d = 0 THEN B(R(BaseNames))
    ELSE LET r == R(1..14) IN
         CASE r = 1 -> B(R(BaseNames))
           [] r \in 2..3 -> A(R(1..3), GenObj(d - 1))
           [] r \in 4..5 -> P(Gen(d - 1))
           [] r = 6 -> Q(R(Quals3), GenObj(d - 1))
           [] r = 7 -> T(Tag("t"), GenObj(d - 1))
           [] r = 8 -> E(R({Tag("E"), ""}), R({1, 2, 4, 8}), <<[n |-> "ea", v |-> 0], [n |-> "eb", v |-> R(1..100)]>>)
           [] r = 9 -> U(R({Tag("U"), ""}), GenMembers(R(1..3), d - 1, 1))
           [] r = 10 -> PS(R({Tag("S"), ""}), GenMembers(R(1..3), d - 1, 1))
           [] r = 11 -> P(Q("const", Gen(d - 1)))
           [] OTHER -> S(R({Tag("S"), Tag("S"), ""}), GenMembers(R(1..4), d - 1, 1))
GenMembers(n, d, i) ==
    IF i > n THEN <<>>
    ELSE LET t == GenObj(d)
             anon == t.k \in {"s", "u"} /\ t.n = "" /\ R(1..2) = 1
         IN  <<M(IF anon THEN "" ELSE "m" \o ToString(i), t)>> \o GenMembers(n, d, i + 1)
(* whatever a pointer can point to *)
Gen(d) == LET r == R(1..12) IN
          CASE r = 1 -> Void
            [] r = 2 -> D(Tag("D"), R({"s", "u"}))
            [] r = 3 -> F(R({Void, B("int"), P(Void)}), IF d = 0 THEN <<>> ELSE GenMembers(R(0..2), 0, 1))
            [] r = 4 -> Q("const", Void)
            [] r = 5 -> A(-1, GenObj(IF d > 0 THEN d - 1 ELSE 0))
            [] OTHER -> GenObj(d)
=============================================================================
