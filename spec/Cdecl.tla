------------------------------- MODULE Cdecl -------------------------------
(* Declaration text (src/entry_cdecl.c).  Norm gives the meaning of a type    *)
(* as C sees it, Print its declaration as tokens, Parse reads a declaration   *)
(* back under C's declarator grammar.  RoundTrip checks that Print and Parse  *)
(* agree on every type; Judge (with the texts of the implementation) checks   *)
(* that what the implementation printed denotes the type it was given.        *)
EXTENDS CText, Json, CSV

CONSTANTS Bases, Start, MaxWrap, Texts, EmitFile
VARIABLES t, dk, n, pc
vars == <<t, dk, n, pc>>

(* ------------------------------------------------------------- parsing *)
DeclNames == {"nm", "fn", "m1", "m2", "m3", "m4", "p1", "p2", "p3", "p4"}
Tok(s, i) == IF i <= Len(s) THEN s[i] ELSE "<end>"
Bad(i) == [t |-> Void, i |-> 100000 + i, n |-> "<bad>"]
QualKw == {"const", "volatile", "restrict"}
RECURSIVE PQuals(_, _), PSpec(_, _), PDecl(_, _), PSuffix(_, _), PParams(_, _), PMembers(_, _), PEnum(_, _), PObj(_, _), Build(_, _)
PQuals(s, i) == IF Tok(s, i) \in QualKw THEN LET r == PQuals(s, i + 1) IN [qs |-> {s[i]} \cup r.qs, i |-> r.i] ELSE [qs |-> {}, i |-> i]
Q0(qs, x) == IF qs = {} THEN x ELSE Qual(qs, x)
PSpec(s, i) ==
    LET q1 == PQuals(s, i)
        j == q1.i
        k == Tok(s, j)
        b == CASE k \in {"struct", "union"} ->
                    LET su == IF k = "struct" THEN "s" ELSE "u" IN
                    IF Tok(s, j + 1) = "{" THEN LET r == PMembers(s, j + 2) IN [t |-> [k |-> su, m |-> r.m], i |-> r.i]
                    ELSE [t |-> [k |-> "d", n |-> Tok(s, j + 1), su |-> su], i |-> j + 2]
               [] k = "enum" ->
                    IF Tok(s, j + 1) = "{" THEN LET r == PEnum(s, j + 2) IN [t |-> [k |-> "e", v |-> r.v], i |-> r.i]
                    ELSE [t |-> [k |-> "E", n |-> Tok(s, j + 1)], i |-> j + 2]
               [] k = "void" -> [t |-> Void, i |-> j + 1]
               [] k \in BaseNames -> [t |-> B(k), i |-> j + 1]
               [] OTHER -> [t |-> [k |-> "t", n |-> k], i |-> j + 1]
        q2 == PQuals(s, b.i)
    IN  [t |-> Q0(q1.qs \cup q2.qs, b.t), i |-> q2.i]
(* declarator -> modifiers, nearest to the name first *)
PDecl(s, i) ==
    IF Tok(s, i) = "*" THEN LET q == PQuals(s, i + 1) r == PDecl(s, q.i)
                            IN  [r EXCEPT !.mods = r.mods \o <<[k |-> "p", qs |-> q.qs]>>]
    ELSE IF Tok(s, i) = "(" /\ Tok(s, i + 1) \in {"*", "(", "["} \cup DeclNames
         THEN LET r == PDecl(s, i + 1) f == PSuffix(s, r.i + 1)
              IN  IF Tok(s, r.i) # ")" THEN [mods |-> <<>>, n |-> "<bad>", i |-> 100000] ELSE [mods |-> r.mods \o f.mods, n |-> r.n, i |-> f.i]
    ELSE IF Tok(s, i) \in DeclNames THEN LET f == PSuffix(s, i + 1) IN [mods |-> f.mods, n |-> s[i], i |-> f.i]
    ELSE LET f == PSuffix(s, i) IN [mods |-> f.mods, n |-> "", i |-> f.i]
PSuffix(s, i) ==
    CASE Tok(s, i) = "[" ->
           LET c == IF Tok(s, i + 1) = "]" THEN "" ELSE Tok(s, i + 1)
               j == IF c = "" THEN i + 2 ELSE i + 3
               f == PSuffix(s, j)
           IN  IF Tok(s, j - 1) # "]" THEN [mods |-> <<>>, i |-> 100000] ELSE [mods |-> <<[k |-> "a", c |-> c]>> \o f.mods, i |-> f.i]
      [] Tok(s, i) = "(" ->
           LET p == PParams(s, i + 1) f == PSuffix(s, p.i) IN [mods |-> <<[k |-> "f", ps |-> p.ps]>> \o f.mods, i |-> f.i]
      [] OTHER -> [mods |-> <<>>, i |-> i]
Build(mods, x) ==
    IF mods = <<>> THEN x
    ELSE LET l == mods[Len(mods)]
             y == CASE l.k = "p" -> Q0(l.qs, P(x)) [] l.k = "a" -> [k |-> "a", c |-> l.c, of |-> x] [] OTHER -> [k |-> "f", of |-> x, ps |-> l.ps]
         IN  Build(SubSeq(mods, 1, Len(mods) - 1), y)
PObj(s, i) == LET sp == PSpec(s, i) d == PDecl(s, sp.i) IN [t |-> Build(d.mods, sp.t), n |-> d.n, i |-> d.i]
PParams(s, i) ==
    CASE Tok(s, i) = ")" -> [ps |-> <<>>, i |-> i + 1]
      [] Tok(s, i) = "," -> PParams(s, i + 1)
      [] Tok(s, i) = "..." -> LET r == PParams(s, i + 1) IN [ps |-> <<[n |-> "...", of |-> Void]>> \o r.ps, i |-> r.i]
      [] i > Len(s) -> [ps |-> <<>>, i |-> 100000]
      [] OTHER -> LET o == PObj(s, i) r == PParams(s, o.i) IN [ps |-> <<[n |-> o.n, of |-> o.t]>> \o r.ps, i |-> r.i]
PMembers(s, i) ==
    IF Tok(s, i) = "}" THEN [m |-> <<>>, i |-> i + 1]
    ELSE IF i > Len(s) THEN [m |-> <<>>, i |-> 100000]
    ELSE LET o == PObj(s, i)
             bit == Tok(s, o.i) = ":"
             j == IF bit THEN o.i + 2 ELSE o.i
             r == PMembers(s, j + 1)
         IN  IF Tok(s, j) # ";" THEN [m |-> <<>>, i |-> 100000]
             ELSE [m |-> <<[n |-> o.n, b |-> IF bit THEN Tok(s, o.i + 1) ELSE "0", of |-> o.t]>> \o r.m, i |-> r.i]
PEnum(s, i) ==
    CASE Tok(s, i) = "}" -> [v |-> <<>>, i |-> i + 1]
      [] Tok(s, i) = "," -> PEnum(s, i + 1)
      [] i > Len(s) -> [v |-> <<>>, i |-> 100000]
      [] OTHER -> IF Tok(s, i + 1) # "=" THEN [v |-> <<>>, i |-> 100000]
                  ELSE LET r == PEnum(s, i + 3) IN [v |-> <<[n |-> s[i], v |-> Tok(s, i + 2)]>> \o r.v, i |-> r.i]
Parse(s) == PObj(s, 1)
Denotes(s, k, x) == LET r == Parse(s) IN r.i = Len(s) + 1 /\ r.n = (IF k = "g" THEN "fn" ELSE "nm") /\ r.t = Norm(x)

(* ------------------------------------------------- types and transitions *)
RECURSIVE Anon(_)
Anon(x) == x.k \in {"s", "u", "e"} /\ x.n = ""
IsFn(x) == x.k = "f" \/ (x.k = "q" /\ FALSE)
Obj(x) == Sized(x)
PInt == [n |-> "", of |-> B("int")]
Dots == [n |-> "...", of |-> Void]
(* a parameter of type x (C has no array or function parameters) *)
ParamOk(x) == Final(x).k \notin {"a", "f", "v"} /\ ~(x.k = "q" /\ Final(x).k = "a")
Wraps(x) ==
    {P(x)} \cup
    (IF Obj(x) THEN {A(3, x), A(-1, x)} ELSE {}) \cup
    (IF x.k = "f" THEN {} ELSE {Q("const", x), Q("volatile", x)}) \cup
    (IF Final(x).k = "p" /\ x.k \in {"p", "q"} THEN {Q("restrict", x)} ELSE {}) \cup
    (IF Final(x).k \in {"a", "f"} THEN {} ELSE {F(x, <<>>), F(x, <<PInt, Dots>>)}) \cup
    (IF ParamOk(x) THEN {F(Void, <<[n |-> "", of |-> x], PInt>>)} ELSE {}) \cup
    {T("t1", x)} \cup
    (IF Obj(x) THEN {S("", <<M("m1", x), [n |-> "m2", b |-> 5, of |-> B("uint")]>>), U("", <<[n |-> IF Anon(x) /\ x.k # "e" THEN "" ELSE "m1", of |-> x], M("m2", B("int"))>>)} ELSE {})

RInit == t \in Start /\ n = 0 /\ dk = "t" /\ pc = "gen"
Init == t \in Bases /\ n = 0 /\ dk = "t" /\ pc = "gen"
Wrap == pc = "gen" /\ dk = "t" /\ n < MaxWrap /\ \E w \in Wraps(t) : t' = w /\ n' = n + 1 /\ UNCHANGED <<dk, pc>>
Declare == pc = "gen" /\ dk = "t" /\ UNCHANGED <<n, pc>> /\
           \/ (t.k # "f" /\ Final(t).k # "v" /\ t' = t /\ dk' = "x")
           \/ (Final(t).k \notin {"a", "f"} /\ dk' = "g"
               /\ \E ps \in {<<>>, <<[n |-> "p1", of |-> IF ParamOk(t) THEN t ELSE B("char")], [n |-> "p2", of |-> P(t)], Dots>>} : t' = F(t, ps))
Next == Wrap \/ Declare
Spec == Init /\ [][Next]_vars

RoundTrip == Denotes(Decl(dk, Norm(t)), dk, t)
EmitInv == CSVWrite("%1$s", <<ToJson([t |-> t, dk |-> dk, toks |-> Decl(dk, Norm(t))])>>, EmitFile)

(* random deep types *)
Bit(nm, b, w) == [n |-> nm, b |-> w, of |-> b]
BitBase(x) == LET r == R(1..6) IN CASE r = 1 -> <<B("bool"), 1>> [] r = 2 -> <<B("uint"), R(1..32)>> [] r = 3 -> <<B("long"), R({1, 32, 33, 63, 64})>>
                 [] r = 4 -> <<T("t5", B("uchar")), R(1..8)>> [] r = 5 -> <<Q("const", B("int")), R({1, 31, 32})>> [] OTHER -> <<B("int"), R({1, 2, 7, 10})>>
BitM(nm) == LET b == BitBase(nm) IN Bit(nm, b[1], b[2])
Enums(x) == E(R({"", "", "E2"}), 8, R({<<[n |-> "ea", v |-> -2147483647], [n |-> "eb", v |-> 2147483647]>>, <<[n |-> "ea", s |-> "-9223372036854775808", v |-> 0]>>,
               <<[n |-> "ea", v |-> 5], [n |-> "eb", v |-> 5], [n |-> "ec", s |-> "9223372036854775807", v |-> 0], [n |-> "ed", s |-> "4294967296", v |-> 0]>>}))
Pairs2(x) == {S("", <<M("m1", x), BitM("m2"), BitM("m3"), M("m4", P(x))>>), S("", <<BitM("m1"), M("m2", Enums(x)), BitM("m3"), M("m4", x)>>),
              U("", <<BitM("m1"), M("m2", P(x)), BitM("m3")>>)}
RWraps(x) == IF R(1..3) > 1 THEN Wraps(x) ELSE
    LET w == (IF Obj(x) THEN {A(R({1, 2, 9, 10, 255, 256, 65536, 1000000}), x)} \cup Pairs2(x) ELSE {})
             \cup (IF Final(x).k \in {"a", "f"} THEN {} ELSE {F(x, <<[n |-> "", of |-> P(x)], [n |-> "", of |-> Enums(x)], [n |-> "", of |-> P(B("char"))], PInt>>),
                                                             F(x, <<[n |-> "", of |-> P(Q("const", x))], [n |-> "", of |-> P(P(x))], Dots>>)})
             \cup {T("t" \o ToString(R(6..9)), x)}
    IN  w
RECURSIVE GenD(_)
GenD(d) == IF d = 0 THEN R(Bases \cup {Enums(d)}) ELSE LET x == GenD(d - 1) IN R(RWraps(x))

(* ---------------------------------------- verdicts on printed declarations *)
JInit == /\ TLCSet(1, Texts)
         /\ \E i \in 1..Len(TLCGet(1)) : n = i /\ pc = "judge" /\ t = TLCGet(1)[i].t /\ dk = <<TLCGet(1)[i].dk, TLCGet(1)[i].toks>>
Judge == CSVWrite("%1$s", <<ToJson([i |-> n, ok |-> Denotes(dk[2], dk[1], t)])>>, EmitFile)
=============================================================================
