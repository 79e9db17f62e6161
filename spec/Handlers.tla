------------------------------ MODULE Handlers ------------------------------
(* Annotated types (src/entry_tag.c): what an annotation makes visible, and    *)
(* what showing, copying, comparing and releasing do with it.                  *)
(* Structures N1, N2 and LK have annotated members [n, of, an]; a value is a   *)
(* tree (sharing is the subject of Deep.tla): a pointer owns the block it      *)
(* leads into.  View says what of a value is visible; all else follows.        *)
EXTENDS CText, Json, CSV

CONSTANTS SimDepth, Mix, EmitFile
VARIABLES env,    \* structure name -> members
          root,   \* [t, an] of the values
          vals,   \* sequence of [v, live]
          last, hist
vars == <<env, root, vals, last, hist>>

RefT(n) == [k |-> "r", n |-> n]
MA(n, t, a) == [n |-> n, of |-> t, an |-> a]
(* annotations: kind, sibling, counter sibling, cases [val, id, nm, to], number *)
An(a, s, c, cs, n) == [a |-> a, s |-> s, c |-> c, cs |-> cs, n |-> n]
None == An("none", "", "", <<>>, 0)
Case(v, i, nm, to) == [val |-> v, id |-> i, nm |-> nm, to |-> to]
Byte == B("uchar")

RECURSIVE Ex(_, _)
Ex(e, t) == CASE t.k = "r" -> S(t.n, [i \in 1..Len(e[t.n]) |-> M(e[t.n][i].n, Ex(e, e[t.n][i].of))])
              [] t.k \in {"s", "u"} -> [t EXCEPT !.m = [i \in 1..Len(t.m) |-> M(t.m[i].n, Ex(e, t.m[i].of))]]
              [] t.k = "a" -> A(t.c, Ex(e, t.of)) [] t.k = "t" -> T(t.n, Ex(e, t.of)) [] OTHER -> t
RECURSIVE Core0(_, _)
Core0(e, t) == CASE t.k = "r" -> [k |-> "s", n |-> t.n, m |-> e[t.n]] [] t.k \in {"t", "q"} -> Core0(e, t.of) [] OTHER -> t
Unknown(t) == t.k = "p" /\ Final(t.of).k \in {"v", "d"}
OfMember(e, n, m) == LET x == Ex(e, RefT(n)) i == CHOOSE i \in 1..Len(e[n]) : e[n][i].n = m IN Offset(x, i)

(* -------------------------------------------------------------- values *)
Num(x) == [v |-> "num", x |-> x]
Nil == [v |-> "nil"]
Blk(id, o, t, es) == [v |-> "ptr", id |-> id, o |-> o, t |-> t, es |-> es]
St(m) == [v |-> "st", m |-> m]
Uni(i, c) == [v |-> "uni", i |-> i, c |-> c]
Flex(es) == [v |-> "flex", es |-> es]

(* the number a sibling holds: [ok, x] *)
IsNum(t) == LET f == Final(t) IN f.k = "e" \/ (f.k = "b" /\ f.n \in {"bool", "char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"})
No == [r |-> "none", x |-> 0]
(* numbers beyond 32 bits: Wide + k stands for 2^32 + k, Wide + Wide/2 + k for 2^32 - 1 - k; they count and select nothing *)
Wide == 1000000000
Sib(ms, vs, s) == LET is == {i \in 1..Len(ms) : ms[i].n = s /\ s # ""} IN
                  IF is = {} THEN [r |-> "missing", x |-> 0]
                  ELSE LET i == CHOOSE i \in is : \A j \in is : i <= j IN
                       IF IsNum(ms[i].of) /\ vs[i].x < Wide THEN [r |-> "ok", x |-> vs[i].x] ELSE [r |-> "bad", x |-> 0]
(* the surroundings of a value: members and values of the enclosing structure; none at the top *)
Top == [ms |-> <<>>, vs |-> <<>>, top |-> TRUE]
In(ms, vs) == [ms |-> ms, vs |-> vs, top |-> FALSE]

(* how many elements: [r "ok"/"none"/"err", x] *)
Count(an, par) == LET s == Sib(par.ms, par.vs, an.s) IN
                  IF s.r # "ok" \/ s.x < 0 THEN [r |-> "err", x |-> 0] ELSE s
(* which member of union u: [r, x] with x an index *)
Pick(an, u, par) ==
    LET inr(i) == IF i >= 0 /\ i < Len(u.m) THEN [r |-> "ok", x |-> i + 1] ELSE No IN
    CASE an.a = "perm" -> inr(an.n)
      [] an.a = "sel" /\ ~par.top ->
           LET s == Sib(par.ms, par.vs, an.s) IN
           IF s.r = "missing" THEN No
           ELSE IF s.r = "bad" THEN [r |-> "err", x |-> 0]
           ELSE IF an.cs = <<>> THEN inr(s.x)
           ELSE LET hit == {i \in 1..Len(an.cs) : an.cs[i].val = s.x} IN
                IF hit = {} THEN [r |-> "err", x |-> 0]
                ELSE LET c == an.cs[CHOOSE i \in hit : \A j \in hit : i <= j] IN
                     IF c.nm = "" THEN inr(c.id)
                     ELSE LET ns == {i \in 1..Len(u.m) : u.m[i].n = c.nm} IN
                          IF ns = {} THEN [r |-> "err", x |-> 0] ELSE [r |-> "ok", x |-> CHOOSE i \in ns : TRUE]
      [] OTHER -> No
(* as what a pointer is to be followed: [r, t, n] *)
Cast(an, par) ==
    LET s == Sib(par.ms, par.vs, an.s)
        c == IF an.c = "" THEN [r |-> "ok", x |-> 1] ELSE Sib(par.ms, par.vs, an.c)
        hit == {i \in 1..Len(an.cs) : an.cs[i].val = s.x}
        bad == [r |-> "err", t |-> Byte, n |-> 0]
    IN  IF s.r # "ok" THEN bad
        ELSE IF c.r # "ok" \/ c.x < 0 THEN bad
        ELSE IF hit = {} THEN [r |-> "none", t |-> Byte, n |-> 0]
        ELSE [r |-> "ok", t |-> an.cs[CHOOSE i \in hit : \A j \in hit : i <= j].to, n |-> c.x]

(* ---------------------------------------------------------------- view *)
Bad(v) == [w |-> "err", id |-> IF v.v = "ptr" THEN v.id ELSE "", o |-> IF v.v = "ptr" THEN v.o ELSE 0]
RECURSIVE View(_, _, _, _, _), ViewS(_, _, _), Chars(_, _)
ViewN(e, t, es, n) == [i \in 1..n |-> View(e, t, None, es[i], Top)]
(* the number of characters up to and including the terminator *)
Chars(es, i) == IF es[i].x = 0 THEN i ELSE Chars(es, i + 1)
IsChar(e, t) == Core0(e, t) = B("char")
Ptr0(v, t, n, e) == [w |-> "ptr", id |-> v.id, o |-> v.o, t |-> t, es |-> ViewN(e, t, v.es, n)]
View(e, t0, an, v, par) ==
    LET t == Core0(e, t0) IN
    CASE t.k \in {"b", "e"} -> [w |-> "num", t |-> t, x |-> v.x]
      [] t.k = "s" -> [w |-> "st", m |-> ViewS(e, t, v)]
      [] t.k = "a" /\ t.c >= 0 -> [w |-> "arr", t |-> t.of, es |-> ViewN(e, t.of, v.es, t.c)]
      [] t.k = "a" -> LET c == IF an.a = "count" THEN Count(an, par)
                               ELSE IF an.a = "zs" THEN (IF IsChar(e, t.of) THEN [r |-> "ok", x |-> Chars(v.es, 1)] ELSE [r |-> "err", x |-> 0])
                               ELSE No
                      IN  CASE c.r = "err" -> Bad(v) [] c.r = "none" -> [w |-> "fxu"]
                            [] OTHER -> [w |-> "fx", t |-> t.of, es |-> ViewN(e, t.of, v.es, c.x)]
      [] t.k = "u" -> LET p == Pick(an, t, par) IN
                      CASE p.r = "err" -> Bad(v)
                        [] p.r = "none" -> [w |-> "un", i |-> v.i, x |-> v.c]
                        [] OTHER -> [w |-> "uni", i |-> p.x, n |-> t.m[p.x].n, c |-> View(e, t.m[p.x].of, IF "an" \in DOMAIN t.m[p.x] THEN t.m[p.x].an ELSE None, v.c, In(t.m, <<>>))]
      [] t.k = "p" ->
           IF v.v = "nil" THEN [w |-> "nil"]
           ELSE LET plain == IF Unknown(t) THEN [w |-> "unk", id |-> v.id, o |-> v.o, b |-> View(e, Byte, None, v.es[1], Top)] ELSE Ptr0(v, t.of, 1, e) IN
           CASE an.a = "count" -> LET c == Count(an, par) IN IF c.r = "err" THEN Bad(v) ELSE IF Unknown(t) THEN plain ELSE Ptr0(v, t.of, c.x, e)
             [] an.a = "zs" -> IF IsChar(e, t.of) THEN Ptr0(v, t.of, Chars(v.es, 1), e) ELSE Bad(v)
             [] an.a = "cast" -> LET c == Cast(an, par) IN IF c.r = "err" THEN Bad(v) ELSE IF c.r = "none" THEN plain ELSE Ptr0(v, c.t, c.n, e)
             [] an.a = "cont" -> Ptr0(v, v.t, 1, e)
             [] OTHER -> plain
ViewS(e, t, v) == [i \in 1..Len(t.m) |-> View(e, t.m[i].of, t.m[i].an, v.m[i], In(t.m, v.m))]

(* everything a view consists of *)
RECURSIVE Parts(_)
Parts(w) == {w} \cup (CASE w.w = "st" -> UNION {Parts(w.m[i]) : i \in 1..Len(w.m)}
                        [] w.w \in {"ptr", "fx", "arr"} -> UNION {Parts(w.es[i]) : i \in 1..Len(w.es)}
                        [] w.w = "uni" -> Parts(w.c) [] OTHER -> {})
Kinds(w) == {p.w : p \in Parts(w)}
Refused(w, m) == LET ks == Kinds(w) IN
    "err" \in ks \/ ("un" \in ks /\ m.un = "fail") \/ ("fxu" \in ks /\ m.fx = "fail") \/ ("unk" \in ks /\ m.up = "fail")

(* ------------------------------------------------------------- showing *)
RECURSIVE Join(_, _), Digits(_, _), Ref2(_, _)
Join(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Join(s, i + 1)
Digits(s, i) == IF i > Len(s) THEN "" ELSE ToString(s[i]) \o Digits(s, i + 1)
Ref2(e, t) == CASE t.k = "r" -> D(t.n, "s") [] t.k = "p" -> P(Ref2(e, t.of)) [] t.k = "a" -> A(t.c, Ref2(e, t.of)) [] OTHER -> t
Adr(v) == <<"@" \o v.id \o ":" \o ToString(v.o)>>
EnumTok(x) == IF x = 0 THEN <<"e0">> ELSE IF x = 1 THEN <<"e1">> ELSE <<"#int:" \o ToString(x)>>
(* characters are numbers, too: 10 is a line feed, 77 an M, 39 a quote *)
Printable == {10, 77, 39}
ChTok(x) == CASE x = 10 -> "1" [] x = 77 -> "3" [] OTHER -> "4"
RECURSIVE ChToks(_, _, _)
ChToks(es, i, n) == IF i >= n THEN "" ELSE ChTok(es[i].x) \o ChToks(es, i + 1, n)
RECURSIVE Show(_, _, _, _), ShowM(_, _, _, _, _), Els(_, _, _)
Els(e, w, deep) == LET n == Len(w.es) IN
    IF n >= 2 /\ IsChar(e, w.t) /\ (\A i \in 1..(n - 1) : w.es[i].x \in Printable) /\ w.es[n].x = 0
    THEN <<"$" \o ChToks(w.es, 1, n)>>
    ELSE <<"{">> \o Join([i \in 1..n |-> Show(e, w.t, w.es[i], deep) \o <<",">>], 1) \o <<"}">>
ShowM(e, ms, vs, i, deep) ==
    IF i > Len(ms) THEN <<>>
    ELSE LET w == Show(e, ms[i].of, vs[i], deep) IN
         (IF vs[i].w = "fxu" THEN <<>>
          ELSE IF ms[i].n = "" THEN (IF w = <<"!">> THEN w ELSE SubSeq(w, 2, Len(w) - 1))
          ELSE <<".", ms[i].n, "=">> \o w \o <<",">>) \o ShowM(e, ms, vs, i + 1, deep)
Show(e, t0, w, deep) ==
    LET t == Core0(e, t0) IN
    CASE w.w = "err" -> IF t.k = "p" /\ ~deep THEN Adr(w) ELSE <<"!">>
      [] w.w = "num" -> IF t.k = "e" THEN EnumTok(w.x) ELSE <<"#" \o t.n \o ":" \o ToString(w.x)>>
      [] w.w = "st" -> <<"{">> \o ShowM(e, t.m, w.m, 1, deep) \o <<"}">>
      [] w.w = "un" -> <<"{", "}">>
      [] w.w = "uni" -> LET c == Show(e, t.m[w.i].of, w.c, deep) IN
                        <<"{">> \o (IF w.n = "" THEN (IF c = <<"!">> THEN c ELSE SubSeq(c, 2, Len(c) - 1)) ELSE <<".", w.n, "=">> \o c \o <<",">>) \o <<"}">>
      [] w.w = "nil" -> <<"NULL">>
      [] w.w = "unk" -> Adr(w)
      [] w.w \in {"arr", "fx"} -> Els(e, w, deep)
      [] w.w = "fxu" -> <<>>
      [] w.w = "ptr" -> IF ~deep THEN Adr(w)
                        ELSE IF w.o # 0 THEN <<"!">>
                        ELSE LET x == Els(e, w, deep) IN
                             IF x[1] \in {"{"} THEN <<"(">> \o TypeName(A(-1, Ref2(e, w.t))) \o <<")">> \o x ELSE x
Has(w, x) == \E i \in 1..Len(w) : w[i] = x
Text(e, t, w, deep) == LET x == Show(e, t, w, deep) IN IF Has(x, "!") THEN <<"!">> ELSE x

(* ------------------------------------------------------------- copying *)
(* the memory of the copy: a value whose blocks are new ("k" \o id); "same" keeps a pointer, *)
(* "zero" clears a union, "keep" is not touched                                              *)
RECURSIVE Copy(_, _, _), CopyN(_, _, _)
CopyN(ws, m, k) == [i \in 1..Len(ws) |-> Copy(ws[i], m, k)]
Copy(w, m, k) ==
    CASE w.w = "num" -> Num(w.x)
      [] w.w = "st" -> St(CopyN(w.m, m, k))
      [] w.w = "arr" -> Flex(CopyN(w.es, m, k))
      [] w.w = "fx" -> Flex(CopyN(w.es, m, k))
      [] w.w = "fxu" -> Flex(<<>>)
      [] w.w = "un" -> IF m.un = "ignore" THEN [v |-> "zero"] ELSE Uni(w.i, w.x)
      [] w.w = "uni" -> Uni(w.i, Copy(w.c, m, k))
      [] w.w = "nil" -> Nil
      [] w.w = "unk" -> CASE m.up = "ignore" -> Nil [] m.up = "value" -> [v |-> "same", id |-> w.id, o |-> w.o]
                          [] OTHER -> Blk(k \o w.id, 0, Byte, <<Num(w.b.x)>>)
      [] w.w = "ptr" -> Blk(k \o w.id, w.o, w.t, CopyN(w.es, m, k))

(* ------------------------------------------------------------ equality *)
RECURSIVE Eq(_, _, _)
EqN(a, b, m) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq(a[i], b[i], m)
Eq(a, b, m) == IF {a.w, b.w} = {"nil", "unk"} THEN m.up = "ignore" ELSE
    /\ a.w = b.w
    /\ CASE a.w = "num" -> a.t = b.t /\ a.x = b.x
         [] a.w = "st" -> EqN(a.m, b.m, m)
         [] a.w \in {"arr", "fx"} -> EqN(a.es, b.es, m)
         [] a.w = "fxu" -> TRUE
         [] a.w = "un" -> m.un = "ignore" \/ a.x = b.x
         [] a.w = "uni" -> a.i = b.i /\ Eq(a.c, b.c, m)
         [] a.w = "nil" -> TRUE
         [] a.w = "unk" -> CASE m.up = "ignore" -> TRUE [] m.up = "value" -> a.id = b.id /\ a.o = b.o [] OTHER -> Eq(a.b, b.b, m)
         [] a.w = "ptr" -> a.o = b.o /\ EqN(a.es, b.es, m)

(* ------------------------------------------------------------ releasing *)
Freed(w, m) == {p.id : p \in {q \in Parts(w) : q.w = "ptr" \/ (q.w = "unk" /\ m.up = "byte")}}

(* ------------------------------------------------- random environments *)
IntSibs == {"int", "uint", "short", "long", "char", "uchar", "ullong", "bool", "ushort", "ulong", "long"}
En == E("En", 4, <<[n |-> "e0", v |-> 0], [n |-> "e1", v |-> 1]>>)
(* z: the environment may be at odds with itself (siblings missing or not numbers, gaps in the cases) *)
SibT(z) == LET r == R(1..12) IN CASE r \in 1..8 -> B(R(IntSibs)) [] r = 9 -> En [] r = 10 -> T("tdi", B("int"))
                                  [] r = 11 -> (IF z THEN B(R({"double", "float"})) ELSE B("long")) [] OTHER -> (IF z THEN P(B("int")) ELSE B("int"))
SibN(z) == R(IF z THEN {"a", "b", "c", "zz"} ELSE {"a", "b"})
Odd(z) == z /\ R(1..3) = 1
Elem(i) == LET r == R(1..9) IN CASE r \in 1..3 -> B(R({"int", "char", "short", "double", "ullong"})) [] r \in 4..7 -> (IF i = 2 THEN RefT("N1") ELSE B("long"))
                                [] r = 8 -> P(B("int")) [] OTHER -> A(2, B("short"))
CastT(i) == LET r == R(1..5) IN CASE r = 1 -> B("int") [] r = 2 -> B("char") [] r = 3 -> (IF i = 2 THEN RefT("N1") ELSE B("double")) [] r = 4 -> P(B("short")) [] OTHER -> B("float")
Cases(i, z) == TLCEval([j \in 1..R(1..4) |-> Case(R({-1, 0, 1, 2, 3}), 0, "", CastT(i))])
(* without z every number from 0 to 4 has a case naming a member, in any order, maybe after a first one that has it, too *)
UCases(u, z) == IF R(1..3) = 1 THEN <<>>
             ELSE IF Odd(z) THEN TLCEval([j \in 1..R(1..4) |-> LET byname == R(1..2) = 1 IN
                        Case(R({-1, 0, 1, 2, 3}), R({0, 1, 2, 3, -1}), IF byname THEN R({"ua", "ub", "uc", "uq"}) ELSE "", Byte)])
             ELSE LET rot == R(0..4) dup == R(0..1)
                      pick(j) == IF R(1..2) = 1 THEN Case((rot + 3 * j) % 5, R(0..(Len(u.m) - 1)), "", Byte)
                                 ELSE Case((rot + 3 * j) % 5, R({-1, 0, 1, 7}), u.m[R(1..Len(u.m))].n, Byte)
                  IN  TLCEval([j \in 1..(5 + dup) |-> pick(j)])
UMem(n, t, a) == [n |-> n, of |-> t, an |-> a]
Zs == An("zs", "", "", <<>>, 0)
UnionT(i) == LET second == LET r == R(1..6) IN CASE r = 1 -> UMem("ub", P(B("char")), Zs) [] r = 2 -> UMem("ub", P(B("int")), None) [] r = 3 -> UMem("ub", IF i = 2 THEN P(RefT("N1")) ELSE B("double"), None)
                                             [] r = 4 -> UMem("ub", B("long"), None) [] r = 5 -> UMem("ub", A(3, B("char")), None) [] OTHER -> UMem("ub", B("float"), None)
             IN  U("", <<UMem("ua", B("int"), None), second>> \o (IF R(1..2) = 1 THEN <<UMem("uc", B("uchar"), None)>> ELSE <<>>))
(* an annotated member of structure i *)
AnnM(n, i, z) ==
    LET r == R(1..20) IN
    CASE r \in 1..5 -> MA(n, P(IF R(1..12) = 1 THEN Void ELSE Elem(i)), An("count", SibN(z), "", <<>>, 0))
      [] r \in 6..7 -> MA(n, P(IF Odd(z) THEN B("int") ELSE R({B("char"), T("tdc", B("char"))})), Zs)
      [] r \in 8..11 -> LET u == TLCEval(UnionT(i)) IN MA(IF R(1..3) = 1 THEN "" ELSE n, u, An("sel", SibN(z), "", UCases(u, z), 0))
      [] r = 12 -> LET u == TLCEval(UnionT(i)) IN MA(n, u, An("perm", "", "", <<>>, R(IF z THEN {0, 1, 2, 3, -1} ELSE {0, 1})))
      [] r \in 13..16 -> MA(n, P(R({Void, D("Decl", "s")})), An("cast", SibN(z), R({"", "a", "b"} \cup (IF z THEN {"zz"} ELSE {})), Cases(i, z), 0))
      [] r \in 17..18 -> IF i = 2 THEN MA(n, P(RefT("LK")), An("cont", "", "", <<>>, 0)) ELSE MA(n, P(B("short")), None)
      [] r = 19 -> MA(n, R({P(Void), P(B("int")), UnionT(i)}), R({None, An("count", SibN(z), "", <<>>, 0), An("perm", "", "", <<>>, 0)}))
      [] OTHER -> MA(n, B(R({"int", "double"})), Zs)
Struct(i, z) ==
             LET k == R(1..3)
                 ann == TLCEval([j \in 1..k |-> AnnM("p" \o ToString(j), i, z)])
                 pre == <<MA("a", SibT(z), None)>>
                 post == IF z /\ R(1..3) = 1 THEN <<>> ELSE <<MA("b", SibT(z), None)>>
                 lk == IF i = 1 THEN <<MA("lk", RefT("LK"), None)>> ELSE <<>>
                 fx == IF i = 2 /\ R(1..3) = 1
                       THEN LET zs == R(1..2) = 1 IN
                            <<MA("fl", A(-1, IF zs THEN B("char") ELSE R({B("int"), B("char"), RefT("N1")})),
                                 IF zs THEN Zs ELSE R({An("count", SibN(z), "", <<>>, 0), IF Odd(z) THEN Zs ELSE None}))>> ELSE <<>>
             IN  (IF R(1..3) = 1 THEN ann \o pre \o post \o lk ELSE IF R(1..2) = 1 THEN pre \o lk \o ann \o post ELSE lk \o pre \o post \o ann) \o fx
(* in one structure the alternatives of anonymous unions must not repeat names *)
OneAnon(ms) == Cardinality({i \in 1..Len(ms) : ms[i].n = ""}) <= 1
RECURSIVE Struct1(_, _)
Struct1(i, z) == LET s == TLCEval(Struct(i, z)) IN IF OneAnon(s) THEN s ELSE Struct1(i, z)
GenEnv(x) == LET n1 == TLCEval(Struct1(1, R(1..5) = 1)) n2 == TLCEval(Struct1(2, R(1..3) = 1)) IN [LK |-> <<MA("k", B("int"), None)>>, N1 |-> n1, N2 |-> n2]
RootN2 == [t |-> RefT("N2"), an |-> None]
Roots == {RootN2, [t |-> RefT("N1"), an |-> None], [t |-> P(RefT("N2")), an |-> None], [t |-> P(B("char")), an |-> Zs],
          [t |-> U("", <<UMem("ua", B("int"), None), UMem("ub", P(B("char")), Zs)>>), an |-> An("perm", "", "", <<>>, 1)],
          [t |-> P(RefT("LK")), an |-> An("cont", "", "", <<>>, 0)]}

(* ------------------------------------------------------- random values *)
GenNum(t) == IF t.k = "e" THEN Num(R(0..3))
             ELSE CASE t.n = "bool" -> Num(R(0..1)) [] t.n = "char" -> Num(R({-2, -1, 0, 1, 2, 3, 4, 10, 77, 39}))
                    [] t.n \in {"double", "float"} -> Num(R(0..4)) [] t.n \in {"uint", "ushort", "uchar", "ulong", "ullong"} -> Num(R(0..4))
                    [] OTHER -> Num(R(-2..4))
(* counters are numbers of elements that exist *)
GenSib(t) == LET f == Final(t) IN IF f.k = "p" THEN Nil ELSE IF f.k = "b" /\ f.n \in {"double", "float", "bool"} THEN GenNum(f)
             ELSE IF f.k = "b" /\ f.n \in {"int", "short", "long", "char"} /\ R(1..40) = 1 THEN Num(R(-2..-1))
             ELSE IF f.k = "b" /\ f.n \in {"long", "ulong", "llong", "ullong"} /\ R(1..12) = 1 THEN Num(Wide + R(0..4))
             ELSE IF f.k = "b" /\ f.n \in {"uint", "ulong", "ullong"} /\ R(1..16) = 1 THEN Num(Wide + Wide \div 2 + R(0..2)) ELSE Num(R(0..4))
IsSib(m) == m.n \in {"a", "b"}
RECURSIVE Gen0(_, _, _, _, _, _), GenS(_, _, _, _), GenN(_, _, _, _, _)
GenN(e, t, n, id, d) == TLCEval([i \in 1..n |-> Gen0(e, t, None, Top, id \o "." \o ToString(i), d)])
GenChars(n) == Append(TLCEval([i \in 1..n |-> Num(R({10, 77, 39, 77, 77, 0, 1, -1}))]), Num(0))
(* at least the elements that are visible *)
Cap(n) == IF n >= 4 THEN 4 ELSE R({IF n < 1 THEN 1 ELSE n, 4})
Gen0(e, t0, an, par, id, d) ==
    LET t == Core0(e, t0) IN
    CASE t.k \in {"b", "e"} -> GenNum(t)
      [] t.k = "s" -> GenS(e, t, id, d)
      [] t.k = "a" /\ t.c >= 0 -> Flex(GenN(e, t.of, t.c, id, d))
      [] t.k = "a" -> Flex(IF an.a = "zs" /\ IsChar(e, t.of) THEN GenChars(3) ELSE GenN(e, t.of, 4, id, 0))
      [] t.k = "u" -> LET p == Pick(an, t, par) IN
                      IF p.r # "ok" THEN Uni(1, GenNum(t.m[1].of))
                      ELSE Uni(p.x, Gen0(e, t.m[p.x].of, IF "an" \in DOMAIN t.m[p.x] THEN t.m[p.x].an ELSE None, Top, id \o "u", d))
      [] t.k = "p" ->
           IF R(1..8) = 1 \/ (d <= 0 /\ an.a \in {"none", "count", "cont"} /\ t.of.k = "r") THEN Nil
           ELSE LET el == IF Unknown(t) THEN Byte ELSE t.of IN
           CASE an.a = "count" -> LET c == Count(an, par) IN Blk(id, 0, el, GenN(e, el, Cap(c.x), id, d - 1))
             [] an.a = "zs" /\ IsChar(e, el) -> Blk(id, 0, el, GenChars(R(0..4)))
             [] an.a = "cast" -> LET c == Cast(an, par) IN Blk(id, 0, c.t, GenN(e, c.t, IF c.r = "ok" THEN Cap(c.n) ELSE 2, id, d - 1))
             [] an.a = "cont" -> Blk(id, OfMember(e, "N1", "lk"), RefT("N1"), GenN(e, RefT("N1"), 1, id, d - 1))
             [] OTHER -> Blk(id, 0, el, GenN(e, el, IF el = RefT("N2") THEN 1 ELSE R({1, 1, 2}), id, d - 1))
GenS(e, t, id, d) ==
    LET ms == t.m
        nums == TLCEval([i \in 1..Len(ms) |-> IF IsSib(ms[i]) THEN GenSib(ms[i].of) ELSE Nil])
    IN  St(TLCEval([i \in 1..Len(ms) |-> IF IsSib(ms[i]) THEN nums[i] ELSE Gen0(e, ms[i].of, ms[i].an, In(ms, nums), id \o "." \o ToString(i), d)]))

(* the same value with other block identities, and at most one number that steers nothing changed *)
RECURSIVE Mut(_, _, _, _, _, _)
MutN(e, t, es, k, go) == LET j == R(1..Len(es)) IN [i \in 1..Len(es) |-> Mut(e, t, None, es[i], k, go /\ i = j)]
Mut(e, t0, an, v, k, go) ==
    LET t == Core0(e, t0) IN
    CASE t.k \in {"b", "e"} -> IF go THEN GenNum(t) ELSE v
      [] t.k = "s" -> LET free == {i \in 1..Len(t.m) : ~IsSib(t.m[i])}
                          j == IF free = {} THEN 0 ELSE R(free)
                      IN  St([i \in 1..Len(t.m) |-> Mut(e, t.m[i].of, t.m[i].an, v.m[i], k, go /\ i = j)])
      [] t.k = "a" -> IF v.es = <<>> THEN v ELSE IF an.a = "zs" /\ IsChar(e, t.of) THEN v ELSE Flex(MutN(e, t.of, v.es, k, go))
      [] t.k = "u" -> Uni(v.i, Mut(e, t.m[v.i].of, IF "an" \in DOMAIN t.m[v.i] THEN t.m[v.i].an ELSE None, v.c, k, go))
      [] t.k = "p" -> IF v.v = "nil" THEN v
                      ELSE Blk(k \o v.id, v.o, v.t, IF an.a = "zs" THEN (IF go THEN GenChars(Len(v.es) - 1) ELSE v.es) ELSE MutN(e, v.t, v.es, k, go))

(* -------------------------------------------------------------- actions *)
Res(op, a, b, m, res, x) == [op |-> op, a |-> a, b |-> b, m |-> m, res |-> res, x |-> x]
NoMode == [mb |-> "", up |-> "", un |-> "", fx |-> ""]
RMode(x) == IF R(1..6) = 1 THEN [mb |-> "dag", up |-> "fail", un |-> "fail", fx |-> "fail"]
            ELSE [mb |-> R({"dag", "tree"}), up |-> R({"ignore", "value", "byte", "value", "byte", "fail"}), un |-> R({"ignore", "mem", "mem", "fail"}), fx |-> R({"ignore", "ignore", "fail"})]
Kept(m) == m.up = "byte" /\ m.un = "mem"
ViewOf(i) == View(env, root.t, root.an, vals[i].v, Top)
Log(r) == last' = r /\ hist' = Append(hist, r)
Live == {i \in 1..Len(vals) : vals[i].live}
Init == env = <<>> /\ root = <<>> /\ vals = <<>> /\ hist = <<>> /\ last = Res("none", 0, 0, NoMode, "", <<>>)
Start == \E e \in {GenEnv(hist)} : \E r \in {IF R(1..3) > 1 THEN RootN2 ELSE R(Roots)} :
    \E v1 \in {Gen0(e, r.t, r.an, Top, "x", 2)} : \E v2 \in {Gen0(e, r.t, r.an, Top, "y", 2)} :
    \E v3 \in {Mut(e, r.t, r.an, v1, "z", FALSE)} : \E v4 \in {Mut(e, r.t, r.an, v1, "w", TRUE)} :
        /\ env' = e /\ root' = r
        /\ vals' = <<[v |-> v1, live |-> TRUE], [v |-> v2, live |-> TRUE], [v |-> v3, live |-> TRUE], [v |-> v4, live |-> TRUE]>>
        /\ last' = Res("init", 0, 0, NoMode, "", <<>>)
        /\ hist' = <<[op |-> "init", env |-> e, root |-> r, vals |-> <<v1, v2, v3, v4>>]>>
Render(i, d) == LET x == Text(env, root.t, ViewOf(i), d = 1) IN
    UNCHANGED <<env, root, vals>> /\ Log(Res("show", i, d, NoMode, IF x = <<"!">> THEN "none" ELSE "text", x))
CopyTo(i, m) == LET w == ViewOf(i) IN
    IF Refused(w, m) THEN UNCHANGED <<env, root, vals>> /\ Log(Res("copy", i, 0, m, "fail", <<>>))
    ELSE \E c \in {Copy(w, m, "c" \o ToString(Len(hist)))} :
         /\ vals' = Append(vals, [v |-> c, live |-> Kept(m) \/ Kinds(w) \cap {"unk", "un"} = {}])
         /\ UNCHANGED <<env, root>> /\ Log(Res("copy", i, Len(vals) + 1, m, "ok", c))
Compare(i, j, m) == LET a == ViewOf(i) b == ViewOf(j) IN
    UNCHANGED <<env, root, vals>> /\ Log(Res("eq", i, j, m, IF Refused(a, m) \/ Refused(b, m) THEN "error" ELSE IF Eq(a, b, m) THEN "1" ELSE "0", <<>>))
Release(i, m) == LET w == ViewOf(i) IN
    IF Refused(w, m) THEN UNCHANGED <<env, root, vals>> /\ Log(Res("free", i, 0, m, "fail", {}))
    ELSE vals' = [vals EXCEPT ![i].live = FALSE] /\ UNCHANGED <<env, root>> /\ Log(Res("free", i, 0, m, "ok", Freed(w, m)))
End == UNCHANGED <<env, root, vals>> /\ Log(Res("end", 0, 0, NoMode, "", <<>>))
Next == IF hist = <<>> THEN Start ELSE IF Live = {} THEN End ELSE
    \E i \in {R(Live)} : \E j \in {R(Live)} : \E k \in {R(1..Len(Mix))} : \E m \in {RMode(hist)} :
        \/ Mix[k] = "show" /\ Render(i, R({0, 1, 1, 1}))
        \/ Mix[k] = "copy" /\ CopyTo(i, m)
        \/ Mix[k] = "eq" /\ Compare(i, j, m)
        \/ Mix[k] = "free" /\ Release(i, m)

(* ----------------------------------------------------------- properties *)
(* a copy shows what its source shows *)
CopyShows == last.op = "copy" /\ last.res = "ok" /\ Kept(last.m) =>
    /\ Eq(ViewOf(last.a), View(env, root.t, root.an, last.x, Top), last.m)
    /\ "err" \notin Kinds(View(env, root.t, root.an, last.x, Top))
(* new blocks only *)
RECURSIVE Ids(_)
Ids(v) == CASE v.v = "ptr" -> {v.id} \cup UNION {Ids(v.es[i]) : i \in 1..Len(v.es)} [] v.v = "st" -> UNION {Ids(v.m[i]) : i \in 1..Len(v.m)}
            [] v.v = "flex" -> UNION {Ids(v.es[i]) : i \in 1..Len(v.es)} [] v.v = "uni" -> Ids(v.c) [] OTHER -> {}
CopyFresh == last.op = "copy" /\ last.res = "ok" => Ids(last.x) \cap UNION {Ids(vals[i].v) : i \in 1..(Len(vals) - 1)} = {}
Symmetric == last.op = "eq" /\ last.res \in {"0", "1"} => (last.res = "1") = Eq(ViewOf(last.b), ViewOf(last.a), last.m)
(* only blocks of the value are released *)
FreeOwn == last.op = "free" /\ last.res = "ok" => last.x \subseteq Ids(vals[last.a].v)
(* an annotation never makes more visible than is there *)
SimEmit == Len(hist) = SimDepth => CSVWrite("%1$s", <<ToJson(hist)>>, EmitFile)
=============================================================================
