-------------------------------- MODULE Deep --------------------------------
(* Deep copy, comparison and release (src/value_deep.c) over a heap of typed   *)
(* blocks.  Structures refer to each other by name ([k "r", n]); Env gives     *)
(* their members.  A block has a type and, for every leaf of that type, a      *)
(* content: a number, nothing (NULL), or a pointer to an offset of a block.    *)
(* Values are blocks of their own ("tops") that no pointer leads into.         *)
EXTENDS CText, Json, CSV

CONSTANTS NEnv, MaxBlocks, SimDepth, Mix, EmitFile
VARIABLES env,     \* [m: structure name -> members, l: type -> layout]
          heap,    \* sequence of [t, leaf, c, live, top]
          last,    \* last operation and its outcome
          hist     \* what happened so far
vars == <<env, heap, last, hist>>

RefT(n) == [k |-> "r", n |-> n]
RECURSIVE Ex(_, _), ExM(_, _)
(* by-value references replaced by the structures they name *)
Ex(e, t) == CASE t.k = "r" -> S(t.n, ExM(e, e[t.n])) [] t.k = "s" -> [t EXCEPT !.m = ExM(e, t.m)]
              [] t.k = "a" -> A(t.c, Ex(e, t.of)) [] t.k = "t" -> T(t.n, Ex(e, t.of)) [] OTHER -> t
ExM(e, m) == [i \in 1..Len(m) |-> M(m[i].n, Ex(e, m[i].of))]

(* leaves and sub-objects of an expanded type *)
RECURSIVE Flat(_, _), FlatM(_, _, _), FlatA(_, _, _), Subs(_, _)
Flat(t, o) == CASE t.k = "s" -> FlatM(t, o, 1) [] t.k = "a" /\ t.c >= 0 -> FlatA(t, o, 0)
                [] t.k = "t" -> Flat(t.of, o) [] OTHER -> <<[o |-> o, t |-> t]>>
FlatM(t, o, i) == IF i > Len(t.m) THEN <<>> ELSE Flat(t.m[i].of, o + Offset(t, i)) \o FlatM(t, o, i + 1)
FlatA(t, o, i) == IF i >= t.c THEN <<>> ELSE Flat(t.of, o + i * Size(t.of)) \o FlatA(t, o, i + 1)
Subs(t, o) == {[o |-> o, t |-> t]} \cup
    (CASE t.k = "s" -> UNION {Subs(t.m[i].of, o + Offset(t, i)) : i \in 1..Len(t.m)}
       [] t.k = "a" /\ t.c > 0 -> UNION {Subs(t.of, o + i * Size(t.of)) : i \in 0..(t.c - 1)}
       [] t.k = "t" -> Subs(t.of, o)
       [] OTHER -> {})

IsPtr(t) == t.k = "p"
Unknown(t) == t.k = "p" /\ Final(t.of).k \in {"v", "d"}
Num(x) == [v |-> "num", x |-> x, o |-> 0]
Nil == [v |-> "nil", x |-> 0, o |-> 0]
Ptr(b, o) == [v |-> "ptr", x |-> b, o |-> o]
Byte == B("uchar")

(* ------------------------------------------------------------- meaning *)
(* layout of a type, computed once: its leaves, their positions by offset, its size, its sub-objects *)
RECURSIVE Un(_)
Un(t) == CASE t.k = "s" /\ t.n # "" -> RefT(t.n) [] t.k = "a" -> A(t.c, Un(t.of)) [] t.k = "t" -> T(t.n, Un(t.of)) [] OTHER -> t
Layout(m, t) == LET x == Ex(m, t) f == Flat(x, 0) IN
    [f |-> f, ix |-> [o \in {f[i].o : i \in 1..Len(f)} |-> CHOOSE i \in 1..Len(f) : f[i].o = o], sz |-> Size(x),
     subs |-> {[o |-> y.o, t |-> Un(y.t)] : y \in Subs(x, 0)}]
Fl(e, t) == e.l[t].f
Sz(e, t) == e.l[t].sz
At(e, h, b, o) == h[b].c[e.l[h[b].t].ix[o]]
Target(t) == IF Unknown(t) THEN Byte ELSE t.of   \* what a pointer of type t shows
Follow(t, m) == ~Unknown(t) \/ m.up = "byte"
(* objects shown from an object, transitively: [b, o, t] *)
Out(e, h, r, m) == LET f == Fl(e, r.t) IN
                   {LET c == At(e, h, r.b, r.o + f[i].o) IN [b |-> c.x, o |-> c.o, t |-> Target(f[i].t)] :
                      i \in {j \in 1..Len(f) : IsPtr(f[j].t) /\ Follow(f[j].t, m) /\ At(e, h, r.b, r.o + f[j].o).v = "ptr"}}
RECURSIVE Close(_, _, _, _, _)
Close(e, h, done, todo, m) ==
    IF todo = {} THEN done
    ELSE LET n == UNION {Out(e, h, r, m) : r \in todo} IN Close(e, h, done \cup todo, n \ (done \cup todo), m)
Reach(e, h, b, m) == Close(e, h, {}, {[b |-> b, o |-> 0, t |-> h[b].t]}, m)
Blocks(rs) == {r.b : r \in rs}
ByteMode == [mb |-> "dag", up |-> "byte", un |-> "mem", fx |-> "ignore"]

(* graphs the operations are defined on: every block reached is reached as a whole,   *)
(* no pointer repeats the address of an enclosing pointer while showing more than it, *)
(* and everything reached is alive                                                     *)
(* Walk: what remains of a budget k of pointers to follow, 0 if it does not suffice or *)
(* such a pointer is met                                                               *)
RECURSIVE Walk(_, _, _, _, _), WalkL(_, _, _, _, _, _, _)
Walk(e, h, r, anc, k) == IF k <= 0 THEN 0 ELSE WalkL(e, h, r, Fl(e, r.t), 1, anc, k - 1)
WalkL(e, h, r, f, i, anc, k) ==
    IF k <= 0 \/ i > Len(f) THEN k
    ELSE IF ~IsPtr(f[i].t) THEN WalkL(e, h, r, f, i + 1, anc, k)
    ELSE LET c == At(e, h, r.b, r.o + f[i].o) IN
         IF c.v # "ptr" THEN WalkL(e, h, r, f, i + 1, anc, k)
         ELSE LET n == [b |-> c.x, o |-> c.o, t |-> Target(f[i].t)]
                  same == {a \in anc : a.b = n.b /\ a.o = n.o}
              IN  IF same # {} THEN (IF \E a \in same : Sz(e, a.t) < Sz(e, n.t) THEN 0 ELSE WalkL(e, h, r, f, i + 1, anc, k))
                  ELSE WalkL(e, h, r, f, i + 1, anc, Walk(e, h, n, anc \cup {n}, k))
Valid(e, h, b) ==
    /\ Walk(e, h, [b |-> b, o |-> 0, t |-> h[b].t], {}, 40) > 0
    /\ LET R1 == Reach(e, h, b, ByteMode) IN
       \A r \in R1 : h[r.b].live /\ (r.b # b => \E q \in R1 : q.b = r.b /\ q.o = 0 /\ q.t = h[r.b].t)

(* what cannot be interpreted under a mode *)
Refused(e, h, b, m) == \E r \in Reach(e, h, b, m) : \E i \in 1..Len(Fl(e, r.t)) :
    LET l == Fl(e, r.t)[i] IN
    \/ l.t.k = "u" /\ m.un = "fail"
    \/ l.t.k = "a" /\ m.fx = "fail"
    \/ Unknown(l.t) /\ At(e, h, r.b, r.o + l.o).v = "ptr" /\ m.up = "fail"

(* --------------------------------------------------------------- copy *)
Leaf(l, c, m, tgt) == CASE l.t.k = "u" -> IF m.un = "ignore" THEN Num(0) ELSE c
                        [] l.t.k = "p" -> IF c.v = "nil" THEN Nil
                                          ELSE IF Unknown(l.t) /\ m.up = "ignore" THEN Nil
                                          ELSE IF Unknown(l.t) /\ m.up = "value" THEN c
                                          ELSE tgt
                        [] OTHER -> c
Cell(e, t, c, top) == [t |-> t, z |-> Sz(e, t), leaf |-> Fl(e, t), c |-> c, live |-> TRUE, top |-> top]
(* graph mode: one new block per reached block; sequence of new cells, the first is the destination *)
SeqOf(s) == LET RECURSIVE G(_) G(x) == IF x = {} THEN <<>> ELSE LET a == CHOOSE a \in x : \A y \in x : a <= y IN <<a>> \o G(x \ {a}) IN G(s)
DagCopy(e, h, b, m) ==
    LET bs == SeqOf(Blocks(Reach(e, h, b, m)) \ {b})
        all == <<b>> \o bs
        new(x) == Len(h) + (CHOOSE i \in 1..Len(all) : all[i] = x)
        cells == [i \in 1..Len(all) |->
                   LET q == h[all[i]] IN
                   Cell(e, q.t, [j \in 1..Len(q.leaf) |-> Leaf(q.leaf[j], q.c[j], m, IF q.c[j].v = "ptr" /\ IsPtr(q.leaf[j].t) /\ Follow(q.leaf[j].t, m) THEN Ptr(new(q.c[j].x), q.c[j].o) ELSE Nil)], i = 1)]
    IN  cells
(* tree mode: one new block per pointer met, except for pointers back to an enclosing one *)
RECURSIVE Grow(_, _, _, _, _, _), GrowL(_, _, _, _, _, _, _, _)
Grow(e, h, r, anc, id, m) ==
    LET x == GrowL(e, h, r, Fl(e, r.t), 1, anc, id, m) IN <<Cell(e, r.t, x.c, anc = <<>>)>> \o x.cells
GrowL(e, h, r, f, i, anc, id, m) ==
    IF i > Len(f) THEN [c |-> <<>>, cells |-> <<>>]
    ELSE LET go(c0, cells0) == LET rest == GrowL(e, h, r, f, i + 1, anc, id + Len(cells0), m)
                               IN  [c |-> <<c0>> \o rest.c, cells |-> cells0 \o rest.cells]
             c == At(e, h, r.b, r.o + f[i].o)
             ptr == IsPtr(f[i].t) /\ c.v = "ptr" /\ Follow(f[i].t, m)
             up == {j \in 1..Len(anc) : anc[j].b = c.x /\ anc[j].o = c.o}
         IN  IF ~ptr THEN go(Leaf(f[i], c, m, Nil), <<>>)
             ELSE IF up # {} THEN go(Ptr(anc[CHOOSE j \in up : \A y \in up : y <= j].id, 0), <<>>)
             ELSE LET n == [b |-> c.x, o |-> c.o, t |-> Target(f[i].t)]
                      sub == Grow(e, h, n, Append(anc, [b |-> n.b, o |-> n.o, id |-> id + 1]), id + 1, m)
                  IN  go(Ptr(id + 1, 0), sub)
TreeCopy(e, h, b, m) == Grow(e, h, [b |-> b, o |-> 0, t |-> h[b].t], <<>>, Len(h) + 1, m)

(* ------------------------------------------------------------ equality *)
LoopAt(anc, c) == LET up == {j \in 1..Len(anc) : anc[j] = <<c.x, c.o>>} IN IF up = {} THEN 0 ELSE Len(anc) + 1 - (CHOOSE j \in up : \A y \in up : y <= j)
RECURSIVE Eq(_, _, _, _, _, _, _)
Eq(e, h, r1, r2, a1, a2, m) ==
    LET f1 == Fl(e, r1.t) f2 == Fl(e, r2.t) IN
    Len(f1) = Len(f2) /\ \A i \in 1..Len(f1) :
        LET c1 == At(e, h, r1.b, r1.o + f1[i].o) c2 == At(e, h, r2.b, r2.o + f2[i].o) t == f1[i].t IN
        CASE t.k = "u" -> m.un = "ignore" \/ c1.x = c2.x
          [] t.k = "a" -> TRUE
          [] t.k # "p" -> c1.x = c2.x
          [] Unknown(t) /\ m.up = "ignore" -> TRUE
          [] Unknown(t) /\ m.up = "value" -> c1 = c2
          [] c1.v = "nil" \/ c2.v = "nil" -> c1.v = c2.v
          [] OTHER ->
               LET l1 == LoopAt(a1, c1) l2 == LoopAt(a2, c2)
                   n1 == [b |-> c1.x, o |-> c1.o, t |-> Target(t)]
                   n2 == [b |-> c2.x, o |-> c2.o, t |-> Target(t)]
               IN  /\ l1 = l2
                   /\ (l1 > 0 \/ ((m.mb = "dag" => c1.o = c2.o)
                                  /\ Eq(e, h, n1, n2, Append(a1, <<c1.x, c1.o>>), Append(a2, <<c2.x, c2.o>>), m)))
Equal(e, h, b1, b2, m) == Eq(e, h, [b |-> b1, o |-> 0, t |-> h[b1].t], [b |-> b2, o |-> 0, t |-> h[b2].t], <<>>, <<>>, m)

(* ------------------------------------------------------------- showing *)
(* Tokens of the initialiser of the object of type t at offset o of block b.  *)
(* "#n:x" stands for number x of base type n, "@b:o" for an address, "$..." for  *)
(* a string literal, "!" for what cannot be shown.                              *)
RECURSIVE Deref(_, _)
Deref(e, t) == CASE t.k = "r" -> S(t.n, e.m[t.n]) [] t.k = "t" -> Deref(e, t.of) [] t.k = "q" -> Deref(e, t.of) [] OTHER -> t
(* references replaced by the (named) structures they stand for, for their names *)
RECURSIVE Ref2(_, _)
Packs(t) == t.k = "e" /\ t.n \in {"Bits3", "Bits4"}
Ref2(e, t) == CASE t.k = "r" \/ Packs(t) -> D(t.n, "s") [] t.k = "p" -> P(Ref2(e, t.of)) [] t.k = "a" -> A(t.c, Ref2(e, t.of)) [] OTHER -> t
RECURSIVE Join(_, _), Digits(_, _)
Join(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Join(s, i + 1)
Digits(s, i) == IF i > Len(s) THEN "" ELSE ToString(s[i]) \o Digits(s, i + 1)
Adr(c) == <<"@" \o ToString(c.x) \o ":" \o ToString(c.o)>>
Printable == {1, 3, 4}     \* numbers of a char that a string literal can show
EnumTok(x) == CASE x = 0 -> <<"e0">> [] x = 1 -> <<"e1">> [] x = 2 -> <<"e7">> [] OTHER -> <<"#en:" \o ToString(x)>>
(* A structure of bit-fields is one leaf whose number selects the contents of all its fields  *)
(* (tools/c_deep.py); Bits3 and Bits4 are the two ways in which their places are described.     *)
Fields(n) == E(n, 8, <<>>)
BitsTok(x) == <<"{">> \o Join([i \in 1..6 |-> <<".", "b" \o ToString(i), "=", "#b" \o ToString(i) \o ":" \o ToString(x), ",">>], 1) \o <<"}">>
RECURSIVE Show(_, _, _, _, _, _, _)
Show(e, h, b, o, t0, anc, deep) ==
    LET t == Deref(e, t0)
        c == At(e, h, b, o)
    IN
    CASE t.k = "b" -> <<"#" \o t.n \o ":" \o ToString(c.x)>>
      [] t.k = "e" -> IF Packs(t) THEN BitsTok(c.x) ELSE EnumTok(c.x)
      [] t.k = "u" -> <<"{", "}">>
      [] t.k = "s" ->
            LET x == Ex(e.m, t)
                mem(i) == LET d == Deref(e, t.m[i].of)
                              w == Show(e, h, b, o + Offset(x, i), t.m[i].of, anc, deep)
                          IN  IF t.m[i].n = "" THEN SubSeq(w, 2, Len(w) - 1)
                              ELSE <<".", t.m[i].n, "=">> \o w \o <<",">>
            IN  <<"{">> \o Join([i \in 1..Len(t.m) |-> mem(i)], 1) \o <<"}">>
      [] t.k = "a" ->
            LET z == Size(Ex(e.m, t.of))
                d == Deref(e, t.of)
                chars == [i \in 1..t.c |-> At(e, h, b, o + i - 1).x]
            IN  IF t.c >= 2 /\ d = B("char") /\ (\A i \in 1..(t.c - 1) : At(e, h, b, o + i - 1).x \in Printable) /\ At(e, h, b, o + t.c - 1).x = 0
                THEN <<"$" \o Digits(SubSeq(chars, 1, t.c - 1), 1)>>
                ELSE <<"{">> \o Join([i \in 1..(IF t.c < 0 THEN 0 ELSE t.c) |-> Show(e, h, b, o + (i - 1) * z, t.of, anc, deep) \o <<",">>], 1) \o <<"}">>
      [] t.k = "p" ->
            IF c.v = "nil" THEN <<"NULL">>
            ELSE IF ~deep THEN Adr(c)
            ELSE IF \E j \in 1..Len(anc) : anc[j] = <<c.x, c.o>> THEN <<"!">>
            ELSE IF Unknown(t) THEN Adr(c)
            ELSE <<"(">> \o TypeName(A(-1, Ref2(e, t.of))) \o <<")", "{">> \o Show(e, h, c.x, c.o, t.of, Append(anc, <<c.x, c.o>>), deep) \o <<",", "}">>
Text(e, h, b, deep) == LET w == Show(e, h, b, 0, h[b].t, <<>>, deep) IN IF \E i \in 1..Len(w) : w[i] = "!" THEN <<"!">> ELSE w

(* ------------------------------------------------- random environments *)
Names == [i \in 1..3 |-> "N" \o ToString(i)]
Bases == {"int", "int", "char", "uchar", "short", "long", "ullong", "double", "float", "bool", "ldouble", "cdouble"}
RName(x) == RefT(Names[R(1..3)])
GenM(i) ==
    LET r == R(1..29) IN
    CASE r = 27 -> Fields(R({"Bits3", "Bits4"}))
      [] r = 28 -> P(Fields("Bits4"))
      [] r = 29 -> A(2, Fields("Bits3"))
      [] r \in 1..5 -> B(R(Bases))
      [] r \in 6..11 -> P(RName(i))
      [] r = 12 -> P(B("int"))
      [] r = 13 -> P(Byte)
      [] r \in 14..15 -> P(R({Void, D("Decl", "s"), Q("const", Void), T("tvoid", Void), Q("const", D("Decl", "s")), T("tdecl", D("Decl", "s"))}))
      [] r = 16 -> P(P(RName(i)))
      [] r = 17 -> A(2, P(RName(i)))
      [] r = 18 -> A(R(1..3), B(R(Bases)))
      [] r = 19 -> S("", <<M("x", B("int")), M("y", P(RName(i))), M("z", B(R(Bases)))>>)
      [] r = 20 -> U("", <<M("ua", B("int")), M("ub", A(6, B("char")))>>)
      [] r = 21 -> T("td1", P(RName(i)))
      [] r = 22 -> E("En", 4, <<[n |-> "e0", v |-> 0], [n |-> "e1", v |-> 1], [n |-> "e7", v |-> 7]>>)
      [] r = 24 -> A(3, B("char"))
      [] r = 25 -> P(A(2, B("char")))
      [] r = 23 -> P(A(2, RefT(Names[1])))
      [] OTHER -> IF i > 1 THEN R({RefT(Names[i - 1]), A(2, RefT(Names[1]))}) ELSE B("int")
GenStruct(i) == LET n == R(2..5)
                    ms == TLCEval([j \in 1..n |-> M("f" \o ToString(j), GenM(i))])
                IN  IF R(1..8) = 1 /\ i = 3 THEN Append(ms, M("flex", A(-1, B("int")))) ELSE ms
GenEnv(x) == LET f == TLCEval([i \in 1..3 |-> TLCEval(GenStruct(i))]) IN TLCEval( [n \in {Names[i] : i \in 1..3} |-> f[CHOOSE i \in 1..3 : Names[i] = n]])

TopTypes == {RefT("N1"), RefT("N2"), RefT("N3"), P(RefT("N1")), P(RefT("N3")), A(2, P(RefT("N2"))), P(P(RefT("N2")))}
(* pointee types that occur *)
RECURSIVE Pointees(_)
Pointees(t) == CASE t.k = "p" -> (IF Unknown(t) THEN {Byte} ELSE {t.of} \cup (IF t.of.k = "r" THEN {} ELSE Pointees(t.of)))
                 [] t.k \in {"s", "u"} -> UNION {Pointees(t.m[i].of) : i \in 1..Len(t.m)}
                 [] t.k \in {"a", "t"} -> Pointees(t.of) [] OTHER -> {}
GenNum(t) == Num(IF t.k = "b" /\ t.n = "bool" THEN R(0..1) ELSE IF Packs(t) THEN R(0..6) ELSE IF t.k = "e" THEN R(0..3) ELSE R(0..4))
HasFlex(t) == \E i \in 1..Len(Flat(t, 0)) : Flat(t, 0)[i].t.k = "a"
EnvOf(m) == LET ts == TopTypes \cup UNION {Pointees(S("", m[n])) : n \in DOMAIN m} \cup UNION {Pointees(t) : t \in TopTypes} \cup {Byte}
            IN  [m |-> m, l |-> TLCEval([t \in ts |-> Layout(m, t)])]
(* candidate targets of a pointer: whole blocks, and sub-objects *)
Whole(e, h, t) == {Ptr(b, 0) : b \in {x \in 1..Len(h) : ~h[x].top /\ h[x].live /\ h[x].t = Target(t)}}
Part(e, h, t) == UNION {{Ptr(b, s.o) : s \in {y \in e.l[h[b].t].subs : y.t = Target(t)}} : b \in {x \in 1..Len(h) : ~h[x].top /\ h[x].live}}
GenPtr(e, h, t) == LET w == Whole(e, h, t) p == IF Unknown(t) THEN w ELSE Part(e, h, t) r == R(1..10) IN
                   IF r <= 2 \/ (w = {} /\ p = {}) THEN Nil ELSE IF (r <= 7 \/ p = {}) /\ w # {} THEN R(w) ELSE IF p # {} THEN R(p) ELSE Nil
Fill(e, h) == [b \in 1..Len(h) |-> [h[b] EXCEPT !.c = [i \in 1..Len(h[b].leaf) |->
                 LET t == h[b].leaf[i].t IN IF IsPtr(t) THEN GenPtr(e, h, t) ELSE IF t.k = "a" THEN Num(0) ELSE GenNum(t)]]]
GenHeap(e) ==
    LET tt == R({t \in TopTypes : TRUE})
        pool == UNION {Pointees(S("", e.m[n])) : n \in DOMAIN e.m} \cup Pointees(tt) \cup {RefT("N1")}
        n == R(2..MaxBlocks)
        ntop == R(1..2)
        cells == TLCEval([i \in 1..(n + ntop) |-> IF i <= ntop THEN Cell(e, tt, <<>>, TRUE) ELSE Cell(e, R(pool), <<>>, FALSE)])
    IN  TLCEval(Fill(e, cells))
(* an environment whose structures nest flexible arrays only at the end *)
OkEnv(e) == \A n \in DOMAIN e : \A i \in 1..Len(e[n]) : LET t == e[n][i].of IN
                (t.k = "r" => ~HasFlex(Ex(e, t))) /\ (t.k = "a" /\ t.c > 0 => ~HasFlex(Ex(e, t)))
                /\ (t.k = "p" /\ t.of.k = "a" => ~HasFlex(Ex(e, t.of)))

(* ------------------------------------------------------------ behaviour *)
Log(x) == last' = x /\ hist' = Append(hist, x)
Tops == {b \in 1..Len(heap) : heap[b].top /\ heap[b].live}
Good == {b \in Tops : Valid(env, heap, b)}
Modes == [mb : {"dag", "tree"}, up : {"fail", "ignore", "value", "byte"}, un : {"fail", "ignore", "mem"}, fx : {"fail", "ignore"}]
(* mostly lenient modes, so that most operations go through *)
RMode(x) == LET r == R(1..4) IN
         [mb |-> R({"dag", "tree"}), up |-> IF r = 1 THEN R({"fail", "ignore"}) ELSE R({"ignore", "value", "byte"}),
          un |-> IF r = 2 THEN R({"fail", "ignore"}) ELSE R({"ignore", "mem"}), fx |-> IF r = 3 THEN R({"fail", "ignore"}) ELSE "ignore"]
Res(op, a, b, m, res, cells) == [op |-> op, a |-> a, b |-> b, m |-> m, res |-> res, cells |-> cells]
NoMode == [mb |-> "", up |-> "", un |-> "", fx |-> ""]

Init == \E i \in 1..NEnv : \E ms \in {GenEnv(i)} : OkEnv(ms) /\ \E e \in {EnvOf(ms)} : \E h \in {GenHeap(e)} :
          /\ env = e /\ heap = h
          /\ \E b \in 1..2 : h[b].top /\ Valid(e, h, b)
          /\ last = Res("init", 0, 0, NoMode, "", <<>>)
          /\ hist = <<[env |-> [n \in DOMAIN ms |-> S(n, ms[n])], heap |-> h]>>

CopyTo(b, m) ==
    IF Refused(env, heap, b, m) THEN UNCHANGED <<env, heap>> /\ Log(Res("copy", b, 0, m, "fail", <<>>))
    ELSE LET cells == IF m.mb = "dag" THEN DagCopy(env, heap, b, m) ELSE TreeCopy(env, heap, b, m)
         IN  /\ heap' = heap \o cells /\ UNCHANGED env
             /\ Log(Res("copy", b, Len(heap) + 1, m, "ok", cells))
Compare(b1, b2, m) ==
    /\ UNCHANGED <<env, heap>>
    /\ Log(Res("eq", b1, b2, m, IF Refused(env, heap, b1, m) \/ Refused(env, heap, b2, m) THEN "error"
                                ELSE IF Equal(env, heap, b1, b2, m) THEN "1" ELSE "0", <<>>))
FreeSet(b, m) == Blocks(Reach(env, heap, b, m)) \ {b}
(* releasing is only defined when the mode shows everything there is to release *)
Release(b, m) ==
    IF Refused(env, heap, b, m) THEN UNCHANGED <<env, heap>> /\ Log(Res("free", b, 0, m, "fail", <<>>))
    ELSE LET fs == FreeSet(b, m) IN
         /\ heap' = [x \in 1..Len(heap) |-> IF x \in fs \/ x = b THEN [heap[x] EXCEPT !.live = FALSE] ELSE heap[x]]
         /\ UNCHANGED env /\ Log(Res("free", b, 0, m, "ok", SeqOf(fs)))
Poke(b, i) ==
    LET t == heap[b].leaf[i].t
    IN  \E c \in {IF IsPtr(t) THEN GenPtr(env, heap, t) ELSE GenNum(t)} :
        /\ t.k # "a" /\ UNCHANGED env
        /\ heap' = [heap EXCEPT ![b].c[i] = c]
        /\ Log(Res("poke", b, i, NoMode, "", <<[c |-> c]>>))
Render(b, d) == UNCHANGED <<env, heap>> /\ Log(Res("show", b, d, NoMode, IF Text(env, heap, b, d = 1) = <<"!">> THEN "none" ELSE "text", Text(env, heap, b, d = 1)))
(* a destination of another type is refused *)
Mismatch(b, m) == UNCHANGED <<env, heap>> /\ Log(Res("mismatch", b, R(0..3), m, "fail", <<>>))
Live(b) == {x \in Blocks(Reach(env, heap, b, ByteMode)) : Len(heap[x].leaf) > 0}
Other(b, g) == LET s == {x \in g : heap[x].t = heap[b].t} IN IF s # {b} /\ R(1..4) > 1 THEN R(s \ {b}) ELSE R(s)
End == UNCHANGED <<env, heap>> /\ Log(Res("end", 0, 0, NoMode, "", <<>>))
Next == \E g \in {Good} : IF g = {} THEN End ELSE
    \E b \in {R(g)} : \E b2 \in {Other(b, g)} : \E k \in {R(1..Len(Mix))} : \E m \in {RMode(hist)} :
         \/ Mix[k] = "copy" /\ IF Cardinality(g) < 7 THEN CopyTo(b, m) ELSE Compare(b, b2, m)
         \/ Mix[k] = "eq" /\ Compare(b, b2, m)
         \/ Mix[k] = "free" /\ Release(b, m)
         \/ Mix[k] = "poke" /\ \E x \in {R(Live(b))} : \E i \in {R(1..Len(heap[x].leaf))} : Poke(x, i)
         \/ Mix[k] = "show" /\ Render(b, R({0, 1, 1}))
         \/ Mix[k] = "mismatch" /\ Mismatch(b, m)
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------- properties *)
(* a copy equals its source under the mode it was made with, and shares nothing but kept pointers *)
CopyEqual == last.op = "copy" /\ last.res = "ok" /\ last.m.mb = "dag" => (Equal(env, heap, last.a, last.b, last.m) \/ last.m.up = "ignore" \/ last.m.un = "ignore")
CopyEqualTree == last.op = "copy" /\ last.res = "ok" => (Equal(env, heap, last.a, last.b, [last.m EXCEPT !.mb = "tree"]) \/ last.m.up = "ignore" \/ last.m.un = "ignore")
Known(m) == [m EXCEPT !.up = "ignore"]
CopyDisjoint == last.op = "copy" /\ last.res = "ok" => Blocks(Reach(env, heap, last.a, Known(last.m))) \cap Blocks(Reach(env, heap, last.b, Known(last.m))) = {}
Symmetric == last.op = "eq" /\ last.res # "error" => (last.res = "1") = Equal(env, heap, last.b, last.a, last.m)
Reflexive == last.op = "eq" => Equal(env, heap, last.a, last.a, last.m) /\ Equal(env, heap, last.b, last.b, ByteMode)
(* after a release nothing that is alive is shown by the released value *)
FreeAll == last.op = "free" /\ last.res = "ok" => \A b \in FreeSet(last.a, last.m) : ~heap[b].live
SimEmit == Len(hist) = SimDepth => CSVWrite("%1$s", <<ToJson(hist)>>, EmitFile)
=============================================================================
