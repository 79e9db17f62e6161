------------------------------ MODULE Entries -------------------------------
(* Descriptions of declarations (src/entry.c): a cursor is a description - of *)
(* a type, variable, member, function or parameter - and every query of the   *)
(* library is a move to another description or an answer about this one.      *)
EXTENDS CTypes, Json, CSV

CONSTANTS Roots, MaxPath, EmitFile
VARIABLES root, cur, path
vars == <<root, cur, path>>

(* dk: kind of the description itself; up: the structure a member belongs to;
   pos: first bit of a member, w: width of a bit-field, -1 without *)
TName(t) == CASE t.k \in {"b", "t", "s", "u", "e", "d"} -> t.n [] OTHER -> ""
Nowhere == Void
Entry(dk, n, t) == [dk |-> dk, n |-> n, t |-> t, up |-> Nowhere, pos |-> 0, w |-> -1, dyn |-> FALSE]
Ty(t) == Entry(t.k, TName(t), t)
None == Ty(Void)                       \* no description: void, and every refusal
Mem(s, i) == LET m == s.m[i] IN [Entry("m", m.n, m.of) EXCEPT !.up = s, !.pos = 8 * Offset(s, i) + (IF "b" \in DOMAIN m THEN m.bo ELSE 0), !.w = IF "b" \in DOMAIN m THEN m.b ELSE -1]
Par(p) == IF p.n = "..." THEN Entry("...", "", Void) ELSE Entry("par", p.n, p.of)
FieldM(n, t, w, bo, enc) == [n |-> n, of |-> t, b |-> w, bo |-> bo, enc |-> enc]
Start(r) == CASE r.k = "x" -> Entry("x", r.n, r.of) [] r.k = "g" -> Entry("g", r.n, F(r.of, r.ps)) [] OTHER -> Ty(r)

(* type the declaration ends in; functions and "..." end in themselves *)
NoType == [k |-> "none"]
Ft(c) == IF c.dk \in {"g", "..."} THEN NoType ELSE Final(c.t)
Fin(c) == IF c.dk \in {"g", "..."} \cup ({c.t.k} \ {"q", "t"}) THEN c ELSE Ty(Final(c.t))
Agg(c) == Ft(c).k \in {"s", "u"}
Fn(c) == IF c.dk = "g" THEN c.t ELSE Ft(c)
IsFn(c) == Fn(c).k = "f"
Named(ms, n) == LET h == {i \in 1..Len(ms) : ms[i].n = n} IN IF n = "" \/ h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : i <= j
End(c, fin) == IF fin = 1 THEN Fin(c) ELSE c

(* ------------------------------------------------------------------ moves *)
Mv(o, i, n, fin) == [o |-> o, i |-> i, n |-> n, fin |-> fin]
Go(c, m) ==
    CASE m.o = "f" -> Fin(c)
      [] m.o = "p" -> IF Ft(c).k = "p" THEN Ty(Ft(c).of) ELSE None
      [] m.o = "e" -> IF Ft(c).k = "a" THEN Ty(Ft(c).of) ELSE None
      [] m.o = "m" -> IF Agg(c) /\ m.i \in 0..(Len(Ft(c).m) - 1) THEN End(Mem(Ft(c), m.i + 1), m.fin) ELSE None
      [] m.o = "n" -> IF Agg(c) /\ Named(Ft(c).m, m.n) > 0 THEN End(Mem(Ft(c), Named(Ft(c).m, m.n)), m.fin) ELSE None
      [] m.o = "M" -> IF c.dk = "m" THEN Ty(c.t) ELSE None
      [] m.o = "u" -> IF c.dk = "m" THEN Ty(c.up) ELSE None
      [] m.o = "a" -> IF IsFn(c) /\ m.i \in 0..(Len(Fn(c).ps) - 1) THEN End(Par(Fn(c).ps[m.i + 1]), m.fin) ELSE None
      [] m.o = "A" -> IF IsFn(c) /\ m.n # "..." /\ Named(Fn(c).ps, m.n) > 0 THEN End(Par(Fn(c).ps[Named(Fn(c).ps, m.n)]), m.fin) ELSE None
      [] m.o = "Q" -> IF c.dk = "par" THEN Ty(c.t) ELSE None
      [] m.o = "r" -> IF IsFn(c) THEN Ty(Fn(c).of) ELSE None
      [] m.o = "c" -> IF Ft(c).k \in {"a", "p"} /\ Ft(c).of.k # "v" THEN [Ty(A(m.i, Ft(c).of)) EXCEPT !.dyn = TRUE] ELSE None
      [] m.o = "y" -> IF c.dk # "v" THEN [c EXCEPT !.dyn = TRUE] ELSE None
Names(ms) == {ms[i].n : i \in 1..Len(ms)} \ {"", "..."}
Moves(c) == {Mv("f", 0, "", 0), Mv("p", 0, "", 0), Mv("e", 0, "", 0), Mv("M", 0, "", 0), Mv("u", 0, "", 0), Mv("Q", 0, "", 0), Mv("r", 0, "", 0), Mv("c", 3, "", 0), Mv("y", 0, "", 0)}
            \cup {Mv("m", i, "", f) : i \in (-1)..(IF Agg(c) THEN Len(Ft(c).m) ELSE 0), f \in {0, 1}}
            \cup {Mv("n", 0, n, f) : n \in {"nosuch", "m", "m11", "p"} \cup (IF Agg(c) THEN Names(Ft(c).m) ELSE {"m1"}), f \in {0, 1}}
            \cup {Mv("a", i, "", f) : i \in (-1)..(IF IsFn(c) THEN Len(Fn(c).ps) ELSE 0), f \in {0, 1}}
            \cup {Mv("A", 0, n, f) : n \in {"nosuch", "p", "p11", "m1"} \cup (IF IsFn(c) THEN Names(Fn(c).ps) ELSE {"p1"}), f \in {0, 1}}

Init == root \in Roots /\ cur = Start(root) /\ path = <<>>
Next == /\ Len(path) < MaxPath
        /\ \E m \in Moves(cur) :
              /\ Go(cur, m) # None
              /\ m.o \in {"y", "c"} => ~\E i \in 1..Len(path) : path[i].o \in {"y", "c"}
              /\ m.o = "f" => Go(cur, m) # cur
              /\ path' = Append(path, m) /\ cur' = Go(cur, m) /\ UNCHANGED root
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
(* what is asked of a description and of the type it ends in agrees *)
SeesThrough == cur.dk \notin {"g", "..."} => \A m \in Moves(cur) : m.o \in {"p", "e", "m", "n", "a", "A", "r"} => Go(cur, m) = Go(Ty(Final(cur.t)), m)
ByNameByPlace == \A m \in Moves(cur) : (m.o = "n" /\ Go(cur, m) # None) => \E i \in 1..Len(Ft(cur).m) : Go(cur, m) = Go(cur, Mv("m", i - 1, "", m.fin))
CopiesAgree == LET y == Go(cur, Mv("y", 0, "", 0)) IN cur.dk # "v" => \A m \in Moves(cur) : m.o \notin {"f", "y", "c"} => Go(y, m) = Go(cur, m)
CountOnly == LET y == Go(cur, Mv("c", 3, "", 0)) IN y # None => Ft(y).c = 3 /\ Go(y, Mv("e", 0, "", 0)) = IF Ft(cur).k = "a" THEN Go(cur, Mv("e", 0, "", 0)) ELSE Go(cur, Mv("p", 0, "", 0))

(* ---------------------------------------------------------------- answers *)
RECURSIVE Szd(_)
Szd(t) == CASE t.k \in {"q", "t"} -> Szd(t.of) [] t.k = "a" -> t.c > 0 /\ Szd(t.of) [] t.k \in {"b", "p", "e", "s", "u"} -> TRUE [] OTHER -> FALSE
RECURSIVE Incomplete(_)
Incomplete(t) == CASE t.k \in {"q", "t", "a"} -> Incomplete(t.of) [] t.k = "d" -> TRUE [] OTHER -> FALSE
SizeOf(t) == IF Szd(t) THEN Size(t) ELSE -1
VaList(c) == c.dk = "par" /\ ((c.t.k = "t" /\ c.t.n = "va_list") \/ (c.t.k = "p" /\ c.t.of.k = "s" /\ c.t.of.n = "__va_list_tag"))
Decl(t) == Final(t).k = "d"
Obs == [root |-> root, path |-> path, dk |-> cur.dk, nm |-> cur.n, q |-> IF cur.dk = "q" THEN cur.t.q ELSE "", dyn |-> cur.dyn,
        fk |-> IF cur.dk \in {"g", "..."} THEN cur.dk ELSE Ft(cur).k, fn |-> IF Ft(cur).k \in {"g", "none"} THEN "" ELSE TName(Ft(cur)), fsu |-> IF Ft(cur).k = "d" THEN Ft(cur).su ELSE "",
        quals |-> IF cur.dk \in {"g", "..."} THEN {} ELSE Quals(cur.t),
        size |-> IF cur.dk \in {"g", "..."} THEN -1 ELSE IF Incomplete(cur.t) THEN -2 ELSE SizeOf(cur.t),
        vp |-> Ft(cur).k = "p" /\ Final(Ft(cur).of).k = "v", dp |-> Ft(cur).k = "p" /\ Decl(Ft(cur).of),
        count |-> IF Ft(cur).k = "a" THEN Ft(cur).c ELSE -100,
        en |-> IF Ft(cur).k = "e" THEN [i \in 1..Len(Ft(cur).v) |-> <<Ft(cur).v[i].n, Ft(cur).v[i].v>>] ELSE <<>>,
        ms |-> IF Agg(cur) THEN [i \in 1..Len(Ft(cur).m) |-> Ft(cur).m[i].n] ELSE <<>>, agg |-> Agg(cur) \/ Ft(cur).k = "d",
        pos |-> cur.pos, w |-> cur.w,
        isf |-> IsFn(cur), ps |-> IF IsFn(cur) THEN [i \in 1..Len(Fn(cur).ps) |-> Fn(cur).ps[i].n] ELSE <<>>, va |-> VaList(cur),
        res |-> IF IsFn(cur) THEN Final(Fn(cur).of).k ELSE "v", ressz |-> IF IsFn(cur) THEN (IF Incomplete(Fn(cur).of) THEN -2 ELSE SizeOf(Fn(cur).of)) ELSE -1,
        no |-> {m \in Moves(cur) : Go(cur, m) = None}, yes |-> {m \in Moves(cur) : Go(cur, m) # None}]
EmitInv == CSVWrite("%1$s", <<ToJson(Obs)>>, EmitFile)

(* ------------------------------------------------------- random declarations *)
VaTag(n) == S(n, <<M("gp_offset", B("uint")), M("fp_offset", B("uint")), M("overflow_arg_area", P(Void)), M("reg_save_area", P(Void))>>)
IntNames == {"char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "bool"}
RField(i) == LET b == R(IntNames) z == 8 * BaseSize[b] w == R(1..(IF b = "bool" THEN 1 ELSE z)) IN FieldM("m" \o ToString(i), R({B(b), B(b), T("tb", B(b)), Q("volatile", B(b))}), w, R(0..(z - w)), R({3, 4}))
RECURSIVE RFields(_, _)
RFields(i, n) == IF i > n THEN <<>> ELSE <<IF R(1..3) = 1 THEN M("m" \o ToString(i), GenObj(1)) ELSE RField(i)>> \o RFields(i + 1, n)
RECURSIVE RType(_), RFn(_), RPars(_, _, _)
RType(d) == LET r == R(1..12) IN
            CASE r = 1 -> S(Tag("S"), RFields(1, R(1..4)))
              [] r = 2 -> P(RFn(d - 1))
              [] r = 3 -> Q("restrict", P(Gen(d)))
              [] r = 4 -> T(Tag("t"), Q("const", Q("volatile", T(Tag("t"), RType(d)))))
              [] r = 5 -> P(R({Void, Q("const", Void), T(Tag("t"), Void), D(Tag("D"), "s"), T(Tag("t"), D(Tag("D"), "u")), Q("const", D(Tag("D"), "s"))}))
              [] r = 6 -> A(R(1..4), A(R(1..3), GenObj(d)))
              [] r = 7 -> E(Tag("E"), R({1, 2, 4, 8}), <<[n |-> "e1", v |-> R(-100..100)], [n |-> "e2", v |-> 5], [n |-> "e3", v |-> 5], [n |-> "e4", v |-> -1]>>)
              [] OTHER -> GenObj(d)
RPars(i, n, d) == IF i > n THEN (IF R(1..4) = 1 THEN <<M("...", Void)>> ELSE <<>>)
                  ELSE LET r == R(1..9)
                           t == CASE r = 1 -> T(R({"va_list", "va_list", "va_list_", "va_lis"}), A(1, VaTag("__va_list_tag")))
                                  [] r = 2 -> P(VaTag(R({"__va_list_tag", "__va_list_tag", "__va_list_tags", "__va_list"})))
                                  [] r = 3 -> T(Tag("t"), P(RFn(0)))
                                  [] OTHER -> RType(IF d > 0 THEN d ELSE 0)
                       IN  <<M(R({"p" \o ToString(i), "p" \o ToString(i), ""}), t)>> \o RPars(i + 1, n, d)
RFn(d) == F(R({Void, B("int"), P(Void), T(Tag("t"), Void), Q("const", B("long")), S(Tag("S"), <<M("m1", B("double"))>>), P(F(Void, <<>>)), E(Tag("E"), 4, <<[n |-> "e1", v |-> 1]>>), D(Tag("D"), "s")}),
            IF d < 0 THEN <<>> ELSE RPars(1, R(0..3), d))
RRoot(i) == LET d == R(1..2) r == R(1..5) IN
            CASE r = 1 -> RType(d)
              [] r = 2 -> [k |-> "x", n |-> Tag("v"), of |-> RType(d)]
              [] r = 3 -> T(Tag("t"), RFn(1))
              [] OTHER -> LET f == RFn(d) IN [k |-> "g", n |-> Tag("fn"), of |-> f.of, ps |-> f.ps]
=============================================================================
