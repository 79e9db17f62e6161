-------------------------------- MODULE CText --------------------------------
(* The meaning of a type as C sees it (Norm) and its declaration as tokens (Pr). *)
EXTENDS CTypes

(* ------------------------------------------------------------- meaning *)
RECURSIVE Norm(_), NormM(_), NormP(_), Qual(_, _)
Qual(q, x) == CASE x.k = "Q" -> [k |-> "Q", qs |-> x.qs \cup q, of |-> x.of]
                [] x.k = "a" -> [x EXCEPT !.of = Qual(q, x.of)]
                [] OTHER -> [k |-> "Q", qs |-> q, of |-> x]
Bits(m) == IF "b" \in DOMAIN m THEN m.b ELSE 0
(* an enumerator too big for an integer here has its value as text *)
EVal(v) == IF "s" \in DOMAIN v THEN v.s ELSE ToString(v.v)
NormM(m) == [i \in 1..Len(m) |-> [n |-> m[i].n, b |-> ToString(Bits(m[i])), of |-> Norm(m[i].of)]]
NormP(p) == [i \in 1..Len(p) |-> [n |-> p[i].n, of |-> Norm(p[i].of)]]
Norm(x) == CASE x.k = "b" -> B(x.n) [] x.k = "v" -> Void
             [] x.k = "p" -> P(Norm(x.of))
             [] x.k = "a" -> [k |-> "a", c |-> IF x.c = -1 THEN "" ELSE ToString(x.c), of |-> Norm(x.of)]
             [] x.k = "q" -> Qual({x.q}, Norm(x.of))
             [] x.k = "t" -> [k |-> "t", n |-> x.n]
             [] x.k = "d" -> [k |-> "d", n |-> x.n, su |-> x.su]
             [] x.k \in {"s", "u"} -> IF x.n # "" THEN [k |-> "d", n |-> x.n, su |-> x.k] ELSE [k |-> x.k, m |-> NormM(x.m)]
             [] x.k = "e" -> IF x.n # "" THEN [k |-> "E", n |-> x.n] ELSE [k |-> "e", v |-> [i \in 1..Len(x.v) |-> [n |-> x.v[i].n, v |-> EVal(x.v[i])]]]
             [] x.k = "f" -> [k |-> "f", of |-> Norm(x.of), ps |-> NormP(x.ps)]

(* ------------------------------------------------------------ printing *)
KW == [s |-> "struct", u |-> "union"]
QSeq(qs) == SelectSeq(<<"const", "volatile", "restrict">>, LAMBDA q : q \in qs)
Core(x) == IF x.k = "Q" THEN x.of ELSE x
RECURSIVE Pr(_, _), PrMembers(_, _), PrParams(_, _), PrEnum(_, _)
Pr(x, d) ==
    CASE x.k \in {"b", "t"} -> <<x.n>> \o d
      [] x.k = "v" -> <<"void">> \o d
      [] x.k = "d" -> <<KW[x.su], x.n>> \o d
      [] x.k = "E" -> <<"enum", x.n>> \o d
      [] x.k = "e" -> <<"enum", "{">> \o PrEnum(x.v, 1) \o <<"}">> \o d
      [] x.k \in {"s", "u"} -> <<KW[x.k], "{">> \o PrMembers(x.m, 1) \o <<"}">> \o d
      [] x.k = "a" -> Pr(x.of, d \o (IF x.c = "" THEN <<"[", "]">> ELSE <<"[", x.c, "]">>))
      [] x.k = "f" -> Pr(x.of, <<"(">> \o d \o <<")", "(">> \o PrParams(x.ps, 1) \o <<")">>)
      [] x.k = "p" -> IF x.of.k = "a" THEN Pr(x.of, <<"(", "*">> \o d \o <<")">>) ELSE Pr(x.of, <<"*">> \o d)
      [] x.k = "Q" -> IF x.of.k = "p" THEN Pr(x.of, QSeq(x.qs) \o d) ELSE QSeq(x.qs) \o Pr(x.of, d)
PrMembers(m, i) == IF i > Len(m) THEN <<>>
                   ELSE Pr(m[i].of, (IF m[i].n = "" THEN <<>> ELSE <<m[i].n>>) \o (IF m[i].b = "0" THEN <<>> ELSE <<":", m[i].b>>))
                        \o <<";">> \o PrMembers(m, i + 1)
PrParams(p, i) == IF i > Len(p) THEN <<>>
                  ELSE (IF i = 1 THEN <<>> ELSE <<",">>)
                       \o (IF p[i].n = "..." THEN <<"...">> ELSE Pr(p[i].of, IF p[i].n = "" THEN <<>> ELSE <<p[i].n>>))
                       \o PrParams(p, i + 1)
PrEnum(v, i) == IF i > Len(v) THEN <<>> ELSE <<v[i].n, "=", v[i].v, ",">> \o PrEnum(v, i + 1)
(* a declaration: of a named object or placeholder ("x") or of a function ("g") *)
Decl(k, x) == IF k = "g" THEN Pr(x.of, <<"fn", "(">> \o PrParams(x.ps, 1) \o <<")">>) ELSE Pr(x, <<"nm">>)
(* a type name (no declared identifier) *)
TypeName(x) == Pr(Norm(x), <<>>)
=============================================================================
