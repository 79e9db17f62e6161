------------------------------- MODULE Cells -------------------------------
(* Typed cells of memory seen through reflection (src/value.c,              *)
(* src/value_base_type.c, bit-field part of src/entry.c).                   *)
(*                                                                          *)
(* A cell is a block of bytes plus the description of one scalar in it:     *)
(* base type, bit position and width (a plain object has the full width)    *)
(* and the wrapping (typedefs, qualifiers, ...) of its type.  The machine   *)
(* has two cells; the calls of the library are its actions.  A read is the  *)
(* sign- or zero-extended bit slice, a write replaces exactly that slice.   *)
(* `last.out` is the set of answers the property allows.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Pairs,     \* set of <<cell, cell>>; cell = [ty, size, pos, width, wrap, mem]
          Pats(_),   \* type name -> set of byte sequences to write
          Ops,       \* which actions are enabled
          EmitFile

VARIABLES c1, c2, last
vars == <<c1, c2, last>>

Accessors == {"char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "bool",
              "float", "double", "ldouble", "cfloat", "cdouble", "cldouble"}
Size(t) == CASE t \in {"char", "uchar", "bool", "schar"} -> 1 [] t \in {"short", "ushort"} -> 2
             [] t \in {"int", "uint", "float"} -> 4
             [] t \in {"long", "ulong", "llong", "ullong", "double", "cfloat"} -> 8
             [] t \in {"ldouble", "cdouble", "int128"} -> 16 [] t = "cldouble" -> 32
Signed(t) == t \in {"char", "short", "int", "long", "llong"}
IntLike(t) == Size(t) <= 8 /\ t \in {"char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "bool"}

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(m, i) == (m[(i \div 8) + 1] \div Pow2[(i % 8) + 1]) % 2
ByteOf(F(_), k) == F(8*k) + 2*F(8*k+1) + 4*F(8*k+2) + 8*F(8*k+3) + 16*F(8*k+4) + 32*F(8*k+5) + 64*F(8*k+6) + 128*F(8*k+7)

(* the value of a cell: Size(ty) bytes *)
Value(c) ==
    LET sgn == IF Signed(c.ty) THEN Bit(c.mem, c.pos + c.width - 1) ELSE 0
        F(i) == IF i < c.width THEN Bit(c.mem, c.pos + i) ELSE sgn
    IN  [k \in 1..Size(c.ty) |-> ByteOf(F, k - 1)]
Store(c, v) ==
    LET F(i) == IF i >= c.pos /\ i < c.pos + c.width THEN Bit(v, i - c.pos) ELSE Bit(c.mem, i)
    IN  [c EXCEPT !.mem = [k \in 1..Len(c.mem) |-> ByteOf(F, k - 1)]]

(* ------------------------------------------------------------- floats *)
Fmt(t) == CASE t \in {"float", "cfloat"} -> [n |-> 4, e0 |-> 23, e1 |-> 30, m |-> 22]
            [] t \in {"double", "cdouble"} -> [n |-> 8, e0 |-> 52, e1 |-> 62, m |-> 51]
            [] OTHER -> [n |-> 16, e0 |-> 64, e1 |-> 78, m |-> 62]
NaN(v, f) == (\A i \in f.e0..f.e1 : Bit(v, i) = 1) /\ (\E i \in 0..f.m : Bit(v, i) = 1)
Zero(v, f) == \A i \in 0..f.e1 : Bit(v, i) = 0
FEq(v, w, f) == ~NaN(v, f) /\ ~NaN(w, f) /\ (v = w \/ (Zero(v, f) /\ Zero(w, f)))
VEq(t, v, w) ==
    IF IntLike(t) THEN v = w
    ELSE LET f == Fmt(t) IN
         IF t \in {"float", "double", "ldouble"} THEN FEq(v, w, f)
         ELSE FEq(SubSeq(v, 1, f.n), SubSeq(w, 1, f.n), f) /\ FEq(SubSeq(v, f.n + 1, 2*f.n), SubSeq(w, f.n + 1, 2*f.n), f)

(* ------------------------------------------------------ numeric reading *)
Fits(t, v) ==
    LET hi == IF Signed(t) /\ v[Len(v)] >= 128 THEN 255 ELSE 0
    IN  \/ Len(v) < 4
        \/ /\ \A k \in 5..Len(v) : v[k] = hi
           /\ (v[4] >= 128) <=> (hi = 255)
Num(t, v) ==
    LET neg == Signed(t) /\ v[Len(v)] >= 128
        b(k) == LET x == IF k <= Len(v) THEN v[k] ELSE IF neg THEN 255 ELSE 0 IN IF neg THEN 255 - x ELSE x
        a == b(1) + 256 * b(2) + 65536 * b(3) + 16777216 * b(4)
    IN  IF neg THEN -a - 1 ELSE a

(* ---------------------------------------------------------------- text *)
(* decimal digits (least significant first) of the number whose bits are F(n-1)..F(0) *)
RECURSIVE DecDouble(_, _, _)
DecDouble(d, i, carry) == IF i > Len(d) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
                          ELSE LET x == 2 * d[i] + carry IN <<x % 10>> \o DecDouble(d, i + 1, x \div 10)
RECURSIVE DecOf(_, _), DigitText(_)
DecOf(F(_), n) == LET RECURSIVE G(_) G(i) == IF i = n THEN <<>> ELSE DecDouble(G(i + 1), 1, F(i)) IN G(0)
DigitText(d) == IF d = <<>> THEN "" ELSE DigitText(Tail(d)) \o ToString(Head(d))
RECURSIVE Incr(_)
Incr(d) == IF d = <<>> THEN <<1>> ELSE IF Head(d) = 9 THEN <<0>> \o Incr(Tail(d)) ELSE <<Head(d) + 1>> \o Tail(d)
IntText(t, v) ==
    LET n == 8 * Len(v)
        neg == Signed(t) /\ Bit(v, n - 1) = 1
        pos(i) == Bit(v, i)
        inv(i) == 1 - Bit(v, i)
        d == IF neg THEN Incr(DecOf(inv, n)) ELSE DecOf(pos, n)
    IN  (IF neg THEN "-" ELSE "") \o (IF d = <<>> THEN "0" ELSE DigitText(d))
(* characters that are printable are shown as character constants, quotes and backslashes escaped *)
Text(t, v) == CASE t = "bool" -> [k |-> "txt", v |-> <<IF v[1] = 1 THEN "true" ELSE "false">>]
                [] t = "char" /\ v[1] >= 32 /\ v[1] < 127 -> [k |-> "chr", v |-> <<v[1], IF v[1] \in {39, 92} THEN 1 ELSE 0>>]
                [] IntLike(t) -> [k |-> "txt", v |-> <<IntText(t, v)>>]
                [] t \in {"float", "double", "ldouble"} -> [k |-> "flt", v |-> v]
                [] OTHER -> LET n == Fmt(t).n IN [k |-> "cpl", v |-> v, n |-> n, neg |-> IF Bit(v, 8 * n + Fmt(t).e1 + 1) = 1 THEN 1 ELSE 0]

Const(c) == c.wrap \in {"const", "tdconst", "constvar", "cv"}
Known(t) == t \in Accessors

Out(op, acc, arg, out) == last' = [op |-> op, acc |-> acc, arg |-> arg, out |-> out]
Val(v) == [k |-> "v", v |-> v]
Err == [k |-> "e", v |-> <<>>]
Ok == [k |-> "ok", v |-> <<>>]
NumR(n) == [k |-> "n", v |-> <<n>>]
AnyR == [k |-> "any", v |-> <<>>]

Init == /\ \E p \in Pairs : c1 = p[1] /\ c2 = p[2]
        /\ last = [op |-> "init", acc |-> "", arg |-> <<>>, out |-> {}]

Read(a) ==
    /\ (IF "own" \in Ops THEN a = c1.ty ELSE "rd" \in Ops) /\ UNCHANGED <<c1, c2>>
    /\ Out("rd", a, <<>>, {IF a = c1.ty THEN Val(Value(c1)) ELSE Err})
Write(a, v) ==
    /\ (IF "own" \in Ops THEN a = c1.ty ELSE "wr" \in Ops) /\ UNCHANGED c2
    /\ LET ok == a = c1.ty /\ ~Const(c1) IN
       /\ c1' = IF ok THEN Store(c1, v) ELSE c1
       /\ Out("wr", a, v, {IF ok THEN Ok ELSE Err})
Is == /\ "is" \in Ops /\ UNCHANGED <<c1, c2>>
      /\ Out("is", "", <<>>, {[k |-> "set", v |-> {c1.ty} \cap Accessors]})
NumRead ==
    /\ "num" \in Ops /\ UNCHANGED <<c1, c2>>
    /\ Out("num", "", <<>>, {IF ~IntLike(c1.ty) THEN Err
                             ELSE LET v == Value(c1) IN IF Fits(c1.ty, v) THEN NumR(Num(c1.ty, v)) ELSE Err})
Equal ==
    /\ "eq" \in Ops /\ UNCHANGED <<c1, c2>>
    /\ Out("eq", "", <<>>, IF c1.ty # c2.ty \/ ~Known(c1.ty) THEN {NumR(0), Err}
                           ELSE {NumR(IF VEq(c1.ty, Value(c1), Value(c2)) THEN 1 ELSE 0)})
Copy == \* from cell 1 to cell 2
    /\ "cp" \in Ops /\ UNCHANGED c1
    /\ LET ok == c1.ty = c2.ty /\ Known(c1.ty) /\ ~Const(c2) IN
       /\ c2' = IF ok THEN Store(c2, Value(c1)) ELSE c2
       /\ Out("cp", "", <<>>, {IF ok THEN Ok ELSE Err})

Show == /\ "str" \in Ops /\ UNCHANGED <<c1, c2>>
        /\ \E op \in {"str", "strv"} : Out(op, "", <<>>, {IF Known(c1.ty) THEN Text(c1.ty, Value(c1)) ELSE Err})

Next == /\ last.op = "init"          \* every call is explored from every loaded state
        /\ \/ \E a \in Accessors : Read(a) \/ (\E v \in Pats(a) : Write(a, v))
           \/ Is \/ NumRead \/ Equal \/ Copy \/ Show
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- properties *)
(* a write is read back (truncated to the width), and touches nothing else *)
Outside(c, m) == \A i \in 0..(8 * Len(m) - 1) : (i < c.pos \/ i >= c.pos + c.width) => Bit(m, i) = Bit(c.mem, i)
WriteIsolated == [][Outside(c1, c1'.mem) /\ Outside(c2, c2'.mem)]_vars
ReadBack == [][last'.op = "wr" /\ Ok \in last'.out =>
                 \A i \in 0..(c1.width - 1) : Bit(Value(c1'), i) = Bit(last'.arg, i)]_vars
CopyEqual == [][last'.op = "cp" /\ Ok \in last'.out /\ c1.width = c2.width /\ IntLike(c1.ty) => Value(c1) = Value(c2')]_vars
Stable == [][last'.op # "wr" => c1' = c1]_vars
Emit == CSVWrite("%1$s", <<ToJson([a |-> c1, b |-> c2, l |-> last', x |-> c1'.mem, y |-> c2'.mem])>>, EmitFile)
============================================================================
