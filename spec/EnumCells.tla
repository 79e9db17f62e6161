----------------------------- MODULE EnumCells -----------------------------
(* Enumeration objects seen through reflection (src/value.c, src/entry.c).  *)
(* An enumeration is a storage size and a sequence of enumerators; it is    *)
(* signed iff one of them is negative (the C compilers' rule).  Numbers are *)
(* 8-byte two's complement sequences (metac_const_value_t).  A cell may be  *)
(* a bit-field: bit position and width inside a block of bytes.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Sizes, Dom(_),        \* storage sizes; size -> set of stored byte patterns
          MaxEnums, Shapes(_),  \* enumerators per type; size -> set of [len, pos, width, wrap]
          Shapes2,              \* shapes of the second cell
          Fill,                 \* bytes surrounding a field
          EmitFile

VARIABLES ty, c1, c2, last
vars == <<ty, c1, c2, last>>

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(m, i) == (m[(i \div 8) + 1] \div Pow2[(i % 8) + 1]) % 2
ByteOf(F(_), k) == F(8*k) + 2*F(8*k+1) + 4*F(8*k+2) + 8*F(8*k+3) + 16*F(8*k+4) + 32*F(8*k+5) + 64*F(8*k+6) + 128*F(8*k+7)
Ext(v, sgn) == LET fill == IF sgn /\ v[Len(v)] >= 128 THEN 255 ELSE 0
               IN  [k \in 1..8 |-> IF k <= Len(v) THEN v[k] ELSE fill]
Neg(n8) == n8[8] >= 128

(* types: the numbers of the enumerators, in order; names are e1, e2, ... *)
Types == UNION {{[size |-> z, sgn |-> s, nums |-> [i \in 1..Len(q) |-> Ext(q[i], s)]] :
                  q \in UNION {[1..n -> Dom(z)] : n \in 0..MaxEnums}} : z \in Sizes, s \in BOOLEAN}
Proper(t) == t.sgn <=> \E i \in 1..Len(t.nums) : Neg(t.nums[i])
Name(i) == "e" \o ToString(i)

Value(c) == \* 8 bytes
    LET w == c.sh.width
        top == IF ty.sgn THEN Bit(c.mem, c.sh.pos + w - 1) ELSE 0
        F(i) == IF i < w THEN Bit(c.mem, c.sh.pos + i) ELSE top
    IN  [k \in 1..8 |-> ByteOf(F, k - 1)]
Store(c, v) ==
    LET F(i) == IF i >= c.sh.pos /\ i < c.sh.pos + c.sh.width THEN Bit(v, i - c.sh.pos) ELSE Bit(c.mem, i)
    IN  [c EXCEPT !.mem = [k \in 1..Len(c.mem) |-> ByteOf(F, k - 1)]]
Blank(sh) == [sh |-> sh, mem |-> [k \in 1..sh.len |-> Fill]]
NamesOf(n8) == {Name(i) : i \in {j \in 1..Len(ty.nums) : ty.nums[j] = n8}}

Out(op, arg, out) == last' = [op |-> op, arg |-> arg, out |-> out]
Init ==
    /\ \E z \in Sizes : \E t \in {u \in Types : u.size = z /\ Proper(u)} : ty = t
    /\ \E s1 \in Shapes(ty.size), v \in Dom(ty.size) :
         c1 = Store(Blank(s1), Ext(v, FALSE))
    /\ \E s2 \in Shapes2 : c2 = Blank(s2)
    /\ last = [op |-> "init", arg |-> <<>>, out |-> {}]

Pick(z) == Ext(CHOOSE v \in Dom(z) : TRUE, FALSE)
Read == UNCHANGED <<c1, c2>> /\ Out("er", <<>>, {[k |-> "v", v |-> Value(c1)]})
Write(v) == c1' = Store(c1, v) /\ UNCHANGED c2 /\ Out("ew", v, {[k |-> "ok", v |-> <<>>]})
Named(v) == UNCHANGED <<c1, c2>> /\ Out("en", v, {[k |-> "name", v |-> NamesOf(v)]})
Text == UNCHANGED <<c1, c2>> /\ Out("es", <<>>, {IF NamesOf(Value(c1)) # {} THEN [k |-> "name", v |-> NamesOf(Value(c1))]
                                                 ELSE [k |-> "dec", v |-> Value(c1)]})
List == UNCHANGED <<c1, c2>> /\ Out("el", <<>>, {[k |-> "list", v |-> [i \in 1..Len(ty.nums) |-> [n |-> Name(i), v |-> ty.nums[i]]]]})
Equal == UNCHANGED <<c1, c2>> /\ Out("eeq", <<>>, {[k |-> "n", v |-> IF Value(c1) = Value(c2) THEN 1 ELSE 0]})
Copy == UNCHANGED c1 /\ c2' = Store(c2, Value(c1)) /\ Out("ecp", <<>>, {[k |-> "ok", v |-> <<>>]})
NumRead == UNCHANGED <<c1, c2>> /\ Out("num", <<>>, {[k |-> "num", v |-> Value(c1)]})

Next == /\ last.op = "init" /\ UNCHANGED ty
        /\ \/ Read \/ Text \/ List \/ Equal \/ Copy \/ NumRead
           \/ \E v \in Dom(ty.size) : Write(Ext(v, ty.sgn)) \/ Named(Ext(v, ty.sgn))
Spec == Init /\ [][Next]_vars

Outside(c, m) == \A i \in 0..(8 * Len(m) - 1) : (i < c.sh.pos \/ i >= c.sh.pos + c.sh.width) => Bit(m, i) = Bit(c.mem, i)
Isolated == [][Outside(c1, c1'.mem) /\ Outside(c2, c2'.mem)]_vars
(* full-width fields hold every number of the type; names are sound *)
RoundTrip == [][last'.op = "ew" /\ c1.sh.width = 8 * ty.size => Value(c1)' = last'.arg]_vars
NameSound == \A i \in 1..Len(ty.nums) : ty.nums[i] = Value(c1) => Name(i) \in NamesOf(Value(c1))
CopyEqual == [][last'.op = "ecp" /\ c2.sh.width >= c1.sh.width => Value(c2)' = Value(c1)]_vars
Emit == CSVWrite("%1$s", <<ToJson([t |-> ty, a |-> c1, b |-> c2, l |-> last', x |-> c1'.mem, y |-> c2'.mem])>>, EmitFile)
=============================================================================
