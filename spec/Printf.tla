------------------------------- MODULE Printf -------------------------------
(* printf-style formats and the variadic arguments they consume.             *)
(* A format is a sequence of one-letter strings, read left to right:         *)
(*   - anything but % is ordinary, %% is an ordinary %                       *)
(*   - % flags* width? (. precision?)? (h|hh|l|ll|L)? letter  is a conversion*)
(*   - any other use of % is malformed.                                      *)
(* Each conversion consumes one argument of the type C assigns to it; a      *)
(* combination C does not define, or one of the conversions the library does *)
(* not know, makes the whole format refused.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV
CONSTANTS Alphabet, MaxLen, EmitFile, SimLen
VARIABLES s, h

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Val(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
FlagSet == {"+", "-", "#", "0", " "}
Letters == {"a", "A", "c", "d", "e", "E", "f", "F", "g", "G", "i", "n", "o", "p", "s", "u", "x", "X", "h", "l", "L", "z", "j", "t", "q", "b", "k", "S", "C"}
At(t, i) == IF i > Len(t) THEN "" ELSE t[i]

RECURSIVE Flags(_, _)
Flags(t, i) == IF At(t, i) \in FlagSet THEN {At(t, i)} \cup Flags(t, i + 1) ELSE {}
RECURSIVE AfterFlags(_, _)
AfterFlags(t, i) == IF At(t, i) \in FlagSet THEN AfterFlags(t, i + 1) ELSE i
RECURSIVE AfterDigits(_, _)
AfterDigits(t, i) == IF At(t, i) \in DigitSet THEN AfterDigits(t, i + 1) ELSE i
RECURSIVE Number(_, _, _)
Number(t, i, a) == IF At(t, i) \in DigitSet THEN Number(t, i + 1, a * 10 + Val(At(t, i))) ELSE a

Bad == [ok |-> FALSE, f |-> {}, w |-> 0, p |-> 0, l |-> "", t |-> "", e |-> 0]
(* the conversion whose % is at i *)
Conv(t, i) ==
    LET f1 == AfterFlags(t, i + 1)
        w1 == AfterDigits(t, f1)
        dot == At(t, w1) = "."
        p0 == IF dot THEN w1 + 1 ELSE w1
        p1 == IF dot THEN AfterDigits(t, p0) ELSE w1
        a == At(t, p1)  b == At(t, p1 + 1)
        l == IF a = "h" /\ b = "h" THEN "hh" ELSE IF a = "l" /\ b = "l" THEN "ll" ELSE IF a \in {"h", "l", "L"} THEN a ELSE ""
        l1 == IF l \in {"hh", "ll"} THEN p1 + 2 ELSE IF l # "" THEN p1 + 1 ELSE p1
        c == At(t, l1)
    IN  IF c \in Letters THEN [ok |-> TRUE, f |-> Flags(t, i + 1), w |-> Number(t, f1, 0), p |-> IF dot THEN Number(t, p0, 0) ELSE -1, l |-> l, t |-> c, e |-> l1 + 1]
        ELSE Bad
RECURSIVE Items(_, _)
Items(t, i) == IF i > Len(t) THEN <<>>
               ELSE IF t[i] # "%" THEN Items(t, i + 1)
               ELSE IF At(t, i + 1) = "%" THEN Items(t, i + 2)
               ELSE LET c == Conv(t, i) IN IF c.ok THEN <<[c EXCEPT !.e = c.e]>> \o Items(t, c.e) ELSE <<Bad>>
Strip(it) == [i \in 1..Len(it) |-> [k \in {"ok", "f", "w", "p", "l", "t"} |-> it[i][k]]]
WellFormed(it) == \A i \in 1..Len(it) : it[i].ok

(* ---- the argument a conversion consumes ---- *)
Sig == [hh |-> "char", h |-> "short", n |-> "int", l |-> "long", ll |-> "llong"]
Uns == [hh |-> "uchar", h |-> "ushort", n |-> "uint", l |-> "ulong", ll |-> "ullong"]
LenKey(c) == IF c.l = "" THEN "n" ELSE c.l
ArgType(c) ==
    CASE c.t \in {"d", "i"} /\ c.l # "L" -> Sig[LenKey(c)]
      [] c.t \in {"o", "u", "x", "X"} /\ c.l # "L" -> Uns[LenKey(c)]
      [] c.t \in {"f", "e", "g", "F", "E", "G", "a", "A"} /\ c.l \in {"", "l"} -> "double"
      [] c.t \in {"f", "e", "g", "F", "E", "G", "a", "A"} /\ c.l = "L" -> "ldouble"
      [] c.t = "c" /\ c.l = "" -> "char"
      [] c.t = "s" /\ c.l = "" -> "str"
      [] c.t = "p" /\ c.l = "" -> "void*"
      [] c.t = "n" /\ c.l # "L" -> Sig[LenKey(c)] \o "*"
      [] OTHER -> "none"
Types(it) == [i \in 1..Len(it) |-> ArgType(it[i])]
Accepted(it) == WellFormed(it) /\ \A i \in 1..Len(it) : ArgType(it[i]) # "none"

(* ---- every short string ---- *)
Init == s = <<>> /\ h = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c) /\ UNCHANGED h
Firsts(t) == {i \in 1..Len(t) : t[i] = "%"}
(* ordinary text around a format changes nothing; a conversion never reads past its letter *)
Prefix == \A i \in Firsts(s) : LET c == Conv(s, i) IN c.ok => Conv(SubSeq(s, 1, c.e - 1), i) = c
Ordinary == LET t == s \o <<"y">> IN Strip(Items(<<"x", "%", "%">> \o t, 1)) = Strip(Items(t, 1))
Emit == CSVWrite("%1$s", <<ToJson([s |-> s, n |-> Len(Items(s, 1)), wf |-> WellFormed(Items(s, 1)), ok |-> Accepted(Items(s, 1)), ty |-> IF WellFormed(Items(s, 1)) THEN Types(Items(s, 1)) ELSE <<>>,
                                  c |-> [i \in 1..Len(s) |-> IF s[i] = "%" THEN Conv(s, i) ELSE Bad]])>>, EmitFile)

(* ---- long formats, built piece by piece with the arguments they consume ---- *)
R(S) == RandomElement(S)
RECURSIVE Word(_, _)
Word(n, S) == IF n = 0 THEN <<>> ELSE <<R(S)>> \o Word(n - 1, S)
RECURSIVE Num(_)
Num(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE Num(n \div 10) \o <<Digits[(n % 10) + 1]>>
LenText == [n |-> <<>>, hh |-> <<"h", "h">>, h |-> <<"h">>, l |-> <<"l">>, ll |-> <<"l", "l">>, L |-> <<"L">>]
(* a conversion as the writer means it *)
GenConv(d) ==
    LET t == IF d <= 9 THEN R({"d", "i", "u", "x", "o", "X", "s", "c", "p", "n", "f", "e", "g"}) ELSE R({"s", "s", "F", "E", "G", "a", "A", "d"})
        l == IF d <= 9 THEN (IF t \in {"d", "i", "u", "x", "o", "X", "n"} THEN R({"n", "hh", "h", "l", "ll"}) ELSE IF t \in {"f", "e", "g", "E", "F", "G", "a", "A"} THEN R({"n", "l", "L"}) ELSE "n")
             ELSE "n"
    IN [f |-> IF R(1..3) = 1 THEN Word(R(1..3), FlagSet) ELSE <<>>, w |-> IF R(1..3) = 1 THEN R({0, 1, 7, 8, 12, 39, 256, 1000, 99999}) ELSE -1,
        p |-> R({-1, -1, -2, 0, 1, 3, 8, 10, 25, 255, 300, 12345}), l |-> l, t |-> t, v |-> R(0..4), n |-> R({0, 1, 3, 6, 7, 8, 9, 15, 16, 17, 40, 255, 256, 257, 1100})]
(* a width that starts with 0 would read as a flag *)
Render(c) == <<"%">> \o c.f \o (IF c.w < 0 \/ (c.w = 0) THEN <<>> ELSE Num(c.w)) \o (IF c.p = -1 THEN <<>> ELSE IF c.p = -2 THEN <<".">> ELSE <<".">> \o Num(c.p)) \o LenText[c.l] \o <<c.t>>
Meant(c) == [ok |-> TRUE, f |-> {c.f[i] : i \in 1..Len(c.f)}, w |-> IF c.w < 0 THEN 0 ELSE c.w, p |-> IF c.p = -2 THEN 0 ELSE c.p, l |-> IF c.l = "n" THEN "" ELSE c.l, t |-> c.t]
SimInit == s = <<>> /\ h = <<>>
Plain == {"a", "d", "s", "l", "0", "5", ".", " ", "h", "%%"}
RECURSIVE Flat(_)
Flat(w) == IF w = <<>> THEN <<>> ELSE (IF w[1] = "%%" THEN <<"%", "%">> ELSE <<w[1]>>) \o Flat(Tail(w))
SimNext == /\ Len(h) < SimLen
           /\ \E d \in {R(1..12)}, k \in {R(1..3)} : \E c \in {GenConv(d)}, w \in {IF k = 1 THEN <<>> ELSE Word(R(0..3), Plain)} :
                s' = s \o Render(c) \o Flat(w) /\ h' = Append(h, c)
(* what the writer meant is what the reader finds *)
RoundTrip == Strip(Items(s, 1)) = [i \in 1..Len(h) |-> [k \in {"ok", "f", "w", "p", "l", "t"} |-> Meant(h[i])[k]]]
SimEmit == Len(h) >= 1 => CSVWrite("%1$s", <<ToJson([s |-> s, h |-> h, ok |-> Accepted(Items(s, 1)), ty |-> Types(Items(s, 1)), c |-> Items(s, 1)])>>, EmitFile)
=============================================================================
