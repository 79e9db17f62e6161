----------------------------- MODULE TagString -----------------------------
(* Annotation strings: space separated  key:"value"  pairs.  A string is a   *)
(* sequence of one-letter strings.  Lookup is defined from the pairs a       *)
(* left-to-right reader finds; ill-formed words are passed over.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV
CONSTANTS Alphabet, MaxLen, Keys, EmitFile
VARIABLE s

Sp == " "  Col == ":"  Q == "\""  Bs == "\\"
None == <<>>
(* first position >= i (1-based) with p, or Len+1 *)
RECURSIVE SkipSpaces(_, _)
SkipSpaces(t, i) == IF i > Len(t) THEN i ELSE IF t[i] = Sp THEN SkipSpaces(t, i + 1) ELSE i
RECURSIVE ToSpace(_, _)
ToSpace(t, i) == IF i > Len(t) THEN i ELSE IF t[i] = Sp THEN i ELSE ToSpace(t, i + 1)
RECURSIVE ToColonOrSpace(_, _)
ToColonOrSpace(t, i) == IF i > Len(t) THEN i ELSE IF t[i] \in {Sp, Col} THEN i ELSE ToColonOrSpace(t, i + 1)
(* closing quote of a value that starts at i; an escape hides the next letter *)
RECURSIVE Closing(_, _)
Closing(t, i) == IF i > Len(t) THEN i
                 ELSE IF t[i] = Bs THEN Closing(t, i + 2)
                 ELSE IF t[i] = Q THEN i ELSE Closing(t, i + 1)
(* all well-formed pairs, in order *)
RECURSIVE Pairs(_, _)
Pairs(t, i) ==
    LET b == SkipSpaces(t, i)
        c == ToColonOrSpace(t, b + 1)              \* a key has at least one letter, whatever it is
    IN  IF b > Len(t) \/ c > Len(t) THEN <<>>
        ELSE IF t[c] = Sp THEN Pairs(t, c)
        ELSE IF c + 1 > Len(t) THEN <<>>
        ELSE IF t[c + 1] # Q THEN Pairs(t, ToSpace(t, c + 2))
        ELSE LET e == Closing(t, c + 2) IN
             IF e > Len(t) THEN <<>>
             ELSE <<[k |-> SubSeq(t, b, c - 1), v |-> SubSeq(t, c + 2, e - 1)]>> \o Pairs(t, e + 1)
Find(ps, k) == LET h == {i \in 1..Len(ps) : ps[i].k = k}
               IN IF h = {} THEN [ok |-> FALSE, v |-> <<>>]
                  ELSE [ok |-> TRUE, v |-> ps[CHOOSE i \in h : \A j \in h : i <= j].v]
Lookup(t, k) == Find(Pairs(t, 1), k)

(* ---- well-formed strings: what a caller writes is what lookup finds ---- *)
RECURSIVE Render(_)
Render(ps) == IF ps = <<>> THEN <<>>
              ELSE ps[1].k \o <<Col, Q>> \o ps[1].v \o <<Q>>
                   \o (IF Len(ps) = 1 THEN <<>> ELSE <<Sp>> \o Render(Tail(ps)))
WFKey(k) == k # <<>> /\ \A i \in 1..Len(k) : k[i] \notin {Sp, Col, Q}
RECURSIVE WFVal(_)
WFVal(v) == IF v = <<>> THEN TRUE
            ELSE IF v[1] = Bs THEN Len(v) >= 2 /\ WFVal(SubSeq(v, 3, Len(v)))
            ELSE v[1] # Q /\ WFVal(Tail(v))
RoundTrip(ps) == \A k \in {ps[i].k : i \in 1..Len(ps)} : Lookup(Render(ps), k) = Find(ps, k)
WellFormed == LET ps == Pairs(s, 1) IN
    (\A i \in 1..Len(ps) : WFKey(ps[i].k)) =>
        /\ \A i \in 1..Len(ps) : WFVal(ps[i].v)
        /\ RoundTrip(ps)

Answers(t) == [i \in 1..Len(Keys) |-> Lookup(t, Keys[i])]
Emit == CSVWrite("%1$s", <<ToJson([s |-> s, a |-> Answers(s)])>>, EmitFile)

Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)

(* ---- long random strings, biased to the shape of pairs ---- *)
Pick(S) == RandomElement(S)
RECURSIVE Word(_, _)
Word(n, S) == IF n = 0 THEN <<>> ELSE <<Pick(S)>> \o Word(n - 1, S)
RandPair(d) == LET k == Keys[Pick(1..Len(Keys))] IN
    CASE d <= 6 -> k \o <<Col, Q>> \o Word(Pick(0..5), Alphabet \ {Q, Bs}) \o <<Q, Sp>>
      [] d = 7 -> k \o <<Col, Q>> \o Word(Pick(0..2), Alphabet \ {Q, Bs}) \o <<Bs, Pick(Alphabet)>> \o Word(Pick(0..2), Alphabet \ {Q, Bs}) \o <<Q, Sp>>
      [] d = 8 -> k \o <<Col, Q>> \o Word(Pick(0..3), Alphabet \ {Q, Bs}) \o <<Q>>
      [] d = 9 -> Word(Pick(1..4), Alphabet)
      [] OTHER -> k \o <<Col>> \o Word(Pick(0..2), Alphabet) \o <<Sp>>
SimInit == s = <<>>
SimNext == \E d \in {Pick(1..10)} : \E p \in {RandPair(d)} : s' = s \o p
=============================================================================
