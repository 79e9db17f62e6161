------------------------------ MODULE Settings ------------------------------
(* Settings of a module and the overrides put over them one by one.         *)
(* A value: [k "n"] null, [k "i"|"s"|"b", i|s|b] scalar, [k "l", e] list,       *)
(* [k "m", e] map (e: a function from keys).                                *)
EXTENDS Integers, Sequences, FiniteSets, Json, CSV, TLC
CONSTANTS EmitFile, Mode,      \* "all": every sequence over Base; "rnd": random ones
          Base, MaxLayers
VARIABLES layers, cur, bad, done
vars == <<layers, cur, bad, done>>
I(v) == [k |-> "i", i |-> v]
S(v) == [k |-> "s", s |-> v]
Bo(v) == [k |-> "b", b |-> v]
Null == [k |-> "n"]
L(e) == [k |-> "l", e |-> e]
M(e) == [k |-> "m", e |-> e]
None == M(<<>>)
IsMap(x) == x.k = "m"
Keys(x) == DOMAIN x.e
RECURSIVE Merge(_, _)
Merge(a, b) == M([k \in Keys(a) \cup Keys(b) |->
                    IF k \notin Keys(b) THEN a.e[k] ELSE IF k \notin Keys(a) THEN b.e[k]
                    ELSE IF IsMap(a.e[k]) /\ IsMap(b.e[k]) THEN Merge(a.e[k], b.e[k]) ELSE b.e[k]])

(* ------------------------------------------------------ random settings *)
R(s) == RandomElement(s)
Words == {"x", "1", "true", "null", "", "a: b", "- c", "{x", "#h", "two\nlines", "~", "0x10", "'q'", "\"q\"", "1.5", "yes"}
KeyWords == {"a", "b", "c", "path", "two words", "x: y", "true", "1"}
Scalar(x) == LET r == R(1..7) IN CASE r <= 2 -> I(R({-1, 0, 1, 7, 2000000000})) [] r <= 5 -> S(R(Words)) [] r = 6 -> Bo(R(BOOLEAN)) [] OTHER -> Null
RECURSIVE Some(_, _), SomeL(_, _)
SomeL(n, d) == IF n = 0 THEN <<>> ELSE <<Some(d, n)>> \o SomeL(n - 1, d)
SomeMap(d, x) == LET ks == R({s \in SUBSET KeyWords : Cardinality(s) <= 3}) IN M(TLCEval([k \in ks |-> Some(d - 1, k)]))
Some(d, x) == LET r == R(1..6) IN
              IF d = 0 \/ r <= 2 THEN Scalar(r) ELSE IF r = 3 THEN L(SomeL(R(0..2), d - 1)) ELSE SomeMap(d, x)
(* an override that goes down into what is there, so that it meets it *)
RECURSIVE Touch(_, _)
Touch(m, d) == LET near == {k \in Keys(m) : TRUE} IN
               IF near = {} \/ R(1..4) = 1 THEN SomeMap(d, 1)
               ELSE \* one key of m, perhaps one more
                    LET k == R(near) deeper == IsMap(m.e[k]) /\ R(1..4) # 1
                        v == IF deeper THEN Touch(m.e[k], d) ELSE Some(d, k)
                        o == SomeMap(1, k)
                    IN  IF R(1..3) = 1 THEN Merge(o, M(k :> v)) ELSE M(k :> v)

(* ------------------------------------------------------------- behaviour *)
Init == /\ layers \in (IF Mode = "all" THEN {<<b>> : b \in Base} ELSE {<<None>>})
        /\ cur = layers[1] /\ bad = 0 /\ done = FALSE
Put(o) == layers' = Append(layers, o) /\ cur' = Merge(cur, o) /\ UNCHANGED <<bad, done>>
First(o) == layers' = <<o>> /\ cur' = o /\ UNCHANGED <<bad, done>>
Stop == done' = TRUE /\ UNCHANGED <<layers, cur, bad>>
(* an override that can't be read makes the whole merge fail *)
Unreadable == bad' = Len(layers) + 1 /\ UNCHANGED <<layers, cur, done>>
Next == IF Mode = "all" THEN Len(layers) < MaxLayers /\ \E o \in Base : Put(o)
        ELSE IF done THEN FALSE
        ELSE IF Len(layers) = 1 /\ layers[1] = None /\ bad = 0 THEN \E o \in {SomeMap(4, 0)} : First(IF o = None THEN M("a" :> I(1)) ELSE o)
        ELSE \E r \in {R(1..40)} : IF r = 1 /\ bad = 0 THEN Unreadable
             ELSE IF Len(layers) >= MaxLayers \/ r > 34 THEN Stop ELSE \E o \in {Touch(cur, 3)} : Put(o)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties *)
RECURSIVE PathsOf(_), At(_, _)
PathsOf(m) == UNION {{<<k>>} \cup (IF IsMap(m.e[k]) THEN {<<k>> \o p : p \in PathsOf(m.e[k])} ELSE {}) : k \in Keys(m)}
Nothing == [k |-> "none"]      \* no such key: an earlier layer decides
Hidden == [k |-> "hidden"]     \* something else stands where the path leads through
At(m, p) == IF Head(p) \notin Keys(m) THEN Nothing
            ELSE IF Len(p) = 1 THEN m.e[Head(p)]
            ELSE IF IsMap(m.e[Head(p)]) THEN At(m.e[Head(p)], Tail(p)) ELSE Hidden
RECURSIVE Decided(_, _)
Decided(p, i) == IF i = 0 THEN Nothing ELSE LET v == At(layers[i], p) IN IF v.k = "none" THEN Decided(p, i - 1) ELSE v
AllPaths == UNION {PathsOf(layers[i]) : i \in 1..Len(layers)}
(* the last override that says something about a path decides *)
LastWins == \A p \in AllPaths : LET w == Decided(p, Len(layers)) g == At(cur, p) IN
                IF w.k \in {"none", "hidden"} THEN g.k \in {"none", "hidden"} ELSE IF IsMap(w) THEN IsMap(g) ELSE g = w
NothingElse == PathsOf(cur) \subseteq AllPaths
Neutral == Merge(cur, None) = cur /\ Merge(None, cur) = cur
Again == Merge(cur, layers[Len(layers)]) = cur
Emit == (Mode = "all" \/ done) => CSVWrite("%1$s", <<ToJson([layers |-> layers, cur |-> cur, bad |-> bad])>>, EmitFile)
=============================================================================
