----------------------------- MODULE Locations -----------------------------
(* The location database: declarations are registered under source file,    *)
(* location and name; the tables are sorted level by level and searched by  *)
(* halving.  Finding is defined on what was registered, and Halving states  *)
(* that the search over the sorted tables gives just that.                  *)
(* Strings are sequences of byte values, ordered as strcmp does.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, CSV, TLC
CONSTANTS EmitFile, Files, Locs, Names,   \* what may be registered
          QFiles, QLocs, QNames,          \* what is asked for (sequences)
          Times                           \* how often the same triple may be registered
VARIABLE db
Triples == Files \X Locs \X Names
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Sorted(s) == SetToSortSeq(s, Less)
Init == db = [t \in Triples |-> 0]
Register(t) == db[t] < Times /\ db' = [db EXCEPT ![t] = @ + 1]
Next == \E t \in Triples : Register(t)
Spec == Init /\ [][Next]_db

(* every registered declaration has a number of its own *)
Key(x) == x[1] \o <<1>> \o x[2] \o <<1>> \o x[3]
Order == SetToSortSeq(Triples, LAMBDA x, y : Less(Key(x), Key(y)))
Numbers == [t \in Triples |-> CHOOSE i \in 1..Len(Order) : Order[i] = t]
Number(t) == Numbers[t]
Find(f, l, n) == LET t == <<f, l, n>> IN IF t \in Triples /\ db[t] = 1 THEN Number(t) ELSE 0

(* the tables *)
Reg == {x \in Triples : db[x] > 0}
Tab == LET fs == Sorted({t[1] : t \in Reg}) IN
       [i \in 1..Len(fs) |-> LET ls == Sorted({t[2] : t \in {x \in Reg : x[1] = fs[i]}}) IN
          [f |-> fs[i], l |-> [j \in 1..Len(ls) |-> LET ns == Sorted({t[3] : t \in {x \in Reg : x[1] = fs[i] /\ x[2] = ls[j]}}) IN
             [l |-> ls[j], n |-> [k \in 1..Len(ns) |-> [n |-> ns[k], c |-> db[<<fs[i], ls[j], ns[k]>>], x |-> Number(<<fs[i], ls[j], ns[k]>>)]]]]]]
RECURSIVE Half(_, _, _, _)
Half(tab, key, lo, hi) == IF lo > hi THEN 0
                          ELSE LET m == (lo + hi) \div 2 IN
                               IF tab[m] = key THEN m ELSE IF Less(key, tab[m]) THEN Half(tab, key, lo, m - 1) ELSE Half(tab, key, m + 1, hi)
Search(tab, f, l, n) ==
    LET i == Half([q \in 1..Len(tab) |-> tab[q].f], f, 1, Len(tab)) IN
    IF i = 0 THEN 0
    ELSE LET lt == tab[i].l j == Half([q \in 1..Len(lt) |-> lt[q].l], l, 1, Len(lt)) IN
         IF j = 0 THEN 0
         ELSE LET nt == lt[j].n k == Half([q \in 1..Len(nt) |-> nt[q].n], n, 1, Len(nt)) IN
              IF k = 0 \/ nt[k].c # 1 THEN 0 ELSE nt[k].x
Queries == {<<f, l, n>> : f \in Range(QFiles), l \in Range(QLocs), n \in Range(QNames)}
Halving == LET tab == Tab IN \A q \in Queries : Search(tab, q[1], q[2], q[3]) = Find(q[1], q[2], q[3])
Emit == CSVWrite("%1$s", <<ToJson([tab |-> Tab,
    ans |-> [a \in 1..Len(QFiles) |-> [b \in 1..Len(QLocs) |-> [c \in 1..Len(QNames) |-> Find(QFiles[a], QLocs[b], QNames[c])]]]])>>, EmitFile)
=============================================================================
