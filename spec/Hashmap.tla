------------------------------ MODULE Hashmap ------------------------------
(* Model of src/hashmap.c.                                                 *)
(*                                                                         *)
(* Concrete state: `buckets` (a sequence of chains, each a sequence of     *)
(* keys) and `val` (stored value per key), evolving like the code: chains  *)
(* are appended at the tail, growth doubles the bucket count when the size *)
(* exceeds 3/4 of it and re-links every entry at the head of its new       *)
(* chain.  Abstract state: `amap`, a finite map.  `last` records the call  *)
(* and its outcome; it is hidden by a VIEW.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, SequencesExt

CONSTANTS Keys,      \* 0..n-1
          Vals,      \* values that can be stored; 0 is the NULL value
          HashMode,  \* "const" | "mod2" | "id"
          InitBuckets, MaxBuckets, EmitFile, Faults

VARIABLES buckets, val, amap, last
vars == <<buckets, val, amap, last>>

None == -1          \* "no entry"

Hash(k) == CASE HashMode = "const" -> 0
             [] HashMode = "mod2"  -> k % 2
             [] OTHER              -> k
Index(k, n) == (Hash(k) % n) + 1

Chain(k) == buckets[Index(k, Len(buckets))]
Present(k) == Contains(Chain(k), k)
Size == LET RECURSIVE S(_)
            S(i) == IF i = 0 THEN 0 ELSE Len(buckets[i]) + S(i - 1)
        IN S(Len(buckets))

(* growth: walk the old buckets in order, each entry goes to the head *)
Rehash(bs) ==
    LET n == 2 * Len(bs)
        flat == FlattenSeq(bs)
        RECURSIVE Go(_, _)
        Go(i, acc) == IF i > Len(flat) THEN acc
                      ELSE LET x == Index(flat[i], n)
                           IN Go(i + 1, [acc EXCEPT ![x] = <<flat[i]>> \o @])
    IN Go(1, [i \in 1..n |-> <<>>])

NeedGrow(bs) == LET sz == Len(FlattenSeq(bs)) IN sz > (Len(bs) * 3) \div 4
CanGrow(bs) == 2 * Len(bs) <= MaxBuckets

Append1(k) == [buckets EXCEPT ![Index(k, Len(buckets))] = Append(@, k)]

(* outcomes of inserting a new key: fault = index of failing allocation (0 none) *)
Inserted(k, fault) ==
    LET b == Append1(k)
    IN  IF NeedGrow(b) /\ CanGrow(b) /\ fault # 2 THEN Rehash(b) ELSE b

Init == /\ buckets = [i \in 1..InitBuckets |-> <<>>]
        /\ val = [k \in Keys |-> 0]
        /\ amap = [k \in Keys |-> None]
        /\ last = [op |-> "init", k |-> 0, v |-> 0, fault |-> 0, inst |-> 0, res |-> <<>>]

Out(op, k, v, fault, inst, res) ==
    last' = [op |-> op, k |-> k, v |-> v, fault |-> fault, inst |-> inst, res |-> res]

(* inst 0, 1: which of two equal key objects is passed; 2: as 0, without asking for the previous value *)
Insts == {0, 1, 2}
PutRes(rc, prev, inst) == IF inst = 2 THEN <<rc>> ELSE <<rc, prev>>
MemRes(rc, v, calls, inst) == IF inst = 2 THEN <<rc, calls>> ELSE <<rc, v, calls>>

\* ---- put ----
PutNew(k, v, inst, fault) ==
    /\ ~Present(k)
    /\ fault # 1
    /\ buckets' = Inserted(k, fault)
    /\ val' = [val EXCEPT ![k] = v]
    /\ amap' = [amap EXCEPT ![k] = v]
    /\ Out("put", k, v, fault, inst, PutRes(0, 0, inst))      \* rc 0, previous NULL
PutNoMem(k, v, inst, fault) ==
    /\ ~Present(k) /\ fault # 0
    /\ UNCHANGED <<buckets, val, amap>>
    /\ Out("put", k, v, fault, inst, PutRes(-1, 0, inst))     \* -ENOMEM, previous NULL
PutReplace(k, v, inst, fault) ==
    /\ Present(k)
    /\ UNCHANGED buckets
    /\ val' = [val EXCEPT ![k] = v]
    /\ amap' = [amap EXCEPT ![k] = v]
    /\ Out("put", k, v, fault, inst, PutRes(0, val[k], inst))
\* ---- memoize: result <<rc, value, initialiser calls>> ----
MemoNew(k, v, inst, fault) ==
    /\ ~Present(k)
    /\ fault # 1
    /\ buckets' = Inserted(k, fault)
    /\ val' = [val EXCEPT ![k] = v]
    /\ amap' = [amap EXCEPT ![k] = v]
    /\ Out("memo", k, v, fault, inst, MemRes(0, v, 1, inst))
MemoNoMem(k, v, inst, fault) ==
    /\ ~Present(k) /\ fault # 0
    /\ UNCHANGED <<buckets, val, amap>>
    /\ Out("memo", k, v, fault, inst, MemRes(-1, 0, 0, inst))
MemoHit(k, v, inst, fault) ==
    /\ Present(k)
    /\ UNCHANGED <<buckets, val, amap>>
    /\ Out("memo", k, v, fault, inst, MemRes(0, val[k], 0, inst))
\* ---- queries ----
Get(k, inst) ==
    /\ UNCHANGED <<buckets, val, amap>>
    /\ Out("get", k, 0, 0, inst, <<IF Present(k) THEN val[k] ELSE 0>>)
Has(k, inst) ==
    /\ UNCHANGED <<buckets, val, amap>>
    /\ Out("has", k, 0, 0, inst, <<IF Present(k) THEN 1 ELSE 0>>)
SizeOp ==
    /\ UNCHANGED <<buckets, val, amap>>
    /\ Out("size", 0, 0, 0, 0, <<Size>>)
(* the multiset of visited <<key, value>> pairs, ordered by key: the visiting order is free *)
Sorted(f) == LET RECURSIVE G(_)
                 G(S) == IF S = {} THEN <<>>
                         ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                              IN <<m, f[m]>> \o G(S \ {m})
             IN G({k \in Keys : f[k] # None})
Each ==
    /\ UNCHANGED <<buckets, val, amap>>
    /\ Out("each", 0, 0, 0, 0, Sorted([k \in Keys |-> IF Present(k) THEN val[k] ELSE None]))
(* stop after n visits: min(n, size) visits, all distinct and present *)
EachStop(n) ==
    /\ UNCHANGED <<buckets, val, amap>>
    /\ Out("stop", n, 0, 0, 0, <<IF Size < n THEN Size ELSE n>>)
\* ---- remove ----
RemoveOp(k, inst) ==
    /\ IF Present(k)
       THEN /\ buckets' = [buckets EXCEPT ![Index(k, Len(buckets))] = SelectSeq(@, LAMBDA x : x # k)]
            /\ val' = [val EXCEPT ![k] = 0]
            /\ amap' = [amap EXCEPT ![k] = None]
       ELSE UNCHANGED <<buckets, val, amap>>
    /\ Out("rm", k, 0, 0, inst, <<IF Present(k) THEN val[k] ELSE 0>>)
\* ---- delete and create again ----
Recreate ==
    /\ buckets' = [i \in 1..InitBuckets |-> <<>>]
    /\ val' = [k \in Keys |-> 0]
    /\ amap' = [k \in Keys |-> None]
    /\ Out("reset", 0, 0, 0, 0, <<0>>)      \* no block left allocated
(* creating a second map while memory runs out: refused and nothing left behind, or it works *)
CreateFault(f) ==
    /\ f # 0
    /\ UNCHANGED <<buckets, val, amap>>
    /\ \E r \in {0, 1} : Out("newfail", f, 0, 0, 0, <<r, 0>>)

Next ==
    \/ \E f \in Faults : CreateFault(f)
    \/ \E k \in Keys, v \in Vals, inst \in Insts, f \in Faults :
          \/ PutNew(k, v, inst, f) \/ PutNoMem(k, v, inst, f) \/ PutReplace(k, v, inst, f)
          \/ MemoNew(k, v, inst, f) \/ MemoNoMem(k, v, inst, f) \/ MemoHit(k, v, inst, f)
    \/ \E k \in Keys, inst \in {0, 1} : Get(k, inst) \/ Has(k, inst) \/ RemoveOp(k, inst)
    \/ SizeOp \/ Each \/ Recreate
    \/ \E n \in 1..2 : EachStop(n)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
AllKeys == FlattenSeq(buckets)
(* refinement: the chains are exactly the finite map *)
Refines ==
    /\ \A k \in Keys : Present(k) <=> amap[k] # None
    /\ \A k \in Keys : Present(k) => val[k] = amap[k]
    /\ Len(AllKeys) = Cardinality({k \in Keys : amap[k] # None})
NoDup == \A i, j \in 1..Len(AllKeys) : AllKeys[i] = AllKeys[j] => i = j
WellPlaced == \A i \in 1..Len(buckets) : \A j \in 1..Len(buckets[i]) :
                 Index(buckets[i][j], Len(buckets)) = i
(* a failed call changes nothing *)
FailureAtomic == [][last'.op \in {"put", "memo"} /\ last'.res[1] = -1 => amap' = amap]_vars

View == <<buckets, val, amap>>
Emit == CSVWrite("%1$s", <<ToJson([s |-> <<buckets, val>>, a |-> last', t |-> <<buckets', val'>>])>>, EmitFile)
EmitOn == EmitFile = "" \/ Emit
=============================================================================
