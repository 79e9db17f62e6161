------------------------------- MODULE BigMap -------------------------------
(* Long histories of large maps: only the abstract state of Hashmap.tla (the  *)
(* finite map that it is shown to refine), so that hundreds of keys and many  *)
(* growths are within reach.  Phases fill, change and empty the map.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, SequencesExt
CONSTANTS N, Steps, EmitFile
VARIABLES amap, hist
Keys == 0..(N - 1)
Vals == {0, 1, 2, 7, 1000000}
None == -1
Rec(op, k, v, inst, res) == [op |-> op, k |-> k, v |-> v, fault |-> 0, inst |-> inst, res |-> res]
Init == amap = [k \in Keys |-> None] /\ hist = <<>>
Nul(x) == IF x = None THEN 0 ELSE x
Pairs == FoldLeftDomain(LAMBDA acc, i : IF amap[i - 1] = None THEN acc ELSE acc \o <<i - 1, amap[i - 1]>>, <<>>, [i \in 1..N |-> i])
Size == Cardinality({k \in Keys : amap[k] # None})
(* what the phase of a history does mostly *)
Ops(n) == LET p == (n * 6) \div Steps IN
    CASE p \in {0, 1} -> <<"put", "put", "put", "put", "memo", "memo", "get", "has", "rm", "put">>
      [] p \in {2, 4} -> <<"put", "memo", "get", "get", "has", "rm", "rm", "get", "has", "put">>
      [] p = 3 -> <<"rm", "rm", "rm", "rm", "rm", "get", "has", "put", "rm", "memo">>
      [] OTHER -> <<"put", "put", "memo", "put", "rm", "get", "has", "put", "memo", "get">>
Step == \E k \in {RandomElement(Keys)}, v \in {RandomElement(Vals)}, inst \in {RandomElement({0, 1, 2})}, o \in {RandomElement(1..10)}, big \in {RandomElement(1..60)} :
    LET op == IF Len(hist) = Steps - 1 \/ big = 1 THEN "each" ELSE IF big \in {2, 3} THEN "size" ELSE Ops(Len(hist))[o]
        i2 == inst % 2
    IN /\ amap' = CASE op = "put" -> [amap EXCEPT ![k] = v]
                    [] op = "memo" -> IF amap[k] = None THEN [amap EXCEPT ![k] = v] ELSE amap
                    [] op = "rm" -> [amap EXCEPT ![k] = None]
                    [] OTHER -> amap
       /\ hist' = Append(hist,
            CASE op = "put" -> Rec(op, k, v, inst, IF inst = 2 THEN <<0>> ELSE <<0, Nul(amap[k])>>)
              [] op = "memo" -> LET r == IF amap[k] = None THEN v ELSE amap[k]  c == IF amap[k] = None THEN 1 ELSE 0
                                IN Rec(op, k, v, inst, IF inst = 2 THEN <<0, c>> ELSE <<0, r, c>>)
              [] op = "rm" -> Rec(op, k, 0, i2, <<Nul(amap[k])>>)
              [] op = "get" -> Rec(op, k, 0, i2, <<Nul(amap[k])>>)
              [] op = "has" -> Rec(op, k, 0, i2, <<IF amap[k] = None THEN 0 ELSE 1>>)
              [] op = "size" -> Rec(op, 0, 0, 0, <<Size>>)
              [] OTHER -> Rec("each", 0, 0, 0, Pairs))
Next == Len(hist) < Steps /\ Step
Emit == Len(hist) = Steps => CSVWrite("%1$s", <<ToJson(hist)>>, EmitFile)
=============================================================================
