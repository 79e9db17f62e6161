---------------------------- MODULE HashmapSim ----------------------------
(* Random deep histories of Hashmap.tla, emitted whole (simulation mode). *)
EXTENDS Hashmap
CONSTANT SimDepth
VARIABLE hist
SimInit == Init /\ hist = <<>>
(* one random argument tuple per step keeps the branching small *)
SimStep ==
    \E k \in {RandomElement(Keys)}, v \in {RandomElement(Vals)}, inst \in {RandomElement(Insts)},
       f \in {IF RandomElement(1..8) = 1 THEN RandomElement(Faults) ELSE 0}, n \in {RandomElement(1..3)},
       op \in {RandomElement({"put", "put", "memo", "get", "has", "rm", "size", "each", "stop", "new"})} :
       \/ op = "put"  /\ (PutNew(k, v, inst, f) \/ PutReplace(k, v, inst, f) \/ (f = 1 /\ PutNoMem(k, v, inst, f)))
       \/ op = "memo" /\ (MemoNew(k, v, inst, f) \/ MemoHit(k, v, inst, f) \/ (f = 1 /\ MemoNoMem(k, v, inst, f)))
       \/ op = "get"  /\ Get(k, inst % 2)
       \/ op = "has"  /\ Has(k, inst % 2)
       \/ op = "rm"   /\ RemoveOp(k, inst % 2)
       \/ op = "size" /\ SizeOp
       \/ op = "each" /\ Each
       \/ op = "stop" /\ EachStop(n)
       \/ op = "new"  /\ (IF f # 0 THEN CreateFault(f) ELSE IF k = 0 THEN Recreate ELSE Each)
SimNext == SimStep /\ hist' = Append(hist, last')
SimEmit == Len(hist) = SimDepth => CSVWrite("%1$s", <<ToJson(hist)>>, EmitFile)
=============================================================================
