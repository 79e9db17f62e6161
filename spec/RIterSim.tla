------------------------------ MODULE RIterSim ------------------------------
(* Random deep histories of RIter.tla, emitted whole (simulation mode). *)
EXTENDS RIter
CONSTANT SimDepth
VARIABLE hist
SimInit == Init /\ hist = <<>>
SimStep ==
    \E i \in {RandomElement(Ins)}, f \in {RandomElement(Faults)}, u \in {RandomElement(UserStates)},
       c \in {RandomElement(Ctxs)}, o \in {RandomElement(Outs)}, n \in {RandomElement(0..MaxDeps)} :
       \/ Next1 \/ Next1 \/ Dequeue \/ Fail \/ GetOut \/ AppendDep(i, 0) \/ AppendDep(i, 0) \/ AppendNoMem(i, f)
       \/ (Len(hist) > SimDepth - 4 /\ Restart(i, f)) \/ Peek(n) \/ SetState(u) \/ SetCtx(c) \/ Done(o)
(* deep and wide: phases that mostly go down, spread out or come back *)
Deeply == {"append", "append", "next", "next", "state", "ctx", "append", "done"}
Widely == {"append", "append0", "append1", "append2", "append3", "next", "peek", "done", "nomem"}
Back == {"next", "next0", "done", "done0", "done1", "fail", "out", "dequeue", "dequeue0", "dequeue1", "peek", "state"}
BigStep ==
    \E i \in {RandomElement(Ins)}, u \in {RandomElement(UserStates)}, c \in {RandomElement(Ctxs)}, o \in {RandomElement(Outs)}, n \in {RandomElement(0..MaxDeps)},
       op \in {RandomElement(LET p == (Len(hist) * 10) \div SimDepth IN IF p \in {0, 1, 4} THEN Deeply ELSE IF p \in {2, 5} THEN Widely ELSE Back)} :
       LET want == CASE op \in {"append", "append0", "append1", "append2", "append3"} -> IF ENABLED AppendDep(i, 0) THEN "append" ELSE "next"
                     [] op \in {"done", "done0", "done1"} -> IF ENABLED Done(o) THEN "done" ELSE "next"
                     [] op = "fail" -> IF ENABLED Fail THEN "fail" ELSE "next"
                     [] op = "out" -> IF ENABLED GetOut THEN "out" ELSE "next"
                     [] op \in {"dequeue", "dequeue0", "dequeue1"} -> IF ENABLED Dequeue THEN "dequeue" ELSE "next"
                     [] op = "peek" -> IF ENABLED Peek(n) THEN "peek" ELSE "next"
                     [] op = "state" -> IF ENABLED SetState(u) THEN "state" ELSE "next"
                     [] op = "nomem" -> IF ENABLED AppendNoMem(i, 1) THEN "nomem" ELSE "next"
                     [] op = "next0" -> "next"
                     [] OTHER -> op
       IN CASE want = "append" -> AppendDep(i, 0) [] want = "done" -> Done(o) [] want = "fail" -> Fail [] want = "out" -> GetOut
            [] want = "dequeue" -> Dequeue [] want = "peek" -> Peek(n) [] want = "state" -> SetState(u) [] want = "nomem" -> AppendNoMem(i, 1)
            [] want = "ctx" -> SetCtx(c) [] OTHER -> Next1
BigNext == BigStep /\ hist' = Append(hist, last')
SimNext == SimStep /\ hist' = Append(hist, last')
SimEmit == Len(hist) = SimDepth => CSVWrite("%1$s", <<ToJson(hist)>>, EmitFile)
=============================================================================
