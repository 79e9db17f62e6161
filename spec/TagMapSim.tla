----------------------------- MODULE TagMapSim -----------------------------
(* Random long histories of TagMap.tla. *)
EXTENDS TagMap
CONSTANT SimDepth
VARIABLE hist
SimInit == Init /\ hist = <<>>
SimStep == \E m \in {RandomElement(M)}, f \in {RandomElement(Faults)}, o \in {RandomElement(Objs)}, o2 \in {RandomElement(Objs)},
              c \in {RandomElement(0..4)}, ov \in {RandomElement({0, 0, 1})}, op \in {RandomElement({1, 1, 2, 3})}, t \in {RandomElement(Tags)},
              d \in {RandomElement(1..12)} :
           IF live # M /\ d <= 3 THEN \E n \in {RandomElement(M \ live)} : New(n, 0) \/ New(n, f)
           ELSE IF live = {} THEN \E n \in M : New(n, 0)
           ELSE IF d = 4 /\ \E n \in live : ENABLED Delete(n) THEN \E n \in live : Delete(n)
           ELSE IF m \notin live THEN \E n \in live : Get(n, o2)
           ELSE IF d <= 8 THEN Set(m, c, o, ov, op, t, 0) ELSE IF d = 9 THEN Set(m, c, o, ov, op, t, f) ELSE Get(m, o2)
SimNext == SimStep /\ hist' = Append(hist, last')
SimEmit == Len(hist) = SimDepth => CSVWrite("%1$s", <<ToJson(hist)>>, EmitFile)
=============================================================================
