-------------------------------- MODULE RIter --------------------------------
(* Model of src/iterator.c, the heap-based replacement for recursion.       *)
(* `stack` is the path of started, unfinished tasks from the root to the     *)
(* current one; the last frame may already have ended (until Next is         *)
(* called).  Every frame holds its input, user state, context, its queue of  *)
(* dependencies (pending / done / failed) and, once ended, its outcome.      *)
(* Misuse that the API rules out with assertions (ending a task with         *)
(* dependencies still queued, dequeuing an unfinished one) is not enabled.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Ins, Outs, UserStates, Ctxs, MaxDeps, MaxDepth, MaxTasks, Faults, EmitFile

VARIABLES stack, budget, last
vars == <<stack, budget, last>>

Pending(i)   == [in |-> i, st |-> "p", out |-> 0]
NewFrame(i)  == [in |-> i, st |-> 0, ctx |-> 0, deps |-> <<>>, end |-> "no", out |-> 0]
Top == stack[Len(stack)]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
Level == Len(stack) - 1
Ended == Top.end # "no"

(* ------------------ what a caller can observe between two calls ----------- *)
StateCode(f) == CASE f.end = "done" -> -2 [] f.end = "failed" -> -3 [] OTHER -> f.st
InChain(s) == [i \in 1..(Len(s) + 1) |-> IF i > Len(s) THEN 0 ELSE s[Len(s) + 1 - i].in]
Proj(s) == LET f == s[Len(s)] IN
    <<StateCode(f), Len(s) - 1, f.ctx, Len(f.deps), IF f.deps = <<>> THEN 1 ELSE 0>> \o InChain(s)
Out(op, x, y, res, s) == last' = [op |-> op, x |-> x, y |-> y, res |-> res \o Proj(s)]

Init == /\ stack = <<NewFrame(1)>>
        /\ budget = MaxTasks
        /\ last = [op |-> "init", x |-> 0, y |-> 0, res |-> <<>>]

(* --------------------------------- actions ------------------------------- *)
(* scheduling: the specification of metac_recursive_iterator_next *)
RECURSIVE Descend(_)
Descend(s) ==
    LET f == s[Len(s)]
        un == {i \in 1..Len(f.deps) : f.deps[i].st = "p"}
    IN  IF un = {} THEN s
        ELSE LET i == CHOOSE x \in un : \A y \in un : x <= y
             IN Descend(Append(s, NewFrame(f.deps[i].in)))
RECURSIVE Ascend(_)
Ascend(s) ==
    LET f == s[Len(s)]
    IN  IF f.end = "no" THEN Descend(s)
        ELSE IF Len(s) = 1 THEN s
        ELSE LET up == SubSeq(s, 1, Len(s) - 1)
                 p  == up[Len(up)]
                 i  == CHOOSE x \in 1..Len(p.deps) :
                          p.deps[x].st = "p" /\ \A y \in 1..(x - 1) : p.deps[y].st # "p"
                 d  == [p.deps[i] EXCEPT !.st = IF f.end = "done" THEN "d" ELSE "f", !.out = f.out]
             IN Ascend([up EXCEPT ![Len(up)].deps[i] = d])
Next1 ==
    LET s == Ascend(stack)
        atEnd == Len(s) = 1 /\ s[1].end # "no"
    IN /\ stack' = s
       /\ UNCHANGED budget
       /\ Out("next", 0, 0, <<IF atEnd THEN 0 ELSE s[Len(s)].in>>, s)

AppendDep(i, fault) ==
    /\ ~Ended /\ fault = 0 /\ budget > 0
    /\ Len(Top.deps) < MaxDeps /\ Len(stack) < MaxDepth
    /\ stack' = SetTop([Top EXCEPT !.deps = Append(@, Pending(i))])
    /\ budget' = budget - 1
    /\ Out("append", i, fault, <<0>>, stack')
AppendNoMem(i, fault) ==
    /\ ~Ended /\ fault # 0 /\ Len(Top.deps) < MaxDeps
    /\ UNCHANGED <<stack, budget>>
    /\ Out("append", i, fault, <<-1>>, stack)
Dequeue ==
    /\ IF Top.deps = <<>> THEN TRUE ELSE Head(Top.deps).st # "p"
    /\ UNCHANGED budget
    /\ IF Top.deps = <<>>
       THEN /\ UNCHANGED stack /\ Out("dequeue", 0, 0, <<0, -9, -9>>, stack)
       ELSE LET d == Head(Top.deps) IN
            /\ stack' = SetTop([Top EXCEPT !.deps = Tail(@)])
            /\ Out("dequeue", 0, 0, <<d.out, d.in, IF d.st = "f" THEN 1 ELSE 0>>, stack')
Peek(i) ==
    /\ IF i >= Len(Top.deps) THEN TRUE ELSE Top.deps[i + 1].st # "p"
    /\ UNCHANGED <<stack, budget>>
    /\ Out("peek", i, 0, IF i >= Len(Top.deps) THEN <<0, -9, -9>>
                         ELSE LET d == Top.deps[i + 1] IN <<d.out, d.in, IF d.st = "f" THEN 1 ELSE 0>>, stack)
SetState(u) ==
    /\ ~Ended
    /\ stack' = SetTop([Top EXCEPT !.st = u]) /\ UNCHANGED budget
    /\ Out("state", u, 0, <<1>>, stack')
SetStateError ==       \* the reserved error state is refused
    /\ ~Ended
    /\ UNCHANGED <<stack, budget>>
    /\ Out("state", -1, 0, <<0>>, stack)
SetCtx(c) ==
    /\ stack' = SetTop([Top EXCEPT !.ctx = c]) /\ UNCHANGED budget
    /\ Out("ctx", c, 0, <<c>>, stack')
Done(o) ==
    /\ ~Ended /\ Top.deps = <<>>
    /\ stack' = SetTop([Top EXCEPT !.end = "done", !.out = o]) /\ UNCHANGED budget
    /\ Out("done", o, 0, <<1>>, stack')
Fail ==
    /\ ~Ended /\ Top.deps = <<>>
    /\ stack' = SetTop([Top EXCEPT !.end = "failed", !.out = 0]) /\ UNCHANGED budget
    /\ Out("fail", 0, 0, <<1>>, stack')
GetOut ==
    /\ Ended
    /\ UNCHANGED <<stack, budget>>
    /\ Out("out", 0, 0, <<Top.out, Top.in, IF Top.end = "failed" THEN 1 ELSE 0>>, stack)
(* delete the iterator, expect no block left, create another one (possibly failing first) *)
Restart(i, fault) ==
    /\ Len(stack) = 1 /\ Top.deps = <<>>
    /\ stack' = <<NewFrame(i)>>
    /\ budget' = MaxTasks
    /\ Out("restart", i, fault, <<0, IF fault # 0 THEN 1 ELSE 0>>, stack')

Next ==
    \/ Next1 \/ Dequeue \/ Fail \/ GetOut \/ SetStateError
    \/ \E i \in Ins, f \in Faults : AppendDep(i, f) \/ AppendNoMem(i, f) \/ Restart(i, f)
    \/ \E i \in 0..MaxDeps : Peek(i)
    \/ \E u \in UserStates : SetState(u)
    \/ \E c \in Ctxs : SetCtx(c)
    \/ \E o \in Outs : Done(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next1)

(* ------------------------------- properties ------------------------------ *)
(* after Next, the running task has no unfinished dependency *)
OnlyReadyRuns == last.op = "next" /\ ~Ended => \A i \in 1..Len(Top.deps) : Top.deps[i].st # "p"
(* dependencies finish in the order in which they were added *)
InOrder == \A l \in 1..Len(stack) : LET d == stack[l].deps IN
             \A i, j \in 1..Len(d) : i < j /\ d[i].st = "p" => d[j].st = "p"
(* every suspended task waits for exactly the next frame: its first unfinished dependency *)
PathOK == \A l \in 1..(Len(stack) - 1) :
             LET d == stack[l].deps
                 un == {i \in 1..Len(d) : d[i].st = "p"}
             IN un # {} /\ d[CHOOSE x \in un : \A y \in un : x <= y].in = stack[l + 1].in
EndsWithRoot == last.op = "next" /\ last.res[1] = 0 <=> last.op = "next" /\ Len(stack) = 1 /\ stack[1].end # "no"
(* a suspended task is never dropped and never loses state or context *)
SuspendedKept == [][\A l \in 1..Len(stack) : l < Len(stack) /\ l < Len(stack') =>
                      stack'[l].ctx = stack[l].ctx /\ stack'[l].st = stack[l].st /\ stack'[l].in = stack[l].in]_vars

View == <<stack, budget>>
EmitOn == CSVWrite("%1$s", <<ToJson([s |-> <<stack, budget>>, a |-> last', t |-> <<stack', budget'>>])>>, EmitFile)
=============================================================================
