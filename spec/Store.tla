-------------------------------- MODULE Store --------------------------------
(* Argument storages (src/value_with_args.c): two independent storages, each   *)
(* a sequence of arguments; an argument is a typed buffer or, for "..." and    *)
(* va_list, a storage of its own.  They are filled, emptied, refilled, copied  *)
(* and changed in place.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV
CONSTANTS Types, Data, MaxItems, MaxNest, Steps, Rnd, EmitFile
VARIABLES st, hist
vars == <<st, hist>>
Pick(s) == IF Rnd THEN {RandomElement(s)} ELSE s

Buf(e, d) == [k |-> "b", e |-> e, d |-> d]
Sub(s) == [k |-> "n", s |-> s]
RECURSIVE At(_, _), Put(_, _, _), Paths(_, _), Items(_)
At(s, p) == IF p = <<>> THEN s ELSE At(s[Head(p)].s, Tail(p))
Put(s, p, new) == IF p = <<>> THEN new ELSE [s EXCEPT ![Head(p)] = Sub(Put(s[Head(p)].s, Tail(p), new))]
Paths(s, n) == {<<>>} \cup (IF n = 0 THEN {} ELSE UNION {{<<i>> \o q : q \in Paths(s[i].s, n - 1)} : i \in {j \in 1..Len(s) : s[j].k = "n"}})
Items(s) == Len(s) + (IF s = <<>> THEN 0 ELSE LET h == Head(s) IN (IF h.k = "n" THEN Items(h.s) ELSE 0) + Items(Tail(s)) - Len(Tail(s)))

Init == st = <<<<>>, <<>>>> /\ hist = <<>>
Do(r, new, op) == /\ st' = [st EXCEPT ![r] = new]
                  /\ hist' = Append(hist, [op EXCEPT !.r = r] @@ [st |-> st'])
Op(o, p) == [o |-> o, r |-> 0, p |-> p, i |-> 0, e |-> 0, d |-> 0, q |-> <<>>]

AddBuf(r, p, e, d) == Items(st[r]) < MaxItems /\ Do(r, Put(st[r], p, Append(At(st[r], p), Buf(e, d))), [Op("B", p) EXCEPT !.e = e, !.d = d])
AddSub(r, p) == Items(st[r]) < MaxItems /\ Len(p) < MaxNest /\ Do(r, Put(st[r], p, Append(At(st[r], p), Sub(<<>>))), Op("N", p))
Set(r, p, i, d) == LET s == At(st[r], p) IN
    i <= Len(s) /\ s[i].k = "b" /\ Do(r, Put(st[r], p, [s EXCEPT ![i].d = d]), [Op("S", p) EXCEPT !.i = i, !.d = d, !.e = s[i].e])
Clean(r, p) == At(st[r], p) # <<>> /\ Do(r, Put(st[r], p, <<>>), Op("X", p))
(* everything of one storage into an empty one of the other tree *)
Copy(r, p, q) == At(st[r], p) = <<>> /\ Do(r, Put(st[r], p, At(st[3 - r], q)), [Op("Y", p) EXCEPT !.q = q])
Refuse(r, p) == hist # <<>> /\ hist[Len(hist)].o # "R" /\ Do(r, st[r], Op("R", p))

Next == /\ Len(hist) < Steps
        /\ \E r \in Pick({1, 2}) : \E p \in Pick(Paths(st[r], MaxNest)) :
             \/ \E e \in Pick(Types), d \in Pick(Data) : AddBuf(r, p, e, d)
             \/ AddSub(r, p)
             \/ \E i \in Pick(1..MaxItems), d \in Pick(Data) : Set(r, p, i, d)
             \/ Clean(r, p)
             \/ \E q \in Pick({q \in Paths(st[3 - r], MaxNest) : Len(p) + Len(q) < MaxNest + 2}) : Copy(r, p, q)
             \/ Refuse(r, p)
Spec == Init /\ [][Next]_vars

(* a storage is as long as what was appended since it was emptied; the other tree never changes *)
Apart == [][\A r \in {1, 2} : hist'[Len(hist')].r # r => st'[r] = st[r]]_vars
CopyEqual == hist # <<>> /\ hist[Len(hist)].o = "Y" => LET h == hist[Len(hist)] IN At(st[h.r], h.p) = At(st[3 - h.r], h.q)
Emit == Len(hist) = Steps => CSVWrite("%1$s", <<ToJson(hist)>>, EmitFile)
=============================================================================
