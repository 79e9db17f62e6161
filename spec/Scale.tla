-------------------------------- MODULE Scale --------------------------------
(* Families of object graphs of any size (chains, rings, combs, full trees,     *)
(* wide arrays and structures) and one fixed history of deep operations on      *)
(* each.  The operations are those of Deep; what they do is uniform in the      *)
(* size n, which the checker exploits: histories for small n computed here are  *)
(* the reference for the ones expanded to large n and replayed.                 *)
EXTENDS Deep

CONSTANTS Families, MaxN
VARIABLE fam     \* [f, n]
svars == <<vars, fam>>

V(i) == Num((i * 7 + 3) % 4)
C == RefT("C")
Tr == RefT("Tr")
Wd(n) == S("Wd", [i \in 1..n |-> M("w" \o ToString(i), IF i % 3 = 0 THEN P(B("int")) ELSE B("int"))])
Env0(n) == [C |-> <<M("v", B("int")), M("next", P(C))>>, Tr |-> <<M("v", B("int")), M("l", P(Tr)), M("r", P(Tr))>>, Wd |-> Wd(n).m, Pr |-> <<M("k", B("int")), M("p", P(B("int")))>>]
Top(f, n) == CASE f \in {"chain", "ring"} -> C [] f \in {"comb", "bin"} -> Tr [] f \in {"wide", "share"} -> A(n, P(C))
               [] f = "ints" -> A(n, B("int")) [] f = "chars" -> A(n, B("char")) [] f = "members" -> RefT("Wd") [] f = "pairs" -> A(n, RefT("Pr")) [] f = "ptrs" -> P(A(n, B("int")))
EnvF(f, n) == LET m == Env0(n) IN [m |-> m, l |-> TLCEval([t \in {C, Tr, RefT("Wd"), RefT("Pr"), B("int"), A(n, B("int")), Top(f, n)} |-> Layout(m, t)])]
CellC(e, t, c, top) == Cell(e, t, c, top)
HeapF(e, f, n) ==
    LET cc(t, c) == Cell(e, t, c, FALSE) tt(c) == Cell(e, Top(f, n), c, TRUE) IN
    CASE f \in {"chain", "ring"} -> [i \in 1..(n + 1) |-> (IF i = 1 THEN tt(<<V(i), Ptr(i + 1, 0)>>)
                                       ELSE cc(C, <<V(i), IF i = n + 1 THEN (IF f = "ring" THEN Ptr(2, 0) ELSE Nil) ELSE Ptr(i + 1, 0)>>))]
      (* a comb: every tooth has one leaf to its right *)
      [] f = "comb" -> [i \in 1..(2 * n + 1) |-> LET down == IF i <= n THEN <<Ptr(i + 1, 0), Ptr(n + 1 + i, 0)>> ELSE <<Nil, Nil>>
                                                 IN IF i = 1 THEN tt(<<V(i)>> \o down) ELSE cc(Tr, <<V(i)>> \o down)]
      (* a full tree of n blocks *)
      [] f = "bin" -> [i \in 1..n |-> LET kid(j) == IF j <= n THEN Ptr(j, 0) ELSE Nil c == <<V(i), kid(2 * i), kid(2 * i + 1)>> IN IF i = 1 THEN tt(c) ELSE cc(Tr, c)]
      [] f = "wide" -> [i \in 1..(n + 1) |-> IF i = 1 THEN tt([j \in 1..n |-> Ptr(j + 1, 0)]) ELSE cc(C, <<V(i), Nil>>)]
      [] f = "share" -> [i \in 1..2 |-> IF i = 1 THEN tt([j \in 1..n |-> Ptr(2, 0)]) ELSE cc(C, <<V(i), Nil>>)]
      [] f = "ints" -> <<tt([j \in 1..n |-> V(j)])>>
      [] f = "chars" -> <<tt([j \in 1..n |-> IF j = n THEN Num(0) ELSE Num(3)])>>
      [] f = "members" -> [i \in 1..(n \div 3 + 1) |-> IF i = 1 THEN tt([j \in 1..n |-> IF j % 3 = 0 THEN Ptr(j \div 3 + 1, 0) ELSE V(j)]) ELSE cc(B("int"), <<V(i)>>)]
      [] f = "pairs" -> [i \in 1..(n + 1) |-> IF i = 1 THEN tt([j \in 1..(2 * n) |-> IF j % 2 = 0 THEN Ptr(j \div 2 + 1, 0) ELSE V(j)]) ELSE cc(B("int"), <<V(i)>>)]
      [] f = "ptrs" -> <<tt(<<Ptr(2, 0)>>), cc(A(n, B("int")), [j \in 1..n |-> V(j)])>>

SInit == \E f \in Families : \E n \in 1..MaxN : \E e \in {EnvF(f, n)} : \E h \in {HeapF(e, f, n)} :
           /\ fam = [f |-> f, n |-> n] /\ env = e /\ heap = h /\ last = Res("init", 0, 0, NoMode, "", <<>>)
           /\ hist = <<[env |-> [x \in DOMAIN e.m |-> S(x, e.m[x])], heap |-> h]>>
Md(mb) == [mb |-> mb, up |-> "fail", un |-> "fail", fx |-> "fail"]
H0 == Len(hist[1].heap)
C1 == H0 + 1
C2 == C1 + Len(hist[4].cells)
(* the value in the last block of the second copy *)
PokeLast == LET b == Len(heap) js == {j \in 1..Len(heap[b].leaf) : ~IsPtr(heap[b].leaf[j].t)} IN
            IF js = {} THEN Compare(1, C2, Md("tree"))
            ELSE LET j == CHOOSE j \in js : \A y \in js : y <= j c == Num((heap[b].c[j].x + 1) % 4) IN
                 UNCHANGED env /\ heap' = [heap EXCEPT ![b].c[j] = c] /\ Log(Res("poke", b, j, NoMode, "", <<[c |-> c]>>))
SNext == /\ UNCHANGED fam
         /\ CASE Len(hist) = 1 -> Render(1, 0) [] Len(hist) = 2 -> Render(1, 1) [] Len(hist) = 3 -> CopyTo(1, Md("dag")) [] Len(hist) = 4 -> CopyTo(1, Md("tree"))
              [] Len(hist) = 5 -> Compare(1, C1, Md("dag")) [] Len(hist) = 6 -> Compare(C1, C2, Md("tree")) [] Len(hist) = 7 -> PokeLast
              [] Len(hist) = 8 -> Compare(1, C2, Md("tree")) [] Len(hist) = 9 -> Render(C2, 1) [] Len(hist) = 10 -> Release(C2, Md("dag"))
              [] Len(hist) = 11 -> Render(C1, 1) [] Len(hist) = 12 -> Release(C1, Md("dag")) [] OTHER -> FALSE
SSpec == SInit /\ [][SNext]_svars
(* the last comparison sees the change: nothing is too deep or too far out *)
Sees == Len(hist) = 9 /\ last.op = "eq" => last.res = (IF hist[8].op = "poke" THEN "0" ELSE "1")
Emit == Len(hist) = 13 => CSVWrite("%1$s", <<ToJson([f |-> fam.f, n |-> fam.n, h |-> hist])>>, EmitFile)
=============================================================================
