------------------------------ MODULE Navigate ------------------------------
(* Navigation over values (src/value.c, src/entry.c): a cursor is a sub-      *)
(* object of a C object - its declared type, the memory block it lies in and  *)
(* its offset there.  Moves are the library's calls: member by index or by    *)
(* name, array element, dereference and element-count override.               *)
EXTENDS CTypes, Json, CSV

CONSTANTS Roots, MaxPath, EmitFile
VARIABLES root, cur, path
vars == <<root, cur, path>>

(* what the cursor denotes: d = declaration kind of the value's own entry *)
At(t, blk, off, dk, nm) == [t |-> t, blk |-> blk, off |-> off, dk |-> dk, nm |-> nm]
TName(t) == CASE t.k \in {"b", "t", "s", "u", "e", "d"} -> t.n [] OTHER -> ""
Plain(t, blk, off) == At(t, blk, off, t.k, TName(t))

Init == /\ root \in Roots
        /\ \E v \in {TRUE, FALSE} : cur = IF v THEN At(root, 0, 0, "x", "var1") ELSE Plain(root, 0, 0)
        /\ path = <<>>

Ft == Final(cur.t)
Step(s, c) == path' = Append(path, s) /\ cur' = c /\ UNCHANGED root

Member(i) == LET m == Ft.m[i] IN
    /\ \E by \in {"m", "n"} :
         /\ by = "n" => m.n # ""
         /\ Step([o |-> by, i |-> i - 1, n |-> m.n], At(m.of, cur.blk, cur.off + Offset(Ft, i), "m", m.n))
Element(i) == Step([o |-> "e", i |-> i, n |-> ""], Plain(Ft.of, cur.blk, cur.off + i * Size(Ft.of)))
(* dereference: a fresh block of the pointee's size *)
Deref == Step([o |-> "p", i |-> Size(Ft.of), n |-> ""], Plain(Ft.of, cur.blk + 1, 0))
(* element count override of an array or of a pointer's target *)
Recount(n) ==
    LET t == A(n, Ft.of) IN
    IF Ft.k = "a" THEN Step([o |-> "c", i |-> n, n |-> ""], Plain(t, cur.blk, cur.off))
    ELSE Step([o |-> "C", i |-> n, n |-> ToString(Max(1, n) * Size(Ft.of))], Plain(t, cur.blk + 1, 0))

Next ==
    /\ Len(path) < MaxPath
    /\ \/ /\ Ft.k \in {"s", "u"} /\ \E i \in 1..Len(Ft.m) : Member(i)
       \/ /\ Ft.k = "a" /\ Sized(Ft.of) /\ Ft.c > 0 /\ \E i \in {0, Ft.c - 1} : Element(i)
       \/ /\ Ft.k = "p" /\ Sized(Ft.of) /\ Deref
       \/ /\ Ft.k \in {"a", "p"} /\ Sized(Ft.of) /\ \E n \in {1, 3} : Recount(n)
          /\ (path # <<>> => path[Len(path)].o \notin {"c", "C"})
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- properties *)
RootSize == Size(root)
Extent == IF Sized(cur.t) THEN Size(cur.t) ELSE 0
(* a sub-object reached without overrides lies inside its block, aligned unless packed *)
Inside == (cur.blk = 0 /\ \A i \in 1..Len(path) : path[i].o # "c") => cur.off + Extent <= RootSize
RECURSIVE Packed(_)
Packed(t) == CASE t.k \in {"s", "u"} -> t.pk = 1 \/ \E i \in 1..Len(t.m) : Packed(t.m[i].of)
               [] t.k \in {"a", "q", "t"} -> Packed(t.of) [] OTHER -> FALSE
Aligned == (cur.blk = 0 /\ ~Packed(root) /\ Sized(cur.t)) => cur.off % Align(cur.t) = 0

(* moves that must be refused here *)
Bad == LET mc == IF Ft.k \in {"s", "u"} THEN Len(Ft.m) ELSE 0
           ec == IF Ft.k = "a" /\ Sized(Ft.of) THEN Ft.c ELSE 0
       IN  <<[o |-> "m", i |-> -1, n |-> ""], [o |-> "m", i |-> mc, n |-> ""], [o |-> "n", i |-> 0, n |-> "nosuch"],
             [o |-> "n", i |-> 0, n |-> "m"], [o |-> "n", i |-> 0, n |-> "m11"],
             [o |-> "e", i |-> -1, n |-> ""], [o |-> "e", i |-> Max(0, ec), n |-> ""]>>
           \o (IF Ft.k \in {"s", "u"} THEN <<>> ELSE <<[o |-> "m", i |-> 0, n |-> ""], [o |-> "n", i |-> 0, n |-> "m1"]>>)
           \o (IF Ft.k = "a" THEN <<>> ELSE <<[o |-> "e", i |-> 0, n |-> ""]>>)
           \o (IF Ft.k \in {"a", "p"} THEN <<>> ELSE <<[o |-> "c", i |-> 1, n |-> ""]>>)
Obs == [root |-> root, var |-> (path = <<>> /\ cur.dk = "x"), path |-> path, blk |-> cur.blk, off |-> cur.off, dk |-> cur.dk, nm |-> cur.nm,
        fk |-> Ft.k, quals |-> Quals(cur.t), size |-> IF Sized(cur.t) THEN Size(cur.t) ELSE -1,
        count |-> IF Ft.k = "a" THEN Ft.c ELSE -100, members |-> IF Ft.k \in {"s", "u"} THEN Len(Ft.m) ELSE IF Ft.k = "d" THEN 0 ELSE -100,
        pto |-> IF Ft.k = "p" THEN Final(Ft.of).k ELSE "", bad |-> Bad]
EmitInv == CSVWrite("%1$s", <<ToJson(Obs)>>, EmitFile)
=============================================================================
