------------------------------- MODULE Dies --------------------------------
(* The entries of debug information as they follow each other in the file,  *)
(* and the tree they mean: an entry that may have children is followed by   *)
(* them and an end mark.  A sibling attribute may name the next entry of    *)
(* the same parent; it must make no difference.                             *)
EXTENDS Integers, Sequences, FiniteSets, Json, CSV, TLC
CONSTANTS EmitFile, MaxDies, Mode      \* "all" small trees, "rnd" large ones with attributes
VARIABLES dies,    \* in the order of the file: [tag, kids (may have), sib, at, dep]
          open,    \* indices of the entries that are being written, outermost first
          par, ch, \* the tree: parent of each, children of each (0: the root)
          done
vars == <<dies, open, par, ch, done>>
R(s) == RandomElement(s)
Root == 0
Tags == {"StructType", "UnionType", "Subprogram", "LexDwarfBlock", "Variable", "Member", "Typedef", "PointerType", "SubroutineType"}
Parent == IF open = <<>> THEN Root ELSE open[Len(open)]
Class == [name |-> "string", strp |-> "string", addr |-> "address", blk |-> "block", expr |-> "exprloc", d1 |-> "constant", d2 |-> "constant", d4 |-> "constant",
          d8 |-> "constant", sd |-> "constant", ud |-> "constant", fl |-> "flag", fp |-> "flag", ref |-> "reference", refa |-> "reference", sig |-> "sig",
          loc |-> "loclistptr", rng |-> "rangelistptr", mac |-> "macptr", str2 |-> "lineptr", vend |-> "constant",
          sob |-> "stroffsetsptr", ab |-> "addrptr", rb |-> "rnglistsptr", lb |-> "loclistptr", llx |-> "loclist", ral |-> "alt reference", sal |-> "alt string", d16 |-> "constant"]
Forms == DOMAIN Class
Text == {"", "x", "1", "true", "null", "~", "a: b", "- c", "{}", "0x10", "two\nlines", "tab\there", "\"q\"", "#c", "1.5", "1e3", "2001-01-01", "!!int 3", "=", "<<", "yes", "'"}
Num(f) == CASE f \in {"addr", "sig"} -> R({"0", "1", "4198400", "9007199254740993", "9223372036854775808", "18446744073709551615"})
            [] f = "d1" -> R({"0", "1", "127", "255"}) [] f = "d2" -> R({"0", "256", "65535"}) [] f = "d4" -> R({"0", "65536", "4294967295"})
            [] f \in {"d8", "sd"} -> R({"0", "-1", "9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "42"})
            [] f \in {"ud", "vend", "llx"} -> R({"0", "127", "128", "9007199254740993", "9223372036854775807"})
            [] OTHER -> R({"0", "12", "4294967294"})
RECURSIVE Bytes(_)
Bytes(n) == IF n = 0 THEN <<>> ELSE <<R({0, 1, 127, 128, 255})>> \o Bytes(n - 1)
At(f) == [f |-> f, v |-> IF f \in {"name", "strp"} THEN R(Text) ELSE IF f \in {"blk", "expr", "d16"} THEN "" ELSE IF f = "fl" THEN R({"true", "false"}) ELSE IF f = "fp" THEN "true"
                         ELSE IF f \in {"ref", "refa"} THEN ToString(R(0..1000)) ELSE Num(f),
          b |-> IF f \in {"blk", "expr", "d16"} THEN Bytes(IF f = "d16" THEN 16 ELSE R({0, 1, 3})) ELSE <<>>]
RECURSIVE Ats(_, _)
Ats(s, n) == IF n = 0 THEN <<>> ELSE LET f == R(s) IN <<At(f)>> \o Ats(s \ {f}, n - 1)
SomeAts(x) == IF Mode = "all" THEN <<>> ELSE TLCEval(Ats(Forms, R(0..4)))

Init == dies = <<>> /\ open = <<>> /\ par = <<>> /\ ch = (Root :> <<>>) /\ done = FALSE
Add(tag, kids, sib, at) ==
    LET i == Len(dies) + 1 IN
    /\ dies' = Append(dies, [tag |-> tag, kids |-> kids, sib |-> sib, at |-> at, dep |-> Len(open)])
    /\ par' = Append(par, Parent)
    /\ ch' = [ch EXCEPT ![Parent] = Append(@, i)] @@ (i :> <<>>)
    /\ open' = IF kids THEN Append(open, i) ELSE open
    /\ UNCHANGED done
Unit == open = <<>> /\ Len(dies) < MaxDies /\ \E kids \in (IF Mode = "all" THEN BOOLEAN ELSE {R(1..6) > 1}) : \E at \in {SomeAts(0)} : Add("CompileUnit", kids, FALSE, at)
Entry == open # <<>> /\ Len(dies) < MaxDies /\
         \E tag \in (IF Mode = "all" THEN {"StructType"} ELSE {R(Tags)}) : \E kids \in (IF Mode = "all" THEN BOOLEAN ELSE {R(BOOLEAN)}) :
         \E sib \in (IF Mode = "all" THEN (IF kids THEN BOOLEAN ELSE {FALSE}) ELSE {R(BOOLEAN)}) : \E at \in {SomeAts(0)} : Add(tag, kids, sib, at)
End == open # <<>> /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED <<dies, par, ch, done>>
Finish == open = <<>> /\ dies # <<>> /\ done' = TRUE /\ UNCHANGED <<dies, open, par, ch>>
Next == IF done THEN FALSE
        ELSE IF Mode = "all" THEN Unit \/ Entry \/ End \/ Finish
        ELSE IF open = <<>> THEN IF Len(dies) >= MaxDies - 2 THEN Finish ELSE Unit
        ELSE \E r \in {R(1..5)} : IF r <= 2 \/ Len(dies) >= MaxDies THEN End ELSE Entry
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties *)
Inv == /\ Len(par) = Len(dies)
       (* every entry is the child of its parent, once; parents come first; only entries that may have children have them *)
       /\ \A i \in 1..Len(dies) : par[i] < i /\ Cardinality({q \in DOMAIN ch[par[i]] : ch[par[i]][q] = i}) = 1
       /\ \A p \in DOMAIN ch : \A q \in DOMAIN ch[p] : par[ch[p][q]] = p
       /\ \A i \in 1..Len(dies) : ch[i] # <<>> => dies[i].kids
       (* the depth in the file is the depth in the tree *)
       /\ \A i \in 1..Len(dies) : dies[i].dep = (IF par[i] = Root THEN 0 ELSE dies[par[i]].dep + 1)
       /\ \A i \in 1..Len(dies) : dies[i].tag = "CompileUnit" <=> par[i] = Root
Emit == done => CSVWrite("%1$s", <<ToJson([dies |-> dies, par |-> par, ch |-> [i \in 1..Len(dies) |-> ch[i]], top |-> ch[Root]])>>, EmitFile)
=============================================================================
