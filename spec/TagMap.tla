------------------------------- MODULE TagMap -------------------------------
(* Annotation maps.  A map is a sequence of categories tried in order; a     *)
(* category either holds registrations of its own or refers to another map.  *)
(* Tags are small numbers; those in Owned carry data which the map releases.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV
CONSTANTS Cfgs,        \* map number -> [cats: seq of [mask, ext], def: tag or 0]
          Objs, Tags, Owned, MaxRegs, Faults, EmitFile

(* the program's entities: kind and the entity its type chain ends in (0: nothing, itself for types) *)
Kind == <<"var", "var", "mem", "mem", "par", "type", "type", "type", "par", "var">>
Fin  == <<6,     6,     6,     7,     7,     6,      7,      6,      9,     0>>

VARIABLES live, reg, last
vars == <<live, reg, last>>
M == DOMAIN Cfgs
Cats(m) == Cfgs[m].cats
Slots == {<<m, c, o>> : m \in M, c \in 1..3, o \in 1..10} 
Regs(m) == {x \in DOMAIN reg : x[1] = m}
Has(m, c, o) == <<m, c, o>> \in DOMAIN reg

(* ------------------------------- lookup --------------------------------- *)
RECURSIVE Look(_, _), LookFrom(_, _, _)
LookFrom(m, c, o) ==
    IF c > Len(Cats(m)) THEN Cfgs[m].def
    ELSE LET k == Cats(m)[c] IN
         IF Kind[o] \notin k.mask THEN LookFrom(m, c + 1, o)
         ELSE IF k.ext # 0 THEN (LET r == Look(k.ext, o) IN IF r # 0 THEN r ELSE LookFrom(m, c + 1, o))
         ELSE IF Has(m, c, o) THEN reg[<<m, c, o>>]
         ELSE IF "fin" \in k.mask /\ Fin[o] # 0 /\ Has(m, c, Fin[o]) THEN reg[<<m, c, Fin[o]>>]
         ELSE LookFrom(m, c + 1, o)
Look(m, o) == LookFrom(m, 1, o)

(* ------------------------------- actions -------------------------------- *)
RECURSIVE Count(_, _)
Count(S, t) == Cardinality({x \in S : reg[x] = t})
(* what the deletion of the registrations S (and of the default) releases: tag -> how often *)
Released(S, d) == [t \in Tags |-> IF t \in Owned THEN Count(S, t) + (IF d = t THEN 1 ELSE 0) ELSE 0]
NoRel == [t \in Tags |-> 0]
Out(op, m, c, o, x, t, f, res, rel) == last' = [op |-> op, m |-> m, c |-> c, o |-> o, x |-> x, t |-> t, fault |-> f, res |-> res, rel |-> rel]

Init == live = {} /\ reg = <<>> /\ last = [op |-> "init"]
New(m, f) ==
    /\ m \notin live
    /\ \A c \in 1..Len(Cats(m)) : Cats(m)[c].ext # 0 => Cats(m)[c].ext \in live
    /\ \/ f = 0 /\ live' = live \cup {m} /\ Out("new", m, 0, 0, 0, 0, f, "ok", NoRel)
       \/ f # 0 /\ live' = live /\ Out("new", m, 0, 0, 0, 0, f, "err", NoRel)
       \/ f # 0 /\ live' = live \cup {m} /\ Out("new", m, 0, 0, 0, 0, f, "ok", NoRel)
    /\ UNCHANGED reg
Delete(m) ==
    /\ m \in live
    /\ \A n \in live : \A c \in 1..Len(Cats(n)) : Cats(n)[c].ext # m
    /\ live' = live \ {m}
    /\ reg' = [x \in DOMAIN reg \ Regs(m) |-> reg[x]]
    /\ Out("del", m, 0, 0, 0, 0, 0, "ok", Released(Regs(m), Cfgs[m].def))
(* x = <<override, op>>; op 1 registers the entity, 2 what its type ends in, others nothing *)
Set(m, c, o, ov, op, t, f) ==
    /\ m \in live
    /\ LET x == IF op = 2 THEN Fin[o] ELSE o
           s == <<m, c, x>>
           keep(res) == UNCHANGED <<live, reg>> /\ Out("set", m, c, o, <<ov, op>>, t, f, res, NoRel)
       IN IF c \notin 1..Len(Cats(m)) THEN keep("inval")
          ELSE IF Cats(m)[c].ext # 0 THEN keep("inval")
          ELSE IF op \notin {1, 2} THEN keep("ok")
          ELSE IF x = 0 THEN keep("err")
          ELSE IF s \in DOMAIN reg /\ ov = 0 THEN keep("already")
          ELSE \/ /\ s \in DOMAIN reg \/ Cardinality(DOMAIN reg) < MaxRegs
                  /\ reg' = [y \in DOMAIN reg \cup {s} |-> IF y = s THEN t ELSE reg[y]]
                  /\ UNCHANGED live
                  /\ Out("set", m, c, o, <<ov, op>>, t, f, "ok", Released(IF s \in DOMAIN reg THEN {s} ELSE {}, 0))
               \/ /\ f # 0
                  /\ s \in DOMAIN reg \/ Cardinality(DOMAIN reg) < MaxRegs
                  /\ keep("err")
Get(m, o) ==
    /\ m \in live
    /\ UNCHANGED <<live, reg>>
    /\ Out("get", m, 0, o, 0, 0, 0, Look(m, o), NoRel)

Next == \/ \E m \in M, f \in Faults : New(m, f)
        \/ \E m \in M : Delete(m)
        \/ \E m \in M, c \in 0..4, o \in Objs, ov \in {0, 1}, op \in {1, 2}, t \in Tags, f \in Faults :
             (f = 0 \/ (ov = 1 /\ op = 1)) /\ Set(m, c, o, ov, op, t, f)
        \/ \E m \in M, c \in 1..2, o \in Objs : Set(m, c, o, 1, 3, 1, 0)
        \/ \E m \in M, o \in Objs : Get(m, o)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
(* the answer is a registration for the object (or what its type ends in) in some category, or a default *)
RECURSIVE Reach(_)
Reach(m) == {m} \cup UNION {Reach(Cats(m)[c].ext) : c \in {i \in 1..Len(Cats(m)) : Cats(m)[i].ext # 0}}
Sourced == \A m \in live, o \in Objs : LET r == Look(m, o) IN
    r = 0 \/ (\E n \in Reach(m) : Cfgs[n].def = r) \/ (\E y \in DOMAIN reg : reg[y] = r /\ y[1] \in Reach(m) /\ y[3] \in {o, Fin[o]})
(* the first category that has the object itself wins, unless an earlier one answers *)
FirstWins == \A m \in live, o \in Objs :
    LET own == {c \in 1..Len(Cats(m)) : Has(m, c, o) /\ Kind[o] \in Cats(m)[c].mask}
    IN own # {} => LET c == CHOOSE i \in own : \A j \in own : i <= j IN
         (\A i \in 1..(c - 1) : Kind[o] \notin Cats(m)[i].mask) => Look(m, o) = reg[<<m, c, o>>]
(* refusals and lookups change nothing *)
Unchanged == [][last'.op = "get" \/ (last'.op = "set" /\ last'.res # "ok") => reg' = reg /\ live' = live]_vars
(* data is released exactly when it leaves the map *)
InMaps(rg, lv, t) == Cardinality({x \in DOMAIN rg : rg[x] = t}) + Cardinality({m \in lv : Cfgs[m].def = t})
Conserved == [][last'.op \in {"new", "set", "del"} =>
                  \A t \in Owned : InMaps(reg', live', t) = InMaps(reg, live, t) - last'.rel[t]
                      + (IF last'.res = "ok" /\ ((last'.op = "set" /\ last'.t = t /\ last'.x[2] \in {1, 2}) \/ (last'.op = "new" /\ Cfgs[last'.m].def = t)) THEN 1 ELSE 0)]_vars

View == <<live, reg>>
Enc(lv, rg) == [l |-> lv, r |-> {<<x, rg[x]>> : x \in DOMAIN rg}]
EmitOn == CSVWrite("%1$s", <<ToJson([s |-> Enc(live, reg), a |-> last', t |-> Enc(live', reg')])>>, EmitFile)
=============================================================================
