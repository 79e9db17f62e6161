------------------------------- MODULE Faults -------------------------------
(* What the environment may do to any operation that asks for memory, and    *)
(* what the operation may then answer.  An operation asks for memory several *)
(* times; the environment denies the Denied'th request (and, if From, every   *)
(* later one).  Whatever it was given before must be given back, unless the   *)
(* operation completes, in which case it keeps exactly its result.            *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json, CSV
CONSTANTS Requests,    \* how many requests the operation may make
          EmitFile
VARIABLES denied, from, asked, held, result, phase, needs
vars == <<denied, from, asked, held, result, phase, needs>>

Init == /\ denied \in 0..Requests /\ from \in BOOLEAN
        /\ asked = 0 /\ held = {} /\ result = {} /\ phase = "run"
        /\ needs \in [1..Requests -> {"must", "may"}]     \* what happens without it: nothing / a detour
IsDenied(i) == denied # 0 /\ (i = denied \/ (from /\ i > denied))
Ask == /\ phase = "run" /\ asked < Requests
       /\ asked' = asked + 1
       /\ IF IsDenied(asked + 1)
          THEN IF needs[asked + 1] = "must" THEN phase' = "undo" /\ UNCHANGED <<held, result>> ELSE UNCHANGED <<phase, held, result>>
          ELSE /\ held' = held \cup {asked + 1} /\ UNCHANGED phase
               /\ \/ result' = result \/ result' = result \cup {asked + 1}
       /\ UNCHANGED <<denied, from, needs>>
(* working memory goes as soon as it is not needed *)
Drop == /\ phase \in {"run", "undo"} /\ \E b \in held : held' = held \ {b} /\ b \notin (IF phase = "run" THEN result ELSE {}) 
        /\ UNCHANGED <<denied, from, asked, result, phase, needs>>
Finish == /\ phase = "run" /\ held = result /\ phase' = "done" /\ UNCHANGED <<denied, from, asked, held, result, needs>>
GiveUp == /\ phase = "undo" /\ held = {} /\ phase' = "refused" /\ result' = {} /\ UNCHANGED <<denied, from, asked, held, needs>>
Next == Ask \/ Drop \/ Finish \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Outcome == [hit |-> \E i \in 1..asked : IsDenied(i), out |-> phase, kept |-> Cardinality(held \ result)]
NothingKept == phase \in {"done", "refused"} => held = result
RefusedEmpty == phase = "refused" => held = {}
OnlyIfDenied == phase = "refused" => \E i \in 1..asked : IsDenied(i)
Ends == <>(phase \in {"done", "refused"})
Emit == phase \in {"done", "refused"} => CSVWrite("%1$s", <<ToJson(Outcome)>>, EmitFile)
=============================================================================
