------------------------------- MODULE Suites ------------------------------
(* Programs that declare unit tests (include/metac/test.h) in several units, *)
(* among declarations with similar names, and what the runner generated for  *)
(* them (modules/metac-test-gen) has to do: run every declared test exactly  *)
(* once, nothing else, and fail exactly when a test fails.                   *)
EXTENDS Integers, Sequences, FiniteSets, Json, CSV, TLC
CONSTANTS EmitFile, Units, MaxDecls, Mode
VARIABLES decls,   \* in order: [u unit, k kind, n name, ok, c how many tests it stands for]
          ran,     \* what the runner has run, in the end: name -> how often
          done
vars == <<decls, ran, done>>
R(s) == RandomElement(s)
(* test: a test; like: a variable that only looks like one; extern: another declaration of a test's request, local: inside a function *)
Names == {"a", "b", "a_b", "test_a", "_a", "a__b", "a_", "gsym_a", "dflt_gsym_x", "test", "module", "ab", "A", "main_test", "x1"}
Likes == {"metac__tests_a", "metac__Test_a", "metac_test_a", "metac__test", "xmetac__test_a", "metac__dflt_test_a", "metac__gsym_test_a", "metac__testa", "metac__tes_t_a", "local", "member", "function", "type"}
Tests == SelectSeq(decls, LAMBDA d : d.k \in {"test", "bulk"})
RECURSIVE Failing(_)
Failing(s) == IF s = <<>> THEN 0 ELSE (IF Head(s).ok THEN 0 ELSE Head(s).c) + Failing(Tail(s))
NamesOf(s) == {s[i].n : i \in DOMAIN s}
Init == decls = <<>> /\ ran = <<>> /\ done = FALSE
Test(u, n, ok) == n \notin NamesOf(Tests) /\ decls' = Append(decls, [u |-> u, k |-> "test", n |-> n, ok |-> ok, c |-> 1]) /\ UNCHANGED <<ran, done>>
Like(u, n) == (\A i \in DOMAIN decls : ~(decls[i].k = "like" /\ decls[i].n = n)) /\ decls' = Append(decls, [u |-> u, k |-> "like", n |-> n, ok |-> TRUE, c |-> 0]) /\ UNCHANGED <<ran, done>>
Extern(u, n) == n \in NamesOf(Tests) /\ decls' = Append(decls, [u |-> u, k |-> "extern", n |-> n, ok |-> TRUE, c |-> 0]) /\ UNCHANGED <<ran, done>>
(* many tests at once: nothing may depend on their number, neither the running nor the status, which is one byte *)
Bulk(u, c, ok) == (\A i \in DOMAIN decls : decls[i].k # "bulk") /\ decls' = Append(decls, [u |-> u, k |-> "bulk", n |-> "bulk", ok |-> ok, c |-> c]) /\ UNCHANGED <<ran, done>>
(* the runner runs the tests in some order; only how often matters *)
Run == ran' = [n \in NamesOf(Tests) |-> LET i == CHOOSE i \in DOMAIN Tests : Tests[i].n = n IN Tests[i].c] /\ done' = TRUE /\ UNCHANGED decls
Next == IF done THEN FALSE
        ELSE IF Mode = "all"
             THEN \/ Run
                  \/ Len(decls) < MaxDecls /\ \E u \in 1..Units, n \in {"a", "a_b", "test"} : Test(u, n, TRUE) \/ Test(u, n, FALSE) \/ Extern(u, n)
             ELSE IF Mode = "bulk"
             THEN \/ Run
                  \/ Len(decls) < MaxDecls /\ \E c \in {255, 256, 257, 512}, ok \in BOOLEAN : Bulk(1, c, ok)
                  \/ Len(decls) < MaxDecls /\ \E ok \in BOOLEAN : Test(2, "a", ok)
             ELSE \E r \in {R(1..12)} : \E u \in {R(1..Units)} : \E n \in {R(Names)} : \E l \in {R(Likes)} : \E ok \in {R(1..8) # 1} :
                  LET known == n \in NamesOf(Tests) there == \E i \in DOMAIN decls : decls[i].k = "like" /\ decls[i].n = l IN
                  IF Len(decls) >= MaxDecls \/ (known /\ there) \/ (r = 12 /\ Len(decls) > 4) THEN Run
                  ELSE IF (there /\ ~known) \/ (r <= 6 /\ ~known) THEN Test(u, n, ok)
                  ELSE IF r <= 8 /\ known THEN Extern(u, n)
                  ELSE Like(u, l)
Spec == Init /\ [][Next]_vars
(* names stay unique, and what ran is what was declared *)
Inv == /\ \A i, j \in DOMAIN Tests : Tests[i].n = Tests[j].n => i = j
       /\ done => DOMAIN ran = NamesOf(Tests) /\ \A i \in DOMAIN Tests : ran[Tests[i].n] = Tests[i].c
Emit == done => CSVWrite("%1$s", <<ToJson([decls |-> decls, fails |-> Failing(Tests)])>>, EmitFile)
=============================================================================
