------------------------------ MODULE Modules ------------------------------
(* Search of modules: directories in order, each with something, or nothing, *)
(* under a module's name, and under the name of a library it includes.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, CSV, TLC
CONSTANTS EmitFile, Dirs,      \* number of directories
          States,              \* what a directory may have under the module's name
          LibStates,           \* and under the library's
          Lib                  \* the module includes the library
(* module: none, nospec (directory without specification), text (not YAML), odd (kind unknown), g, h (known kinds), gf (known, cannot be loaded) *)
(* library: none, nospec, odd, notpl (no templates), badtpl (templates that do not parse), good *)
VARIABLES mods, libs, step
vars == <<mods, libs, step>>
Known(s) == s \in {"g", "h", "gf"}
Infos == SelectSeq([i \in 1..Dirs |-> i], LAMBDA i : Known(mods[i]))
Loads == SelectSeq(Infos, LAMBDA i : mods[i] # "gf")
Instance == IF Loads = <<>> THEN 0 ELSE Loads[1]
LibInfos == SelectSeq([i \in 1..Dirs |-> i], LAMBDA i : libs[i] \in {"notpl", "badtpl", "good"})
LibFound == LET g == SelectSeq(LibInfos, LAMBDA i : libs[i] = "good") IN IF g = <<>> THEN 0 ELSE g[1]
(* what running prints: the directories of module and library, or an error *)
Runs == IF Instance = 0 THEN <<0, 0>> ELSE IF ~Lib THEN <<Instance, 0>> ELSE IF LibFound = 0 THEN <<0, 0>> ELSE <<Instance, LibFound>>

Init == mods = [i \in 1..Dirs |-> "none"] /\ libs = [i \in 1..Dirs |-> "none"] /\ step = 0
(* directories are filled one after the other *)
Next == step < Dirs /\ step' = step + 1 /\ \E m \in States, l \in LibStates : mods' = [mods EXCEPT ![step + 1] = m] /\ libs' = [libs EXCEPT ![step + 1] = l]
Spec == Init /\ [][Next]_vars
(* a later directory never changes what an earlier one decides *)
FirstDecides == [][Instance > 0 /\ Instance <= step => Instance' = Instance]_vars
FirstUsable == /\ Instance > 0 => Known(mods[Instance]) /\ \A j \in 1..(Instance - 1) : ~Known(mods[j]) \/ mods[j] = "gf"
               /\ Instance = 0 => \A j \in 1..Dirs : mods[j] \notin {"g", "h"}
               /\ LibFound > 0 => \A j \in 1..(LibFound - 1) : libs[j] # "good"
Emit == step = Dirs => CSVWrite("%1$s", <<ToJson([mods |-> mods, libs |-> libs, infos |-> Infos, inst |-> Instance, runs |-> Runs])>>, EmitFile)
=============================================================================
