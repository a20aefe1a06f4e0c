----------------------------- MODULE SDCompiled ----------------------------
(* Runs with the compiler (Numba) on and off.  Compiled code is kept on     *)
(* disk and used again by later processes; in between a user may change     *)
(* settings and tables.  Compiled or not, new or kept, the code answers as  *)
(* the settings and tables of the process say.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Facts,      \* what a user may change between two processes
          Paths,      \* parts of the code
          Frozen      \* facts which compiled code takes in as constants
Uses(p) == CASE p = "free" -> {"bead", "tables"}
             [] p = "box" -> {"bead", "reach", "tables"}
             [] p = "run" -> {"bead", "tables"}
None == [absent |-> 0]

VARIABLES world,      \* the value of every fact
          store,      \* per part of the code: the facts it was compiled with
          last        \* what the last process answered, and how
compiledVars == <<world, store, last>>

Worlds == [Facts -> {0, 1}]
CompiledInit == /\ world \in Worlds
                /\ store = [p \in Paths |-> None]
                /\ last = [mode |-> "none"]

(* What code of path p answers from, in a world w, kept code being k        *)
Interpreted(p, w) == [f \in Uses(p) |-> w[f]]
Kept(p, w, k) == [f \in Uses(p) |-> IF f \in Frozen THEN k[f] ELSE w[f]]
Answers(mode, p, w, st) ==
    IF mode = "interpreted" \/ st[p] = None THEN Interpreted(p, w)
    ELSE Kept(p, w, st[p])
AfterUse(mode, p, w, st) ==
    IF mode = "compiled" /\ st[p] = None THEN [st EXCEPT ![p] = w] ELSE st

Process(mode, p) ==
    /\ last' = [mode |-> mode, path |-> p, world |-> world,
                answer |-> Answers(mode, p, world, store)]
    /\ store' = AfterUse(mode, p, world, store)
    /\ UNCHANGED world
Change(f) == /\ world' = [world EXCEPT ![f] = 1 - @]
             /\ UNCHANGED <<store, last>>
Discard == /\ store' = [p \in Paths |-> None]
           /\ UNCHANGED <<world, last>>
CompiledNext == \/ \E m \in {"interpreted", "compiled"}, p \in Paths : Process(m, p)
                \/ \E f \in Facts : Change(f)
                \/ Discard
CompiledSpec == CompiledInit /\ [][CompiledNext]_compiledVars

AsInterpreted == last.mode # "none" => last.answer = Interpreted(last.path, last.world)
KeptIsOfSomeWorld == \A p \in Paths : store[p] = None \/ store[p] \in Worlds
=============================================================================
