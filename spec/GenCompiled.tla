----------------------------- MODULE GenCompiled ---------------------------
(* Prints the histories of processes which would tell apart code that       *)
(* freezes a fact from code that does not: for every fact one that changes  *)
(* between a compiling and a later process.                                 *)
EXTENDS MCCompiled, Json
CONSTANTS MaxLength
VARIABLES path, past
genVars == <<compiledVars, path, past>>
GenInit == CompiledInit /\ path \in Paths /\ past = <<>>
Step(m) == /\ Process(m, path)
           /\ past' = Append(past, [mode |-> m, world |-> world])
Turn == \E S \in SUBSET Uses(path) :
          /\ world' = [f \in Facts |-> IF f \in S THEN 1 - world[f] ELSE world[f]]
          /\ UNCHANGED <<store, last>>
(* A process, and then a change before the next                             *)
GenNext == /\ Len(past) < MaxLength
           /\ \/ Step("compiled") \/ (past # <<>> /\ Step("interpreted"))
           /\ UNCHANGED path
GenTurn == /\ past # <<>> /\ past[Len(past)].world = world /\ Len(past) < MaxLength
           /\ Turn /\ UNCHANGED <<path, past>>
GenSpec == GenInit /\ [][GenNext \/ GenTurn]_genVars
(* Facts which a history would show to be frozen                            *)
Shows(h) == {f \in Uses(path) : \E k \in 2..Len(h) :
                 h[k].mode = "compiled" /\ h[k].world[f] # h[1].world[f]}
Told == (Len(past) = MaxLength /\ past[1].mode = "compiled" /\ Shows(past) # {}) =>
            PrintT("VCH " \o ToJson([path |-> path, past |-> past, shows |-> Shows(past)]))
=============================================================================
