------------------------------- MODULE SDCli -------------------------------
(* How the command line decides a run, and the name of its output.          *)
(*                                                                          *)
(* Arguments, in order: set-up, input, timestep, frames, form, wall force.  *)
(* Each is a record [text, kind, value]: what was typed, what it can be     *)
(* read as ("int", "real" or "word") and its value.  Timesteps are records  *)
(* [whole, part]: the digits before and after the point.                    *)
EXTENDS Integers, Sequences, TLC

Names == <<"setup", "input", "dt", "frames", "form", "wall">>
Readable(k, a) == CASE k \in {1, 2, 4} -> a.kind = "int"
                    [] k = 3 -> a.kind \in {"int", "real"}
                    [] OTHER -> TRUE
Valid(args) == \A k \in DOMAIN args : k <= 6 => Readable(k, args[k])
Yes == {"True", "true", "t", "T", "1"}
Read(k, a) == CASE k = 3 -> (IF a.kind = "int" THEN [whole |-> a.text, part |-> "0"]
                             ELSE a.value)
                [] k = 5 -> a.text
                [] k = 6 -> a.text \in Yes
                [] OTHER -> a.value
Place(f) == CHOOSE k \in 1..6 : Names[k] = f
(* What the run uses                                                        *)
Effective(args, settings) ==
    [f \in DOMAIN settings |-> IF Place(f) <= Len(args) THEN Read(Place(f), args[Place(f)])
                               ELSE settings[f]]
(* The output's name, after its time of day                                 *)
Dash(s) == IF s = "" THEN "" ELSE "-" \o s
FileName(c, every, setupdesc, inputdesc, typed) ==
    "-s" \o ToString(c.setup) \o "-i" \o ToString(c.input)
    \o "-" \o ToString(c.frames) \o "fr-t" \o c.dt.whole \o "p" \o c.dt.part
    \o "-M" \o ToString(every)
    \o Dash(setupdesc) \o Dash(inputdesc) \o Dash(typed)

(***************************************************************************)
(* Typing a command line word by word                                       *)
(***************************************************************************)
CONSTANTS Words(_), Defaults
VARIABLES args, run
vars == <<args, run>>
Init == args = <<>> /\ run = Defaults
Type == /\ Len(args) < 6
        /\ Valid(args)
        /\ \E w \in Words(Len(args) + 1) : args' = Append(args, w)
        /\ run' = IF Valid(args') THEN Effective(args', Defaults) ELSE [bad |-> TRUE]
Spec == Init /\ [][Type]_vars
(* Each word decides one thing; later ones stay as they were                *)
InOrder == Valid(args) => \A k \in 1..6 :
    IF k > Len(args) THEN run[Names[k]] = Defaults[Names[k]]
    ELSE run[Names[k]] = Read(k, args[k])
OneAtATime == [][(Valid(args')) => \A k \in 1..6 :
    k # Len(args') => run'[Names[k]] = run[Names[k]]]_vars
=============================================================================
