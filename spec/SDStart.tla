------------------------------ MODULE SDStart ------------------------------
(* Which runs are refused, and when protected runs stop.                    *)
(*                                                                          *)
(* A run is asked for with a set-up (spheres and dumbbells and their        *)
(* sizes), an input giving some values of some particles, an input form and *)
(* a time scheme.  It begins only if all of them exist, fit each other and  *)
(* leave nothing undetermined.  A protected run ends with the frame in      *)
(* which a dumbbell becomes too long.                                       *)
EXTENDS Integers, Sequences, FiniteSets

Forms == {"fts", "fte", "ufte", "ufteu", "duf"}
Schemes == {"euler", "ab2", "rk4"}
(* The form suits the particles                                             *)
Suits(c) == /\ c.form \in Forms
            /\ c.ns = 0 => c.form \in {"fts", "duf"}
            /\ c.ns > 0 => c.form # "duf"
(* Sizes (whole multiples of a unit) are in known ratios                    *)
Known(a, b) == \E k \in {1, 10, 100} : a = k*b \/ b = k*a
Ratios(c) == \A j, k \in DOMAIN c.sizes : Known(c.sizes[j], c.sizes[k])

(* What must be given: particles with prescribed velocities come first      *)
Has(c, f, k) == <<f, k>> \in c.given
Fixed(c) == IF c.form \in {"ufte", "ufteu"}
            THEN Cardinality({k \in 1..c.ns : Has(c, "U", k)}) ELSE 0
FixedD(c) == IF c.form \in {"ufteu", "duf"}
             THEN Cardinality({k \in 1..c.nd : Has(c, "Ub", k)}) ELSE 0
Needs(c) ==
    LET u == Fixed(c)
        v == FixedD(c)
        third == IF c.form = "fts" THEN "S" ELSE "E"
    IN {<<"U", k>> : k \in 1..u} \cup {<<"F", k>> : k \in (u+1)..c.ns}
       \cup {<<f, k>> : f \in {"T", third}, k \in 1..c.ns}
       \cup {<<f, k>> : f \in {"Ub", "Hb"}, k \in 1..v}
       \cup {<<f, k>> : f \in {"Fb", "Db"}, k \in (v+1)..c.nd}
Complete(c) == Needs(c) \subseteq c.given

Refused(c) == ~(c.setup /\ c.input /\ c.scheme \in Schemes
                /\ Suits(c) /\ Ratios(c) /\ Complete(c))

(* Dumbbells too long (their vectors are in thousandths)                    *)
Sq(x) == x*x
TooLong(x) == IF \E k \in 1..3 : x[k] > 5000 \/ x[k] < -5000 THEN TRUE
              ELSE Sq(x[1]) + Sq(x[2]) + Sq(x[3]) > Sq(5000)
(* path[f] are the vectors of all dumbbells after f - 1 steps; the first    *)
(* step after which one is too long                                         *)
Bursts(path) == {f \in 2..Len(path) : \E k \in DOMAIN path[f] : TooLong(path[f][k])}
FirstBurst(path) == CHOOSE f \in Bursts(path) : \A g \in Bursts(path) : f <= g
(* How many steps are made, and how many frames are saved                   *)
Steps(protect, path) == IF protect /\ Bursts(path) # {} THEN FirstBurst(path) - 1
                        ELSE Len(path) - 1
Saved(protect, path) ==
    LET s == Steps(protect, path) IN IF s = Len(path) - 1 THEN s + 1 ELSE s

(***************************************************************************)
(* Runs                                                                     *)
(***************************************************************************)
CONSTANTS Confs, Paths
VARIABLES conf, path, protect, phase, at, files
vars == <<conf, path, protect, phase, at, files>>
Init == /\ conf \in Confs /\ path \in Paths /\ protect \in BOOLEAN
        /\ phase = "asked" /\ at = 1 /\ files = 0
Refuse == /\ phase = "asked" /\ Refused(conf)
          /\ phase' = "refused" /\ UNCHANGED <<conf, path, protect, at, files>>
Begin == /\ phase = "asked" /\ ~Refused(conf)
         /\ phase' = "running" /\ UNCHANGED <<conf, path, protect, at, files>>
Step == /\ phase = "running" /\ at < Len(path)
        /\ at' = at + 1
        /\ phase' = IF protect /\ (\E k \in DOMAIN path[at+1] : TooLong(path[at+1][k]))
                    THEN "stopped" ELSE "running"
        /\ UNCHANGED <<conf, path, protect, files>>
Save == /\ phase = "stopped" \/ (phase = "running" /\ at = Len(path))
        /\ phase' = "saved" /\ files' = files + 1
        /\ UNCHANGED <<conf, path, protect, at>>
Next == Refuse \/ Begin \/ Step \/ Save
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoOutput == (phase = "refused" \/ Refused(conf)) => files = 0
OneOutput == phase = "saved" => files = 1 /\ at = Steps(protect, path) + 1
CarriesOn == (phase = "saved" /\ ~protect) => at = Len(path)
Ends == <>(phase \in {"refused", "saved"})
(* A complete input prescribes half of the unknowns: each sphere's motion   *)
(* and loads have 22 components, each dumbbell's 12                         *)
Weight(f) == IF f \in {"S", "E"} THEN 5 ELSE 3
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE
                                IN Weight(x[1]) + Sum(S \ {x})
Determined == ~Refused(conf) => Sum(Needs(conf)) = 11*conf.ns + 6*conf.nd
(* Whatever is needed cannot be left out                                    *)
Needed == ~Refused(conf) =>
    \A x \in Needs(conf) : x[1] \notin {"U", "Ub"} =>
        Refused([conf EXCEPT !.given = @ \ {x}])
=============================================================================
