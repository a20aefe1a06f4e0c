------------------------------ MODULE SDReuse ------------------------------
(* Runs made from the frames of earlier runs: a saved frame is read back as *)
(* a set-up, and what follows is a run like any other (SDRun) whose         *)
(* particles start where the earlier ones were.                             *)
EXTENDS SDRun

VARIABLES base,     \* frame and tag, since the very beginning, of the set-up
          trips     \* how many runs there have been before this one
reuseVars == <<vars, base, trips>>

(***************************************************************************)
(* Reading back                                                             *)
(***************************************************************************)
(* A saved frame: the centres of spheres and then of dumbbells, and the     *)
(* dumbbell vectors.  There are as many dumbbells as vectors.  A set-up:    *)
(* equal sizes for all spheres and for all dumbbells, and fresh markers.    *)
Add(x, y) == [k \in 1..3 |-> x[k] + y[k]]
ReadBack(centres, deltax, size, beadsize) ==
    LET nd == Len(deltax)
        ns == Len(centres) - nd
    IN [ss |-> [i \in 1..ns |-> size],
        sp |-> [i \in 1..ns |-> centres[i]],
        sr |-> [i \in 1..ns |-> <<Add(centres[i], <<size, 0, 0>>),
                                  Add(centres[i], <<0, 0, size>>)>>],
        ds |-> [i \in 1..nd |-> beadsize],
        dp |-> [i \in 1..nd |-> centres[ns + i]],
        dd |-> deltax]

(***************************************************************************)
(* Going on from there                                                      *)
(***************************************************************************)
CONSTANTS MaxTrips
ReuseInit == Init /\ base = [f |-> 0, t |-> <<>>] /\ trips = 0
(* The steps of a later run, counted from the very beginning.  Its far      *)
(* fields are refreshed by its own count of frames.                         *)
Shift(t, b) == [i \in 1..Len(t) |-> [t[i] EXCEPT !.src = @ + b]]
Since(b, r) == [f |-> b.f + r.f, t |-> b.t \o Shift(r.t, b.f)]
(* Only the intervals may change from run to run                            *)
Alike(c, d) == c.scheme = d.scheme /\ c.inv = d.inv
Reuse ==
    /\ proc = "done" /\ final.st = "ok" /\ trips < MaxTrips
    /\ \E i \in 1..Len(final.pos) : base' = Since(base, final.pos[i])
    /\ cfg' \in {c \in Cfgs : Alike(c, cfg)}
    /\ trips' = trips + 1
    /\ proc' = "down" /\ phase' = "off" /\ frame' = 0 /\ from' = 0
    /\ conf' = <<>> /\ far' = -1 /\ err' = FALSE /\ mem' = Nothing
    /\ temp' = NoFile /\ final' = NoFile /\ plan' = <<>> /\ exact' = TRUE
ReuseNext == (Next /\ UNCHANGED <<base, trips>>) \/ Reuse
ReuseSpec == ReuseInit /\ [][ReuseNext]_reuseVars

(* The frame, since the beginning, of the r-th row of a run made from b     *)
RowFrame(b, c, r) == b + ExpectedPos(c)[r]
(* Runs which go on from a frame where the far field was due for a refresh, *)
(* with a scheme that needs no past, are parts of one long run.             *)
Seamless(b, c) == c.scheme # "ab2" /\ b % c.inv = 0
PartsOfOneRun ==
    (proc = "done" /\ Saves /\ exact /\ Seamless(base.f, cfg)
       /\ base.t = Uninterrupted(cfg, base.f)) =>
    \A i \in 1..Len(final.pos) :
        /\ Since(base, final.pos[i]).t = Uninterrupted(cfg, base.f + final.pos[i].f)
        /\ Since(base, final.pos[i]).f = RowFrame(base.f, cfg, i)
=============================================================================
