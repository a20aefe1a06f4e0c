------------------------------ MODULE GenReuse -----------------------------
(* Prints, for every way to set up a run, the rows which a later run can be *)
(* made from and be part of one long run.                                   *)
EXTENDS MCReuse, Json
Offered == (proc = "done" /\ final.st = "ok") =>
    PrintT("VCH " \o ToJson([c |-> cfg, rows |->
        {i \in 1..Len(final.pos) : Seamless(final.pos[i].f, cfg)}]))
Longer == {c \in [n : 1..5, pos : 1..3, force : 0..1, start : 0..2, backup : {1},
                  backups : {FALSE}, inv : 1..3, scheme : {"euler", "rk4"},
                  boom : {-1}, protect : {FALSE}] :
           c.start < c.n /\ (c.force = 0 => c.n % 2 = 0)}
=============================================================================
