------------------------------ MODULE MCReuse ------------------------------
EXTENDS SDReuse
MCCfgs == {c \in [n : 1..3, pos : 1..2, force : 0..1, start : 0..1, backup : {1, 2},
                  backups : BOOLEAN, inv : 1..2, scheme : {"euler", "ab2", "rk4"},
                  boom : {-1}, protect : {FALSE}] :
           c.start < c.n /\ (c.backups \/ c.backup = 1)}
(* Seen at least once: a run that could not be joined to what was before    *)
SomeSeam == ~(proc = "done" /\ trips > 0 /\ final.pos # <<>>
              /\ Since(base, LastRow(final.pos)).t
                   # Uninterrupted(cfg, Since(base, LastRow(final.pos)).f))
=============================================================================
