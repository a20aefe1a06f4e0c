------------------------------- MODULE MCRun -------------------------------
(* Small sets of configurations for SDRun.                                  *)
EXTENDS SDRun
CONSTANTS MaxN, MaxPos, MaxForce, MaxStart, MaxBackup, MaxInv, Schemes, Booms

MCCfgs == { c \in
   [n : 1..MaxN, pos : 0..MaxPos, force : 0..MaxForce, start : 0..MaxStart,
    backup : 1..MaxBackup, backups : BOOLEAN, inv : 1..MaxInv,
    scheme : Schemes, boom : -1..(IF Booms THEN MaxN - 1 ELSE -1),
    protect : IF Booms THEN BOOLEAN ELSE {FALSE}] :
      /\ c.boom < c.n /\ (c.protect <=> c.boom >= 0)
      /\ c.start < c.n }
=============================================================================
