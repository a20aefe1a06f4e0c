------------------------------- MODULE GenRun -------------------------------
(* SDRun for the configurations listed in cfgs.ndjson.  Prints every way in  *)
(* which such a run can be killed (and finally completed); the harness      *)
(* replays them.                                                           *)
EXTENDS SDRun, Json
GenCfgs == LET s == ndJsonDeserialize("cfgs.ndjson") IN {s[i] : i \in 1..Len(s)}
Printed == proc = "done" => PrintT(<<"VOUT", cfg.id, plan>>)
=============================================================================
