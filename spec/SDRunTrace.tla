----------------------------- MODULE SDRunTrace -----------------------------
(***************************************************************************)
(* Is a sequence of events recorded from real runs a behaviour of SDRun?   *)
(* One trace holds many scenarios, each beginning with a "config" event.   *)
(* Observed are: the frame at which a process starts, every computed frame *)
(* together with the backup on disk at that moment, and the files on disk  *)
(* when a process is killed or completes.  The steps in between (saving    *)
(* rows, writing files, advancing) are SDRun's own and not observed.       *)
(***************************************************************************)
EXTENDS SDRun, Json
VARIABLE i

Trace == ndJsonDeserialize("trace.ndjson")
ev == Trace[i]
IsEvent(e) == i <= Len(Trace) /\ ev.e = e /\ i' = i + 1

CfgOf(e) == [n |-> e.n, pos |-> e.pos, force |-> e.force, start |-> e.start,
             backup |-> e.backup, backups |-> e.backups, inv |-> e.inv,
             scheme |-> e.scheme, boom |-> e.boom, protect |-> e.protect]

(* A file as it was found: its state and the frames of its rows.  Where     *)
(* rows of forces cannot be told apart, only their number was logged.      *)
Matches(file, o) ==
    /\ file.st = o.st
    /\ o.st = "ok" =>
         /\ Frames(file.pos) = o.pos
         /\ IF o.forceknown THEN Frames(file.force) = o.force
            ELSE Len(file.force) = Len(o.force)

EvConfig ==
    /\ IsEvent("config")
    /\ proc = "done" \/ i = 1
    /\ cfg' = CfgOf(ev)
    /\ proc' = "down" /\ phase' = "off"
    /\ frame' = 0 /\ from' = 0 /\ conf' = <<>> /\ far' = -1 /\ err' = FALSE
    /\ mem' = Nothing /\ temp' = NoFile /\ final' = NoFile
    /\ plan' = <<>> /\ exact' = TRUE

EvStart == IsEvent("start") /\ Start /\ from' = ev.from
EvCompute == IsEvent("compute") /\ Compute /\ frame = ev.k /\ Matches(temp, ev.temp)
EvCrash == /\ IsEvent("crash") /\ Crash
           /\ Matches(temp, ev.temp) /\ Matches(final, ev.final)
EvDone == /\ IsEvent("done") /\ proc = "done" /\ ev.foreign = "untouched"
          /\ Matches(temp, ev.temp) /\ Matches(final, ev.final)
          /\ UNCHANGED vars

Silent == /\ \/ SavePositions \/ SaveForces \/ BeginBackup \/ EndBackup
             \/ NoBackup \/ Advance \/ BeginFinal \/ EndFinal \/ RemoveBackup
             \/ Finish
          /\ UNCHANGED i

TraceInit ==
    /\ i = 1 /\ cfg = CfgOf(Trace[1])
    /\ proc = "down" /\ phase = "off"
    /\ frame = 0 /\ from = 0 /\ conf = <<>> /\ far = -1 /\ err = FALSE
    /\ mem = Nothing /\ temp = NoFile /\ final = NoFile
    /\ plan = <<>> /\ exact = TRUE
    /\ TLCSet(7, 0)

TraceNext == EvConfig \/ EvStart \/ EvCompute \/ EvCrash \/ EvDone \/ Silent

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, i>>

View == <<cfg, proc, phase, frame, from, conf, far, err, mem, temp, final, i>>

Reached == TLCSet(7, IF i > TLCGet(7) THEN i ELSE TLCGet(7))

TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE /\ PrintT(<<"VOUT", TLCGet(7), Trace[TLCGet(7)].e>>)
         /\ FALSE
=============================================================================
