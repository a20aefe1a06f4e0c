------------------------------- MODULE SDRun -------------------------------
(***************************************************************************)
(* The life of one simulation: frames are computed one after the other,    *)
(* rows are appended to the arrays to be saved, a backup of these arrays   *)
(* is written from time to time, the process may be killed at any moment   *)
(* and started again, a dumbbell may explode, and at the end the arrays    *)
(* are written to the output file and the backup is removed.               *)
(*                                                                         *)
(* What the particles do is abstracted to a tag: the configuration at      *)
(* frame k is the sequence of the k steps that led to it, each of which is *)
(* determined by the frame whose far field it used and by its kind         *)
(* (Euler, Adams-Bashforth, Runge-Kutta).  Two configurations are the same *)
(* exactly if their tags are.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs,          \* the set of run configurations, see CfgType
          MaxCrashes,    \* how often the process may be killed
          AllowDamage    \* may kills during a write leave damaged files?

VARIABLES cfg,      \* settings of the run
          proc,     \* "down", "up", "done"
          phase,    \* where in the frame the process is
          frame,    \* frame being computed
          from,     \* frame at which this process started
          conf,     \* tag of the current configuration
          far,      \* frame whose far field is stored, or -1
          err,      \* has a dumbbell exploded?
          mem,      \* arrays to be saved: [pos, force], sequences of rows
          temp,     \* backup on disk
          final,    \* output file on disk
          plan,     \* history: what killed each process
          exact     \* history: has every restart refreshed the far field?

vars == <<cfg, proc, phase, frame, from, conf, far, err, mem, temp, final,
          plan, exact>>

CfgType == [n      : Nat \ {0},  \* number of frames
            pos    : Nat,        \* save positions every .. frames, 0: never
            force  : Nat,        \* save forces every .. frames, 0: never
            start  : Nat,        \* save from this frame on
            backup : Nat \ {0},  \* write a backup every .. frames
            backups: BOOLEAN,    \* write backups at all
            inv    : Nat \ {0},  \* refresh the far field every .. frames
            scheme : {"euler", "ab2", "rk4"},
            boom   : Int,        \* frame whose step explodes, or -1
            protect: BOOLEAN]    \* explosion protection

NoFile  == [st |-> "none", pos |-> <<>>, force |-> <<>>]
BadFile == [st |-> "bad",  pos |-> <<>>, force |-> <<>>]
File(m) == [st |-> "ok", pos |-> m.pos, force |-> m.force]
Nothing == [pos |-> <<>>, force |-> <<>>]

IsSaveFrame(every, c, k) == every > 0 /\ k % every = 0 /\ k >= c.start
LastRow(s) == s[Len(s)]
Frames(s) == [i \in 1..Len(s) |-> s[i].f]

(* What a complete output file must hold. *)
Stop(c) == IF c.protect /\ c.boom >= 0 THEN c.boom + 1 ELSE c.n
UpTo(k) == [i \in 1..k |-> i - 1]
ExpectedPos(c) ==
    SelectSeq(UpTo(Stop(c)), LAMBDA k : IsSaveFrame(c.pos, c, k))
    \o IF Stop(c) = c.n /\ IsSaveFrame(c.pos, c, c.n - 1) THEN <<c.n>> ELSE <<>>
ExpectedForce(c) ==
    SelectSeq(UpTo(Stop(c)), LAMBDA k : IsSaveFrame(c.force, c, k))

(* The step taken at frame k by a process that started at frame s. *)
Kind(c, k, s) == IF c.scheme = "ab2" /\ k = s THEN "euler" ELSE c.scheme
Refreshes(c, k, s) == k % c.inv = 0 \/ k = s

(* The tag which frame k has when nothing interrupts the run. *)
Uninterrupted(c, k) ==
    [i \in 1..k |-> [src |-> c.inv*((i - 1) \div c.inv), kind |-> Kind(c, i - 1, 0)]]

Init ==
    /\ cfg \in Cfgs
    /\ proc = "down" /\ phase = "off"
    /\ frame = 0 /\ from = 0 /\ conf = <<>> /\ far = -1 /\ err = FALSE
    /\ mem = Nothing
    /\ temp = NoFile /\ final = NoFile
    /\ plan = <<>> /\ exact = TRUE

(* A process starts.  With an intact backup that holds a configuration it   *)
(* continues from the last one in there; otherwise from the beginning.      *)
Resumes == temp.st = "ok" /\ Len(temp.pos) > 0
Start ==
    /\ proc = "down"
    /\ proc' = "up" /\ phase' = "begin"
    /\ LET s == IF Resumes THEN LastRow(temp.pos).f ELSE 0 IN
       /\ from' = s /\ frame' = s
       /\ conf' = IF Resumes THEN LastRow(temp.pos).t ELSE <<>>
       /\ mem' = IF Resumes
                 THEN [pos |-> temp.pos,
                       force |-> SelectSeq(temp.force, LAMBDA r : r.f <= s)]
                 ELSE Nothing
       /\ exact' = (/\ exact
                    /\ s < cfg.n => (/\ s % cfg.inv = 0
                                     /\ (s > 0) => (cfg.scheme # "ab2")))
    /\ far' = -1 /\ err' = FALSE
    /\ UNCHANGED <<cfg, temp, final, plan>>

Compute ==
    /\ proc = "up" /\ phase = "begin" /\ frame < cfg.n /\ ~err
    /\ far' = IF Refreshes(cfg, frame, from) THEN frame ELSE far
    /\ err' = (cfg.protect /\ frame = cfg.boom)
    /\ phase' = "computed"
    /\ UNCHANGED <<cfg, proc, frame, from, conf, mem, temp, final, plan, exact>>

Step == [src |-> far, kind |-> Kind(cfg, frame, from)]
Next_ == Append(conf, Step)

AddRow(s, r) == IF Len(s) > 0 /\ LastRow(s).f >= r.f THEN s ELSE Append(s, r)

SavePositions ==
    /\ proc = "up" /\ phase = "computed"
    /\ phase' = "savedpos"
    /\ LET s1 == AddRow(mem.pos, [f |-> frame, t |-> conf])
           s2 == IF frame = cfg.n - 1
                 THEN AddRow(s1, [f |-> cfg.n, t |-> Next_]) ELSE s1
       IN mem' = IF IsSaveFrame(cfg.pos, cfg, frame)
                 THEN [mem EXCEPT !.pos = s2] ELSE mem
    /\ UNCHANGED <<cfg, proc, frame, from, conf, far, err, temp, final, plan, exact>>

SaveForces ==
    /\ proc = "up" /\ phase = "savedpos"
    /\ phase' = "savedforce"
    /\ mem' = IF IsSaveFrame(cfg.force, cfg, frame)
              THEN [mem EXCEPT !.force =
                      AddRow(@, [f |-> frame, t |-> Next_])]
              ELSE mem
    /\ UNCHANGED <<cfg, proc, frame, from, conf, far, err, temp, final, plan, exact>>

BackupDue == /\ cfg.backups /\ cfg.pos > 0 /\ cfg.force > 0
             /\ frame % cfg.backup = 0 /\ frame >= cfg.start

(* A backup holds what has been saved so far.  A run that is at its last    *)
(* frame backs up its final configuration as well: started again from      *)
(* there it has nothing left to compute.                                   *)
BeginBackup ==
    /\ proc = "up" /\ phase = "savedforce" /\ BackupDue
    /\ phase' = "writing"
    /\ temp' = IF AllowDamage THEN BadFile ELSE temp
    /\ UNCHANGED <<cfg, proc, frame, from, conf, far, err, mem, final, plan, exact>>

EndBackup ==
    /\ proc = "up" /\ phase = "writing"
    /\ phase' = "advance"
    /\ temp' = File(mem)
    /\ UNCHANGED <<cfg, proc, frame, from, conf, far, err, mem, final, plan, exact>>

NoBackup ==
    /\ proc = "up" /\ phase = "savedforce" /\ ~BackupDue
    /\ phase' = "advance"
    /\ UNCHANGED <<cfg, proc, frame, from, conf, far, err, mem, temp, final, plan, exact>>

Advance ==
    /\ proc = "up" /\ phase = "advance"
    /\ phase' = "begin" /\ frame' = frame + 1 /\ conf' = Next_
    /\ UNCHANGED <<cfg, proc, from, far, err, mem, temp, final, plan, exact>>

Saves == cfg.pos > 0 \/ cfg.force > 0

BeginFinal ==
    /\ proc = "up" /\ phase = "begin" /\ (frame = cfg.n \/ err) /\ Saves
    /\ phase' = "finalwriting"
    /\ final' = IF AllowDamage THEN BadFile ELSE final
    /\ UNCHANGED <<cfg, proc, frame, from, conf, far, err, mem, temp, plan, exact>>

EndFinal ==
    /\ proc = "up" /\ phase = "finalwriting"
    /\ phase' = "remove"
    /\ final' = File(mem)
    /\ UNCHANGED <<cfg, proc, frame, from, conf, far, err, mem, temp, plan, exact>>

RemoveBackup ==
    /\ proc = "up" /\ phase = "remove"
    /\ phase' = "finish"
    /\ temp' = NoFile
    /\ UNCHANGED <<cfg, proc, frame, from, conf, far, err, mem, final, plan, exact>>

Finish ==
    /\ proc = "up"
    /\ phase = "finish" \/ (phase = "begin" /\ (frame = cfg.n \/ err) /\ ~Saves)
    /\ proc' = "done" /\ phase' = "off"
    /\ UNCHANGED <<cfg, frame, from, conf, far, err, mem, temp, final, plan, exact>>

Crash ==
    /\ proc = "up" /\ Len(plan) < MaxCrashes
    /\ proc' = "down" /\ phase' = "off"
    /\ plan' = Append(plan, <<phase, frame>>)
    /\ frame' = 0 /\ from' = 0 /\ conf' = <<>> /\ far' = -1 /\ err' = FALSE
    /\ mem' = Nothing
    /\ UNCHANGED <<cfg, temp, final, exact>>

Progress == \/ Start \/ Compute \/ SavePositions \/ SaveForces \/ BeginBackup
            \/ EndBackup \/ NoBackup \/ Advance \/ BeginFinal \/ EndFinal
            \/ RemoveBackup \/ Finish

Next == Progress \/ Crash

Spec == Init /\ [][Next]_vars /\ WF_vars(Progress)

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Increasing(s) == \A i \in 1..Len(s) - 1 : s[i].f < s[i+1].f

TypeOK ==
    /\ cfg \in CfgType /\ proc \in {"down", "up", "done"}
    /\ frame \in 0..cfg.n /\ from \in 0..cfg.n
    /\ temp.st \in {"none", "bad", "ok"} /\ final.st \in {"none", "bad", "ok"}

(* C16: a completed run has saved exactly the frames asked for ... *)
SavedFrames ==
    proc = "done" /\ Saves =>
       /\ final.st = "ok"
       /\ Frames(final.pos) = ExpectedPos(cfg)
       /\ Frames(final.force) = ExpectedForce(cfg)

(* ... and whatever is saved, in memory or on disk, is in order, unique,   *)
(* and each row is the row of its frame.                                   *)
Orderly(m) == /\ Increasing(m.pos) /\ Increasing(m.force)
              /\ \A i \in 1..Len(m.pos) : Len(m.pos[i].t) = m.pos[i].f
              /\ \A i \in 1..Len(m.force) : Len(m.force[i].t) = m.force[i].f + 1
RowsOrderly == Orderly(mem) /\ Orderly(temp) /\ Orderly(final)

(* Positions and forces saved so far never have gaps. *)
NoGaps == proc = "up" /\ phase = "begin" /\ ~err =>
    /\ SelectSeq(Frames(mem.pos), LAMBDA k : k < frame)
         = SelectSeq(UpTo(frame), LAMBDA k : IsSaveFrame(cfg.pos, cfg, k))
    /\ SelectSeq(Frames(mem.force), LAMBDA k : k < frame)
         = SelectSeq(UpTo(frame), LAMBDA k : IsSaveFrame(cfg.force, cfg, k))

(* C17: with single-step schemes that refresh the far field when they      *)
(* restart, the output is that of an uninterrupted run.                    *)
AsIfUninterrupted ==
    proc = "done" /\ Saves /\ exact =>
       /\ \A i \in 1..Len(final.pos) :
             final.pos[i].t = Uninterrupted(cfg, final.pos[i].f)
       /\ \A i \in 1..Len(final.force) :
             final.force[i].t = Uninterrupted(cfg, final.force[i].f + 1)

BackupGone == proc = "done" /\ Saves => temp.st = "none"

(* C15: the far field in use was made at the latest refresh frame. *)
RefreshOnSchedule ==
    proc = "up" /\ phase \in {"computed", "savedpos", "savedforce", "writing"} =>
       far = LET r == {k \in from..frame : Refreshes(cfg, k, from)} IN
             CHOOSE k \in r : \A j \in r : j <= k

(* C18: nothing is computed after an explosion. *)
StopsAfterExplosion ==
    cfg.protect /\ cfg.boom >= 0 => frame <= cfg.boom + 1

(* The run gets there in the end however often it is killed. *)
EventuallyDone == <>(proc = "done")

(* The output file, once whole, stays whole unless a restarted process is  *)
(* about to write it again.                                                *)
FinalStays == [][final.st = "ok" => (final'.st = "ok" \/ phase' = "finalwriting")]_vars

Shown == proc = "done" => PrintT(<<"VOUT", cfg, plan>>)
=============================================================================
