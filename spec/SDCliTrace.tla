----------------------------- MODULE SDCliTrace ----------------------------
(* Runs of the real script with a command line: what its set-up and input   *)
(* functions were asked for, what it wrote, and how far it went.            *)
EXTENDS SDCli, Json

VARIABLES i
Trace == ndJsonDeserialize("trace.ndjson")
Equal(x, y, t) == x - y <= t /\ y - x <= t
Verdict(e) ==
    IF ~Valid(e.args)
    THEN IF e.ended # "error" THEN "unreadable arguments are refused"
         ELSE IF e.files # <<>> THEN "refused runs write nothing" ELSE ""
    ELSE LET c == Effective(e.args, e.settings) IN
    IF e.ended # "done" THEN "the run is made"
    ELSE IF e.setups # <<c.setup>> THEN "set-up number"
    ELSE IF e.inputs # <<c.input>> THEN "input number"
    ELSE IF e.forms # <<c.form>> THEN "input form"
    ELSE IF e.dts # <<c.dt>> THEN "timestep"
    ELSE IF e.moved # c.frames \/ e.rows # c.frames + 1 THEN "number of frames"
    ELSE IF ~Equal(e.step, e.shift, e.tol) THEN "length of a step"
    ELSE IF e.wall # c.wall THEN "wall force option"
    ELSE IF Len(e.files) # 1 THEN "one output file"
    ELSE IF ~e.stamped \/ e.files[1] # FileName(c, e.every, e.setupdesc, e.inputdesc, e.typed)
    THEN "name of the output file" ELSE ""

TraceInit == i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "") /\ args = 0 /\ run = 0
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
    /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, vars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
NoWords(k) == {}
NoDefaults == [none |-> 0]
=============================================================================
