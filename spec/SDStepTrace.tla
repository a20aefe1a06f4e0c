---------------------------- MODULE SDStepTrace ----------------------------
(* Runs of the real simulation script as behaviours of SDStep.              *)
(*                                                                          *)
(* Events: "start" (configuration and first points), "eval" (the user's     *)
(* input function was asked for its data: at which time t and places at;    *)
(* with the velocities and forces that belong to that configuration for     *)
(* every far field the run may have stored), "row" (the configuration and   *)
(* forces saved for the end of the frame), "end" (whether the run came to   *)
(* its proper end), "twin" (a row of this run and of one that started from  *)
(* other images).  The state carries the observed values, so that each    *)
(* event is judged on its own.                                              *)
EXTENDS SDStep, TLC, Json

VARIABLES i, fl1
Trace == ndJsonDeserialize("trace.ndjson")
ev == Trace[i]
tvars == <<svars, i, fl1>>

NearPoints(a, b, tol) == /\ Len(a) = Len(b)
                         /\ \A p \in DOMAIN a : NearV(a[p], b[p], tol)
(* In two-dimensional runs the stages are only compared in their plane *)
NearStage(a, b, tol) == /\ Len(a) = Len(b)
                        /\ \A p \in DOMAIN a : NearV(InPlane(a[p]), InPlane(b[p]), tol)

Stage == Len(vels) + 1
Answers(e) == {j \in DOMAIN e.ans : e.ans[j].src = SourceOf(Stage)}
Answer(e) == e.ans[CHOOSE j \in Answers(e) : TRUE]
Totals(e) == [p \in DOMAIN at |->
                Carried(cfg.kinds[p], Answer(e).rel[p], e.at[p], e.flow)]
Spins(e) == [p \in DOMAIN Answer(e).spin |-> Plus(Answer(e).spin[p], e.flow.spin)]

(* Asking for the same data twice, or for those of the end of the frame      *)
(* (which say how far the box has sheared by then), changes nothing.         *)
Again(e) == \/ /\ Len(vels) > 0 /\ e.t = Now(Len(vels))
               /\ NearStage(e.at, Place(Len(vels)), cfg.tol)
            \/ e.t = 2*frame + 2 /\ NearStage(e.at, at, cfg.tol)

EvalVerdict(e) ==
    IF Stage > Evaluations /\ Again(e) THEN ""
    ELSE IF Stage > Evaluations THEN "number of evaluations in a frame"
    ELSE IF e.t /= Now(Stage) THEN (IF Again(e) THEN "" ELSE "time of evaluation")
    ELSE IF ~NearStage(e.at, Place(Stage), cfg.tol)
         THEN (IF Again(e) THEN "" ELSE "place of evaluation")
    ELSE IF Answers(e) = {} THEN "far field of the configuration it was due from"
    ELSE IF cfg.free /\ \E p \in DOMAIN at : ~NearV(Answer(e).rel[p], V0, cfg.tol)
         THEN "free particles follow the flow"
    ELSE ""
Taken(e) == /\ Stage <= Evaluations /\ e.t = Now(Stage)
            /\ NearStage(e.at, Place(Stage), cfg.tol)

Moved(e, p) ==
    IF cfg.kinds[p] = "c" /\ Boxed
    THEN LatticeShift(Minus(e.x[p], Target(p)), e.tilt, cfg.tol)
    ELSE NearV(e.x[p], Target(p), cfg.tol)
Kept(e, p) == ~cfg.plane \/ e.x[p][2] = at[p][2]
RowVerdict(e) ==
    IF Len(vels) /= Evaluations THEN "number of evaluations in a frame"
    ELSE IF Len(e.x) /= Len(at) THEN "number of particles"
    ELSE IF \E p \in DOMAIN at : ~Kept(e, p) THEN "stays in the plane"
    ELSE IF \E p \in DOMAIN at : ~Moved(e, p) /\ cfg.kinds[p] = "c" THEN "centres advance"
    ELSE IF \E p \in DOMAIN at : ~Moved(e, p) THEN "separations advance"
    ELSE IF Boxed /\ \E p \in DOMAIN at : cfg.kinds[p] = "c" /\ ~Inside(e.x[p], e.tilt)
         THEN "inside the box"
    ELSE IF e.force /= <<>> /\ \E j \in DOMAIN e.force :
                ~Near(LoadUnder*e.force[j], Load(j), LoadUnder*cfg.ftol)
         THEN "forces combine"
    ELSE IF cfg.marked /\ \E p \in DOMAIN marks : \E j \in 1..2 :
                ~NearV(e.marks[p][j], Marker(p, j), cfg.mtol)
         THEN "markers turn"
    ELSE ""
Verdict(e) ==
    CASE e.e = "start" -> ""
      [] e.e = "eval" -> EvalVerdict(e)
      [] e.e = "row" -> RowVerdict(e)
      [] e.e = "twin" ->
            IF \E p \in DOMAIN e.xa :
                IF cfg.kinds[p] = "c"
                THEN ~LatticeShift(Minus(e.xa[p], e.xb[p]), e.tilt, cfg.ttol)
                ELSE ~NearV(e.xa[p], e.xb[p], cfg.ttol)
            THEN "starting from other images changes nothing" ELSE ""
      [] OTHER -> IF ~e.ok THEN "the run ends properly"
                  ELSE IF frame /= e.frames THEN "every frame is computed" ELSE ""

Begin(e) ==
    /\ cfg' = e.cfg /\ frame' = e.cfg.first /\ at' = e.x /\ marks' = e.marks
    /\ vels' = <<>> /\ prev' = <<>> /\ spins' = <<>> /\ turned' = <<>>
    /\ loads' = <<>> /\ stored' = <<-1, -1>> /\ used' = <<-1, -1>>

TraceInit ==
    /\ Start(Trace[1].cfg, Trace[1].x, Trace[1].marks) /\ i = 1 /\ fl1 = <<>>
    /\ TLCSet(7, 1) /\ TLCSet(8, "")
Follow(e) ==
    CASE e.e = "start" -> Begin(e) /\ UNCHANGED fl1
      [] e.e = "eval" ->
            IF Taken(e)
            THEN /\ Evaluate(Stage, Totals(e), Spins(e), Answer(e).force)
                 /\ fl1' = IF Stage = 1 THEN e.flow ELSE fl1
            ELSE UNCHANGED <<svars, fl1>>
      [] e.e = "row" -> Advance(e.x, e.marks, fl1) /\ UNCHANGED fl1
      [] OTHER -> UNCHANGED <<svars, fl1>>
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(ev)
       IN IF v = "" THEN Follow(ev) /\ i' = i + 1 /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
=============================================================================
