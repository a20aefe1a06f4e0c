--------------------------- MODULE SDInputsTrace ---------------------------
(* What the supplied input functions return.  Events: "repulsion" (forces   *)
(* before and after), "shear" and "steady" (flows), "spring", "plain" (an   *)
(* input without any of these: everything is as listed).                    *)
EXTENDS SDInputs, TLC, Json

VARIABLES i
Trace == ndJsonDeserialize("trace.ndjson")
(* Forces after repulsion: spheres, then dumbbells' totals and differences  *)
RepulsionLaw(e) ==
    LET n == Len(e.sp)
        m == Len(e.db)
        y == Nodes(e.sp, e.db)
        r == Radii(e.as, e.ad)
        f == [j \in DOMAIN y |-> Pushes(y, r, e.tau, j)]
        sum(k) == Plus(f[n + k], f[n + m + k])
        diff(k) == Minus(f[n + m + k], f[n + k])
    IN IF \E j \in 1..n : j <= 2*e.lid /\ e.after.F[j] # e.before.F[j]
       THEN "walls are left alone"
       ELSE IF \E j \in 1..n : j > 2*e.lid
               /\ ~NearV(e.after.F[j], Plus(e.before.F[j], f[j]), e.tol)
       THEN "repulsion of spheres"
       ELSE IF \E k \in 1..m : ~NearV(e.after.Fb[k], Plus(e.before.Fb[k], sum(k)), e.tol)
       THEN "repulsion of dumbbells"
       ELSE IF \E k \in 1..m : ~NearV(e.after.Db[k], Plus(e.before.Db[k], diff(k)), e.tol)
       THEN "repulsion within dumbbells"
       ELSE ""
FlowLaw(e, flow, grad, rate, amount) ==
    IF Len(e.E) # Max2(1, e.ns) THEN "a strain rate for every sphere"
    ELSE IF \E k \in DOMAIN e.E : ~NearM(Gradient(e.E[k], e.O), Simple(flow, grad, rate), e.tol)
    THEN "rate of shear"
    ELSE IF \E k \in DOMAIN e.E : e.E[k] # Transpose(e.E[k]) THEN "strain rates are symmetric"
    ELSE IF ~NearM(Gradient(e.Et, e.Ot), Simple(flow, grad, amount), e.tol)
    THEN "amount of shear"
    ELSE IF e.Et # Transpose(e.Et) THEN "strains are symmetric"
    ELSE IF e.U # V0 \/ e.centre # e.asked THEN "centre of the flow"
    ELSE ""
ShearLaw(e) == LET ax == Axes(e.unused, e.transposed)
                   sign == IF e.opposite THEN -1 ELSE 1
               IN FlowLaw(e, ax[1], ax[2], sign*Rate(e.s), sign*Amount(e.s))
(* time is twice the frame times the step in sixty-fourths                  *)
SteadyLaw(e) == FlowLaw(e, 1, 3, e.rate, (e.rate*e.f2*e.d) \div 128)
SpringLaw(e) ==
    IF \E k \in DOMAIN e.db : ~NearV(e.Db[k], Spring(e.db[k], e.natural, e.stiffness), e.tol)
    THEN "spring" ELSE ""
PlainLaw(e) ==
    IF \E f \in DOMAIN e.want : e.got[f] # e.want[f] THEN "input as described" ELSE ""
Verdict(e) == IF ~e.ok THEN "an answer"
    ELSE CASE e.e = "repulsion" -> RepulsionLaw(e)
           [] e.e = "shear" -> ShearLaw(e)
           [] e.e = "steady" -> SteadyLaw(e)
           [] e.e = "spring" -> SpringLaw(e)
           [] OTHER -> PlainLaw(e)

TraceInit == i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "") /\ x = 0 /\ a = 0 /\ t = 0
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
    /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, vars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
NoSet == {}
=============================================================================
