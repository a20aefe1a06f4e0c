----------------------------- MODULE SDProgress ----------------------------
(* What a run reports while it runs: how long a frame took, how long the    *)
(* rest will take, and when it will end.  Frames in which the far field is  *)
(* refreshed take long, others short; the rest of either kind is expected   *)
(* to take what this process's frames of the kind took on average, and 3%   *)
(* more.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(***************************************************************************)
(* The estimate, as a fraction                                              *)
(***************************************************************************)
(* d[k] is the duration of frame from + k - 1                               *)
IsLong(i, inv, from) == i % inv = 0 \/ i = from
RECURSIVE SumUp(_, _, _, _, _)
SumUp(d, k, inv, from, long) ==
    IF k > Len(d) THEN 0
    ELSE (IF IsLong(from + k - 1, inv, from) = long THEN d[k] ELSE 0)
         + SumUp(d, k + 1, inv, from, long)
HowMany(d, inv, from, long) ==
    Cardinality({k \in 1..Len(d) : IsLong(from + k - 1, inv, from) = long})
Ahead(n, inv, frame, long) ==
    Cardinality({i \in (frame + 1)..(n - 1) : (i % inv = 0) = long})
(* A process that compiles does so in its first frame, which is left out of *)
(* the average once there is another long one.                              *)
Estimate(d, n, inv, from, compiles) ==
    LET frame == from + Len(d) - 1
        known == HowMany(d, inv, from, TRUE)
        omit == compiles /\ known >= 2
        cl == IF omit THEN known - 1 ELSE known
        cs == HowMany(d, inv, from, FALSE)
        sl == SumUp(d, 1, inv, from, TRUE) - (IF omit THEN d[1] ELSE 0)
        ss == SumUp(d, 1, inv, from, FALSE)
        al == Ahead(n, inv, frame, TRUE)
        as == Ahead(n, inv, frame, FALSE)
    IN IF cs = 0 THEN [num |-> (al + as) * sl * 103, den |-> 100 * cl]
       ELSE [num |-> (al * sl * cs + as * ss * cl) * 103, den |-> 100 * cl * cs]
(* Said to be an upper bound while only one, long, frame is known           *)
AtMost(d, n, inv, from) == Len(d) = 1 /\ Ahead(n, inv, from, FALSE) > 0
(* and while the compiling cannot be left out                               *)
WithCompiling(d, inv, from, compiles) == compiles /\ HowMany(d, inv, from, TRUE) = 1
Mark(d, n, inv, from, compiles) ==
    CASE AtMost(d, n, inv, from) /\ WithCompiling(d, inv, from, compiles) -> "<<"
      [] AtMost(d, n, inv, from) \/ WithCompiling(d, inv, from, compiles) -> "<"
      [] OTHER -> ""

(***************************************************************************)
(* How times are written                                                    *)
(***************************************************************************)
(* u is the number of units in a second.  Left of the exact value there may *)
(* be the rounding of binary numbers.                                       *)
AtLeast(q, u, s) == q.num >= s * u * q.den
Forms(q, u) ==
    {f \in {"s", "m", "h", "d"} :
        CASE f = "d" -> AtLeast(q, u, 86400)
          [] f = "h" -> AtLeast(q, u, 3600) /\ (~AtLeast(q, u, 86400) \/ q.num = 86400 * u * q.den)
          [] f = "m" -> AtLeast(q, u, 60) /\ (~AtLeast(q, u, 3600) \/ q.num = 3600 * u * q.den)
          [] f = "s" -> ~AtLeast(q, u, 60) \/ q.num = 60 * u * q.den}
(* Shown in tenths of seconds if in form s, else in whole seconds           *)
Written(q, u, form, shown) ==
    /\ form \in Forms(q, u)
    /\ IF form = "s"
       THEN LET x == q.num * 10 y == shown * u * q.den
            IN 2 * (x - y) <= u * q.den + 1 /\ 2 * (y - x) <= u * q.den + 1
       ELSE /\ shown * u * q.den <= q.num
            /\ q.num <= (shown + 1) * u * q.den
(* The five colours of a remaining time                                     *)
Colours == <<86400, 18000, 3600, 600>>
Coloured(q, u, c) ==
    /\ \A k \in 1..(c - 1) : q.num <= Colours[k] * u * q.den
    /\ c <= 4 => q.num >= Colours[c] * u * q.den

(***************************************************************************)
(* The end, by the clock                                                    *)
(***************************************************************************)
(* now: seconds since midnight, and the day: weekday 0..6, month and date   *)
DaysIn(m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN 28 ELSE 31
RECURSIVE DateAfter(_, _, _)
DateAfter(m, day, k) ==
    IF day + k <= DaysIn(m) THEN <<m, day + k>>
    ELSE DateAfter(m + 1, 0, day + k - DaysIn(m))
(* The clock t seconds later, t whole                                       *)
Clock(now, t) ==
    LET all == now.sec + t
        days == all \div 86400
        rest == all % 86400
        md == DateAfter(now.month, now.date, days)
        hm == [h |-> rest \div 3600, m |-> (rest % 3600) \div 60]
    IN IF days = 0 THEN [form |-> "today", h |-> hm.h, m |-> hm.m]
       ELSE IF days < 7
            THEN [form |-> "week", day |-> (now.weekday + days) % 7, h |-> hm.h, m |-> hm.m]
       ELSE [form |-> "date", month |-> md[1], date |-> md[2], h |-> hm.h, m |-> hm.m]
(* q is not whole, and now neither: either second may be meant              *)
Ends(now, q, u) == LET t == q.num \div (u * q.den)
                   IN {Clock(now, t), Clock(now, t + 1), Clock(now, t + 2)}

(***************************************************************************)
(* Runs                                                                     *)
(***************************************************************************)
CONSTANTS Lengths, Intervals, Durations, MaxRestarts
(* Every twentieth frame (the first is frame 0) repeats the name of the     *)
(* output, for a log that is read from its end                              *)
NamesOutput(k) == k > 0 /\ k % 20 = 0

VARIABLES n, inv, from, took, stops, jit
progressVars == <<n, inv, from, took, stops, jit>>
ProgressInit == /\ n \in Lengths /\ inv \in Intervals /\ jit \in BOOLEAN
                /\ from = 0 /\ took = <<>> /\ stops = 0
Frame == /\ from + Len(took) < n
         /\ \E t \in Durations : took' = Append(took, t)
         /\ UNCHANGED <<n, inv, from, stops, jit>>
Restart == /\ stops < MaxRestarts /\ took # <<>> /\ from + Len(took) < n
           /\ from' = from + Len(took) /\ took' = <<>> /\ stops' = stops + 1
           /\ UNCHANGED <<n, inv, jit>>
ProgressNext == Frame \/ Restart
ProgressSpec == ProgressInit /\ [][ProgressNext]_progressVars

(* If frames of a kind always take the same, the estimate is 103% of what   *)
(* the rest really takes, as soon as both kinds are known.                  *)
Regular(d, l, s) == \A k \in 1..Len(d) :
    d[k] = IF IsLong(from + k - 1, inv, from) THEN l ELSE s
RightWhenRegular ==
    \A l, s \in Durations :
        (took # <<>> /\ Regular(took, l, s) /\ (HowMany(took, inv, from, FALSE) > 0 \/ l = s)) =>
        LET e == Estimate(took, n, inv, from, jit)
            f == from + Len(took) - 1
        IN e.num * 100 = 103 * (Ahead(n, inv, f, TRUE) * l + Ahead(n, inv, f, FALSE) * s) * e.den
NothingLeft == (took # <<>> /\ from + Len(took) = n) => Estimate(took, n, inv, from, jit).num = 0
UpperBound == \A l, s \in Durations :
    (took # <<>> /\ AtMost(took, n, inv, from) /\ Regular(took, l, s) /\ s <= l) =>
        LET e == Estimate(took, n, inv, from, jit)
        IN e.num * 100 >= 103 * (Ahead(n, inv, from, TRUE) * l + Ahead(n, inv, from, FALSE) * s) * e.den
(* What compiling adds to the first frame is forgotten at the next long one *)
CompilingForgotten ==
    (jit /\ HowMany(took, inv, from, TRUE) >= 2) =>
        \A t \in Durations :
            Estimate([took EXCEPT ![1] = t], n, inv, from, TRUE) = Estimate(took, n, inv, from, TRUE)
MarkedUntilThen ==
    (took # <<>> /\ Mark(took, n, inv, from, jit) = "") =>
        /\ jit => HowMany(took, inv, from, TRUE) >= 2
        /\ Len(took) > 1 \/ Ahead(n, inv, from, FALSE) = 0
=============================================================================
