----------------------------- MODULE SDMailTrace ---------------------------
(* Real runs against a server of ours.  Events: start, step (of the         *)
(* connection, with what is in the output folder then), end.                *)
EXTENDS SDMail, Json

VARIABLE i
Trace == ndJsonDeserialize("trace.ndjson")
Good(m) == m.from = 1 /\ m.to = 1 /\ m.subject = 1 /\ m.file = 1 /\ m.time = 1
Verdict(e) ==
    CASE e.kind = "start" -> ""
      [] e.kind = "step" ->
            IF ~asked THEN "not asked for"
            ELSE IF e.saved # 1 THEN "before the output is saved"
            ELSE IF phase = "ended" THEN "going on after the end"
            ELSE IF e.step \in tried THEN "once"
            ELSE IF ~(Before(e.step) \subseteq done)
                 THEN (IF e.step = "login" THEN "password in the clear" ELSE "order of the steps")
            ELSE IF e.step = "send" /\ ~Good(e.message) THEN "what the message says" ELSE ""
      [] e.kind = "end" ->
            IF e.status # "ok" \/ e.saved # 1 THEN "the run itself"
            ELSE IF asked /\ fails = "none" /\ sent # 1 THEN "not sent"
            ELSE IF asked /\ (e.said = "sent") # (sent = 1) THEN "what is printed"
            ELSE IF asked /\ e.said = "nothing" THEN "what is printed"
            ELSE IF ~asked /\ e.said # "nothing" THEN "what is printed" ELSE ""
TraceInit == i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "") /\ MailInit /\ asked /\ fails = "none"
Take(e) ==
    CASE e.kind = "start" -> /\ asked' = e.asked /\ fails' = e.fails /\ phase' = "saved"
                             /\ done' = {} /\ tried' = {} /\ sent' = 0 /\ said' = "nothing"
      [] e.kind = "step" -> Try(e.step)
      [] e.kind = "end" -> UNCHANGED mailVars
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1) /\ Take(Trace[i])
          ELSE TLCSet(8, v) /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<i, mailVars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
=============================================================================
