------------------------------- MODULE SDMail ------------------------------
(* The message that a run sends when it is complete, if asked to, through a *)
(* server which may fail at any step.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Steps == {"connect", "tls", "login", "send"}
(* What must have been done before a step: the password is given over an    *)
(* encrypted connection only                                                *)
Before(s) == CASE s = "connect" -> {}
               [] s = "tls" -> {"connect"}
               [] s = "login" -> {"connect", "tls"}
               [] s = "send" -> {"connect", "tls", "login"}

VARIABLES asked, fails, phase, done, tried, sent, said
mailVars == <<asked, fails, phase, done, tried, sent, said>>
MailInit == /\ asked \in BOOLEAN /\ fails \in Steps \cup {"none"}
            /\ phase = "running" /\ done = {} /\ tried = {} /\ sent = 0 /\ said = "nothing"
Save == phase = "running" /\ phase' = "saved" /\ UNCHANGED <<asked, fails, done, tried, sent, said>>
Halt == phase = "running" /\ phase' = "halted" /\ UNCHANGED <<asked, fails, done, tried, sent, said>>
Try(s) ==
    /\ phase = "saved" /\ asked /\ s \notin tried /\ Before(s) \subseteq done
    /\ tried' = tried \cup {s}
    /\ IF s = fails
       THEN phase' = "ended" /\ said' = "failed" /\ UNCHANGED <<done, sent>>
       ELSE /\ done' = done \cup {s}
            /\ sent' = (IF s = "send" THEN sent + 1 ELSE sent)
            /\ IF s = "send" THEN phase' = "ended" /\ said' = "sent"
               ELSE UNCHANGED <<phase, said>>
    /\ UNCHANGED <<asked, fails>>
EndQuietly == phase = "saved" /\ ~asked /\ phase' = "ended"
              /\ UNCHANGED <<asked, fails, done, tried, sent, said>>
MailNext == Save \/ Halt \/ EndQuietly \/ \E s \in Steps : Try(s)
MailSpec == MailInit /\ [][MailNext]_mailVars /\ WF_mailVars(MailNext)

OnlyWhenComplete == tried # {} => phase \in {"saved", "ended"}
OnlyWhenAsked == tried # {} => asked
OnceAtMost == sent <= 1
PasswordEncrypted == "login" \in tried => "tls" \in done
SaysWhatHappened == phase = "ended" /\ asked => (said = "sent") = (sent = 1)
AlwaysEnds == <>(phase \in {"ended", "halted"})
SentUnlessItFails == [](phase = "ended" /\ asked /\ fails = "none" => sent = 1)
=============================================================================
