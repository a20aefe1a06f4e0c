------------------------------ MODULE GenStart -----------------------------
(* Prints every request of MCStart for the harness to make.                 *)
EXTENDS MCStart
Shown == (phase = "asked" /\ ~protect) => PrintT("VCH " \o ToJson(conf))
OnePath == {<<Len1(2000), Len1(2000)>>}
=============================================================================
