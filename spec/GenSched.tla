------------------------------ MODULE GenSched ------------------------------
(* Interleavings of Handler, drawn by TLC's simulation: who takes the next   *)
(* step.  Replayed on threads that serve ceremonies on one backend.          *)
EXTENDS Handler, Json
VARIABLES g_log
Log(h) == g_log' = Append(g_log, h)
GenInit == Init /\ g_log = <<>>
GenNext == \E h \in Handlers : Step(h) /\ Log(h)
GenSpec == GenInit /\ [][GenNext]_<<vars, g_log>>
Emit == (\A h \in Handlers : Done(h)) => PrintT("@@" \o ToJson(g_log))
=============================================================================
