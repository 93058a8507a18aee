-------------------------------- MODULE Trace --------------------------------
(* Validates a recorded log of independent calls, one state per event, in    *)
(* SHARDS parallel behaviours.  Every event is judged; a verdict line is     *)
(* printed for it; nothing stops at the first broken clause.                 *)
EXTENDS Conform, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
SHARDS == 16
\* (names that no bound variable of the specification has: TLC would take those for
\* state variables and not tabulate constants that use them)
VARIABLES trace_shard, trace_pos
vars == <<trace_shard, trace_pos>>

Report(n) ==
  LET e == Log[n]
      j == Judge(e)
  IN PrintT("@@" \o ToJson([n |-> n, id |-> e.id, op |-> e.op, viol |-> j.viol, f |-> j.f, u |-> j.u]))

Init == trace_shard \in 1..SHARDS /\ trace_pos = trace_shard
Next == trace_pos <= N /\ trace_pos' = trace_pos + SHARDS /\ UNCHANGED trace_shard
Spec == Init /\ [][Next]_vars
\* judged as an invariant: there TLC caches LET values, in an action it does not
Judged == trace_pos <= N => Report(trace_pos)
\* one state per event plus the final state of each behaviour
AllJudged == TLCGet("distinct") = N + SHARDS
=============================================================================
