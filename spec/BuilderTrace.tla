---------------------------- MODULE BuilderTrace ----------------------------
(* Validates recorded histories of option builders: every recorded step is   *)
(* taken by the abstract machine of Builders, and what the code showed must  *)
(* be what the abstract state allows.                                        *)
EXTENDS Builders, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES bt_hist, bt_pos, bt_st, bt_viol
btvars == <<bt_hist, bt_pos, bt_st, bt_viol>>

ArgsOf(l) == [a \in {l[i].a : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i].a = a].h]

Step(st, e) ==
  CASE e.act = "handle" -> NewHandle(st, e.c)
    [] e.act = "new" -> NewBuilder(st, e.kind, ArgsOf(e.args))
    [] e.act = "set" -> Derive(st, e.b, e.a, e.h)
    [] e.act = "build" -> Built(st, e.b, ArgsOf(e.extra))
    [] e.act = "mut" -> Mutate(st, e.h, e.c)
    [] e.act = "mutres" -> MutateResult(st, e.r, e.a, e.c)
    [] e.act = "look" -> st

V(c) == {[own |-> {"C22"}, clause |-> c]}
Shape(k) == IF k = "create" THEN "CredentialCreationOptions/PublicKeyCredentialCreationOptions"
            ELSE "CredentialRequestOptions/PublicKeyCredentialRequestOptions"
Seen(l) == [a \in {l[i].a : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i].a = a].c]

\* st: the abstract state after the step
StepJudge(st, e) ==
  CASE e.act \in {"new", "set"} ->
         IF e.out.k # "ok" THEN V("call failed: " \o e.out.cls)
         ELSE IF e.act = "set" THEN (IF e.same THEN V("setter returned an existing builder") ELSE {})
                                    \cup (IF e.cls # (IF st.bl[e.b].kind = "create" THEN "CredentialCreationOptionsBuilder" ELSE "CredentialRequestOptionsBuilder")
                                          THEN V("setter returned something else") ELSE {})
         ELSE {}
    [] e.act = "build" ->
         IF CanBuild(st, e.b)
         THEN IF e.out.k # "ok" THEN V("complete builder refused to build: " \o e.out.cls)
              ELSE (IF e.shape # Shape(st.bl[e.b].kind) THEN V("wrong options type") ELSE {})
                   \cup UNION {V("built value not the one last set: " \o a) : a \in WrongAttrs(st, Len(st.rs), Seen(e.seen))}
         ELSE IF e.out.k = "ok" THEN V("incomplete builder built options")
              ELSE IF e.out.cls # "BuilderError" THEN V("incomplete builder failed with " \o e.out.cls) ELSE {}
    [] e.act = "look" -> UNION {V("earlier options changed: " \o a) : a \in WrongAttrs(st, e.r, Seen(e.seen))}
    [] OTHER -> {}

Init == bt_hist \in 1..Len(Log) /\ bt_pos = 0 /\ bt_st = Start /\ bt_viol = {}
Next == /\ bt_pos < Len(Log[bt_hist].steps)
        /\ bt_pos' = bt_pos + 1
        /\ LET e == Log[bt_hist].steps[bt_pos + 1] IN
           \E after \in {Step(bt_st, e)} :
              /\ bt_st' = after
              /\ bt_viol' = bt_viol \cup StepJudge(after, e)
        /\ UNCHANGED bt_hist
Spec == Init /\ [][Next]_btvars
Judged == bt_pos = Len(Log[bt_hist].steps) =>
            PrintT("@@" \o ToJson([n |-> bt_hist, id |-> Log[bt_hist].id, op |-> "builders", viol |-> bt_viol, f |-> {}, u |-> {}]))
=============================================================================
