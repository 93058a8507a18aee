---------------------------- MODULE ProtocolTrace ----------------------------
(* Validates recorded histories: the model takes every recorded step, and    *)
(* what the implementation did with each submission, and what its storage    *)
(* then holds, must be what the model says.                                  *)
EXTENDS Protocol, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pt_hist, pt_pos, pt_st, pt_viol, pt_seen
ptvars == <<pt_hist, pt_pos, pt_st, pt_viol, pt_seen>>

SeqSet(q) == {q[i] : i \in 1..Len(q)}
Session(s) == [s EXCEPT !.orgs = SeqSet(@), !.allow = SeqSet(@)]

Step(st, e) ==
  CASE e.act = "sess" -> NewSession(st, Session(e.s))
    [] e.act = "create" -> CreateCred(st, e.a)
    [] e.act = "get" -> GetCred(st, e.a)
    [] e.act = "clone" -> Clone(st, e.a)
    [] e.act = "submit" -> Submit(st, e.n, e.m, {})

Main(st, n) == IF st.sess[n].kind = "reg" THEN "S02" ELSE "S01"
Names(S) == LET RECURSIVE J(_) J(T) == IF T = {} THEN "" ELSE LET x == CHOOSE x \in T : TRUE IN " " \o x \o J(T \ {x}) IN J(S)
V(own, c) == {[own |-> own, clause |-> c]}
\* st: the state before the submission; after: the one that follows
Judge(st, after, e) ==
  LET f == Faults(st, e.n, e.m)
      main == Main(st, e.n)
      verdict ==
        IF e.out.k = "ok" THEN (IF f = {} THEN {} ELSE V({main} \cup Owners(f), "accepted in spite of" \o Names(f)))
        ELSE IF e.out.k # "err" THEN V({"C11"}, "no answer: " \o e.out.k)
        ELSE IF f = {} THEN V({"C10"} \cup ClassOwner(e.out.cls), "refused without a fault: " \o e.out.cls)
        ELSE IF ~e.out.lib THEN V({"C11"}, "escape: " \o e.out.cls)
        ELSE IF e.out.cls \notin Classes(f) THEN V({"C11"} \cup Owners(f), "untruthful error " \o e.out.cls \o " for" \o Names(f)) ELSE {}
      told == IF f \ {"rsp"} = {} THEN 1 ELSE 0
      calls == IF e.calls # told THEN V({"C09"}, "storage was asked to record " \o ToString(e.calls) \o " times") ELSE {}
      holds == IF SeqSet(e.store) # SeqSet(after.store) THEN V({"C09", main} \cup (IF f = {} /\ main = "S01" THEN {"C07"} ELSE {}), "storage holds something else") ELSE {}
      \* the same submission to a backend without a past, with the same storage
      past == IF e.fresh # [out |-> e.out, calls |-> e.calls, store |-> e.store] THEN V({"C24"}, "a backend without a past answers otherwise: " \o e.fresh.out.k \o " " \o e.fresh.out.cls) ELSE {}
  IN past \cup IF verdict # {} THEN verdict ELSE calls \cup holds

Init == pt_hist \in 1..Len(Log) /\ pt_pos = 0 /\ pt_st = Begin /\ pt_viol = {} /\ pt_seen = {}
\* a history in which something went wrong is not followed further
Next == /\ pt_pos < Len(Log[pt_hist].steps) /\ pt_viol = {}
        /\ pt_pos' = pt_pos + 1
        /\ LET e == Log[pt_hist].steps[pt_pos + 1] IN
           \E after \in {Step(pt_st, e)} :
             /\ pt_st' = after
             /\ pt_viol' = IF e.act = "submit" THEN Judge(pt_st, after, e) ELSE {}
             /\ pt_seen' = IF e.act = "submit" THEN pt_seen \cup (IF Faults(pt_st, e.n, e.m) = {} THEN {"(accepted)"} ELSE Faults(pt_st, e.n, e.m)) ELSE pt_seen
        /\ UNCHANGED pt_hist
Spec == Init /\ [][Next]_ptvars
Judged == (pt_pos = Len(Log[pt_hist].steps) \/ pt_viol # {}) =>
            PrintT("@@" \o ToJson([n |-> pt_hist, id |-> Log[pt_hist].id, op |-> "protocol", viol |-> pt_viol, f |-> pt_seen, u |-> {}]))
\* the recorded history, as the model understands it, keeps every guarantee
Guarantees == AuthAgreement(pt_st) /\ AuthPolicy(pt_st) /\ AuthAccount(pt_st) /\ NoReplay(pt_st) /\ Counters(pt_st) /\ RegAgreement(pt_st)
=============================================================================
