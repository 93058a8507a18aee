------------------------------- MODULE Handler -------------------------------
(* How a backend serves ceremonies, step by step and several at once: checks *)
(* in any order, storage asked for the credential at some point, storage     *)
(* asked to record at the end.  Guarantees: what comes out of a call depends *)
(* on its arguments and on storage's answers alone, storage is asked to      *)
(* record once, last and only if nothing is wrong, and the error names       *)
(* something that is wrong.  Mode selects the design explored: "good" or one *)
(* of the ways to get it wrong.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Mode,        \* "good", "shared" (expectations kept on the backend), "cached" (verdicts remembered by credential),
                       \* "early" (recorded before the last check), "truthy" (answers tested for truth), "greedy" (error of a check
                       \* not made), "twice" (asked again on a raise), "stale" (row fetched by an earlier call is used)
          Store,       \* "plain": reads and writes of rows; "cas": writes compare the counter
          N            \* handlers
Handlers == 1..N
Checks == {"a", "b", "count"}          \* two checks of the message, one against the row that storage gave
Counts == {1, 2}
Answers == {"nothing", "falsy", "truthy", "raise"}

VARIABLES h_bad,      \* what is wrong with the message of each call: subset of {"a", "b"}
          h_cred,     \* the credential it presents
          h_cnt,      \* the counter it carries
          h_pc,       \* "idle", "run", "done"
          h_todo,     \* checks not made yet
          h_row,      \* what the call takes for the answer of storage: -2 an error or nothing, -3 not asked yet, or the counter
          h_given,    \* what storage really gave this call
            h_calls,    \* how often storage was asked to record
          h_ans,      \* its answer
          h_out,      \* "" or "ok" or the check whose error came out, or "storage"
          h_now,      \* (shared designs) what the backend object holds between calls
          h_table,    \* storage: counters by credential
          h_hist      \* counters recorded, in order, by credential
vars == <<h_bad, h_cred, h_cnt, h_pc, h_todo, h_row, h_given, h_calls, h_ans, h_out, h_now, h_table, h_hist>>
Creds == {1, 2}

Init == /\ h_bad \in [Handlers -> SUBSET {"a", "b"}] /\ h_cred \in [Handlers -> Creds] /\ h_cnt \in [Handlers -> Counts]
        /\ h_pc = [h \in Handlers |-> "idle"] /\ h_todo = [h \in Handlers |-> Checks] /\ h_row = [h \in Handlers |-> -3] /\ h_given = [h \in Handlers |-> -3]
        /\ h_calls = [h \in Handlers |-> 0] /\ h_ans = [h \in Handlers |-> ""] /\ h_out = [h \in Handlers |-> ""]
        /\ h_now = [on |-> 0, row |-> [c \in Creds |-> -3], ok |-> {}]
        /\ h_table \in [Creds -> {0, 1}] /\ h_hist = [c \in Creds |-> <<>>]

\* whose message a check looks at
Whose(h) == IF Mode = "shared" THEN h_now.on ELSE h
Fails(h, c) == IF c = "count" THEN h_row[h] >= 0 /\ h_cnt[Whose(h)] <= h_row[h] ELSE c \in h_bad[Whose(h)]
Finish(h, o) == h_pc' = [h_pc EXCEPT ![h] = "done"] /\ h_out' = [h_out EXCEPT ![h] = o]

Begin(h) == /\ h_pc[h] = "idle" /\ h_pc' = [h_pc EXCEPT ![h] = "run"]
            /\ h_now' = [h_now EXCEPT !.on = h]
            /\ h_todo' = IF Mode = "cached" /\ h_cred[h] \in h_now.ok THEN [h_todo EXCEPT ![h] = {"count"}] ELSE h_todo
            /\ UNCHANGED <<h_bad, h_cred, h_cnt, h_row, h_given, h_calls, h_ans, h_out, h_table, h_hist>>
Fetch(h) == /\ h_pc[h] = "run" /\ h_row[h] = -3
            /\ \E r \in IF Mode = "stale" /\ h_now.row[h_cred[h]] >= 0 THEN {h_now.row[h_cred[h]]} ELSE {h_table[h_cred[h]], -2} :
                 /\ h_row' = [h_row EXCEPT ![h] = r]
                 /\ h_given' = IF Mode = "stale" /\ h_now.row[h_cred[h]] >= 0 THEN h_given ELSE [h_given EXCEPT ![h] = r]
                 /\ h_now' = [h_now EXCEPT !.row[h_cred[h]] = r]
                 /\ IF r < 0 THEN Finish(h, "storage") ELSE UNCHANGED <<h_pc, h_out>>
            /\ UNCHANGED <<h_bad, h_cred, h_cnt, h_todo, h_calls, h_ans, h_table, h_hist>>
Check(h) == /\ h_pc[h] = "run"
            /\ \E c \in h_todo[h] :
                 /\ c = "count" => h_row[h] >= 0
                 /\ IF Fails(h, c) THEN Finish(h, IF Mode = "greedy" THEN "a" ELSE c) /\ UNCHANGED h_todo
                    ELSE h_todo' = [h_todo EXCEPT ![h] = @ \ {c}] /\ UNCHANGED <<h_pc, h_out>>
            /\ UNCHANGED <<h_bad, h_cred, h_cnt, h_row, h_given, h_calls, h_ans, h_now, h_table, h_hist>>
Ready(h) == h_pc[h] = "run" /\ h_row[h] >= 0 /\ h_calls[h] = (IF Mode = "twice" /\ h_ans[h] = "raise" THEN 1 ELSE 0)
            /\ h_todo[h] \subseteq (IF Mode = "early" THEN {"b"} ELSE {})
Succeeds(a) == a = "nothing" \/ (Mode = "truthy" /\ a = "falsy")
Record(h) ==
  /\ Ready(h)
  /\ \E a \in Answers :
       /\ (Store = "cas" /\ h_table[h_cred[h]] # h_row[h]) => a # "nothing"     \* somebody was faster
       /\ h_calls' = [h_calls EXCEPT ![h] = @ + 1] /\ h_ans' = [h_ans EXCEPT ![h] = a]
       /\ IF a = "nothing" THEN /\ h_table' = [h_table EXCEPT ![h_cred[h]] = h_cnt[h]]
                                /\ h_hist' = [h_hist EXCEPT ![h_cred[h]] = Append(@, h_cnt[h])]
          ELSE UNCHANGED <<h_table, h_hist>>
       /\ IF a = "raise" /\ Mode = "twice" /\ h_calls[h] = 0 THEN UNCHANGED <<h_pc, h_out>>
          ELSE IF h_todo[h] # {} THEN UNCHANGED <<h_pc, h_out>>
          ELSE Finish(h, IF Succeeds(a) THEN "ok" ELSE "storage")
       /\ h_now' = [h_now EXCEPT !.ok = IF Succeeds(a) THEN @ \cup {h_cred[h]} ELSE @]
  /\ UNCHANGED <<h_bad, h_cred, h_cnt, h_todo, h_row, h_given>>
\* (the design that records too early has a check left)
Late(h) == /\ Mode = "early" /\ h_pc[h] = "run" /\ h_calls[h] = 1 /\ h_todo[h] = {} /\ Finish(h, IF Succeeds(h_ans[h]) THEN "ok" ELSE "storage")
           /\ UNCHANGED <<h_bad, h_cred, h_cnt, h_todo, h_row, h_given, h_calls, h_ans, h_now, h_table, h_hist>>

Step(h) == Begin(h) \/ Fetch(h) \/ Check(h) \/ Record(h) \/ Late(h)
Next == \E h \in Handlers : Step(h)
Spec == Init /\ [][Next]_vars /\ \A h \in Handlers : WF_vars(Step(h))

(* ---- guarantees ---- *)
Done(h) == h_pc[h] = "done"
Wrong(h) == h_bad[h] \cup (IF h_row[h] >= 0 /\ h_cnt[h] <= h_row[h] THEN {"count"} ELSE {})
\* C09
OnceAndLast == \A h \in Handlers : /\ h_calls[h] <= 1
                                   /\ h_calls[h] = 1 => Wrong(h) = {}
                                   /\ (Done(h) /\ h_calls[h] = 0) => h_out[h] # "ok"
NothingMeansYes == \A h \in Handlers : (Done(h) /\ h_calls[h] = 1 /\ Wrong(h) = {}) => h_out[h] = (IF h_ans[h] = "nothing" THEN "ok" ELSE "storage")
\* C10, C11, C24: the outcome is one that the arguments and the answers allow, whatever else goes on
Outcomes(h) == IF h_row[h] < 0 THEN (IF h_row[h] = -3 THEN {} ELSE {"storage"}) \cup Wrong(h)
               ELSE IF Wrong(h) # {} THEN Wrong(h) ELSE IF h_ans[h] = "nothing" THEN {"ok"} ELSE {"storage"}
Depends == \A h \in Handlers : Done(h) => h_out[h] \in Outcomes(h)
\* the row that was used is the one storage gave this very call
FreshRow == \A h \in Handlers : h_row[h] = h_given[h]
\* C07 across concurrent calls: only with a storage that compares
Increasing == \A c \in Creds : \A i \in 1..(Len(h_hist[c]) - 1) : h_hist[c][i] < h_hist[c][i + 1]
Ends == <>(\A h \in Handlers : Done(h))
=============================================================================
