----------------------------- MODULE GenBuilders -----------------------------
(* Histories of builder calls, drawn from the abstract machine by TLC's      *)
(* simulation.  Handles are numbered; handle h has the type HandleType[h].   *)
EXTENDS Builders, TLC, Json, IOUtils

HandleType == <<"rp", "rp", "pub_key_cred_params", "pub_key_cred_params", "timeout", "timeout", "authenticator_selection",
                "authenticator_selection", "extensions", "extensions", "attestation", "attestation", "exclude_credentials",
                "exclude_credentials", "mediation", "mediation", "rp_id", "rp_id", "user_verification", "user_verification",
                "user", "user", "challenge", "challenge">>
\* allow_credentials takes the objects of exclude_credentials
TypeOf(a) == IF a = "allow_credentials" THEN "exclude_credentials" ELSE a
HandlesFor(a) == {h \in 1..Len(HandleType) : HandleType[h] = TypeOf(a)}
Mutable == {"rp", "pub_key_cred_params", "authenticator_selection", "extensions", "exclude_credentials", "user"}
MutableHandles == {h \in 1..Len(HandleType) : HandleType[h] \in Mutable}
MutableAttrs == Mutable \cup {"allow_credentials"}

DEPTH == 28
VARIABLES g_kinds,    \* kinds of the builders so far
          g_res,      \* kinds of the results so far
          g_hist
genvars == <<g_kinds, g_res, g_hist>>

Init == g_kinds = <<>> /\ g_res = <<>> /\ g_hist = <<>>
Log(r) == g_hist' = Append(g_hist, r)

Some(S) == RandomElement(S)
ArgFor(a) == IF a \in NotNone("create") \cup NotNone("request") THEN Some(HandlesFor(a)) ELSE Some(HandlesFor(a) \cup {0})
\* arguments of a constructor or of build: a random part of the attributes, required ones sometimes none
RandomArgs(A, B, none) == [a \in B |-> IF none /\ Some(1..8) = 1 THEN 0 ELSE ArgFor(a)]

New == \E k \in {Some({"create", "request"})} :
       /\ Len(g_kinds) < 8
       /\ g_kinds' = Append(g_kinds, k)
       /\ \E B \in {Some(SUBSET KindAttrs(k))} : Log([act |-> "new", kind |-> k, args |-> RandomArgs(KindAttrs(k), IF Some(1..2) = 1 THEN B \cup Required(k) ELSE B, TRUE)])
       /\ UNCHANGED g_res
SetOn(b) == \E a \in {Some(KindAttrs(g_kinds[b]))} :
       /\ g_kinds' = Append(g_kinds, g_kinds[b])
       /\ Log([act |-> "set", b |-> b, a |-> a, h |-> ArgFor(a)])
       /\ UNCHANGED g_res
\* two builders derived from the same one, or a chain
Set == /\ Len(g_kinds) > 0
       /\ \E b \in {IF Some(1..2) = 1 THEN Len(g_kinds) ELSE Some(1..Len(g_kinds))} : SetOn(b)
Build == /\ Len(g_kinds) > 0
         /\ \E b \in {Some(1..Len(g_kinds))} :
            /\ g_res' = Append(g_res, [kind |-> g_kinds[b], b |-> b])
            /\ Log([act |-> "build", b |-> b,
                    extra |-> IF g_kinds[b] = "create" THEN [user |-> Some(HandlesFor("user")), challenge |-> Some(HandlesFor("challenge"))]
                              ELSE [challenge |-> Some(HandlesFor("challenge")), allow_credentials |-> Some(HandlesFor("exclude_credentials") \cup {0})]])
            /\ UNCHANGED g_kinds
MutateH == /\ Log([act |-> "mut", h |-> Some(MutableHandles)]) /\ UNCHANGED <<g_kinds, g_res>>
MutateR == /\ Len(g_res) > 0
           /\ \E r \in {Some(1..Len(g_res))} :
              Log([act |-> "mutres", r |-> r, a |-> Some((KindAttrs(g_res[r].kind) \cup BuildArgs(g_res[r].kind)) \cap MutableAttrs)])
           /\ UNCHANGED <<g_kinds, g_res>>
Look == /\ Len(g_res) > 0
        /\ Log([act |-> "look", r |-> Some(1..Len(g_res))])
        /\ UNCHANGED <<g_kinds, g_res>>

\* weights by duplication: one action is drawn, the others are disabled
Next == /\ Len(g_hist) < DEPTH
        /\ \E d \in {Some(1..20)} :
           IF Len(g_kinds) = 0 \/ (d = 1 /\ Len(g_kinds) < 8) THEN New
           ELSE IF d <= 8 THEN Set
           ELSE IF d <= 14 THEN Build
           ELSE IF d <= 17 THEN MutateH
           ELSE IF d = 18 THEN IF Len(g_res) > 0 THEN MutateR ELSE Build
           ELSE IF Len(g_res) > 0 THEN Look ELSE Set
Spec == Init /\ [][Next]_genvars
Emit == Len(g_hist) = DEPTH => PrintT("@@" \o ToJson(g_hist))
=============================================================================
