----------------------------- MODULE BuilderHeap -----------------------------
(* The builders as they are implemented, on a heap of mutable objects, in    *)
(* lockstep with the abstract ones (Builders).  CopyMode is how a setter     *)
(* copies the builder: "deep" (the implementation), "shallow" or "inplace"   *)
(* (which must both break an invariant), "eager" (a deep copy that copies    *)
(* the passed object too: another correct implementation), "lazy" (shared    *)
(* until built, copied there: broken).                                       *)
EXTENDS Builders, TLC

CONSTANTS CopyMode, MaxBuilders, MaxMutations, MaxResults

\* two attributes are enough: both required, one mutable object each
Attrs == {"rp", "pub_key_cred_params"}
VARIABLES heap,    \* heap[o]: content of object o (object 1 is none)
          conc,    \* conc[b]: attribute -> object, or the builder it is the same object as
          hands,   \* handle -> object
          res,     \* built results: attribute -> object
          next_c,  \* next fresh content
          muts,
          abs_st   \* the abstract state
heapvars == <<heap, conc, hands, res, next_c, muts, abs_st>>

Alloc(hp, c) == Append(hp, c)

Init ==
  /\ heap = <<0, 4, 5>>
  /\ hands = <<2, 3>>
  /\ conc = <<[a \in Attrs |-> 1]>>
  /\ res = <<>> /\ next_c = 6 /\ muts = 0
  /\ abs_st = NewBuilder(NewHandle(NewHandle(Start, 4), 5), "create", [a \in {} |-> 0])

Set(b, a, h) ==
  /\ Len(conc) < MaxBuilders
  /\ abs_st' = Derive(abs_st, b, a, h)
  /\ LET old == conc[b]
         others == CHOOSE x \in Attrs : x # a
         n == Len(heap)
     IN CASE CopyMode = "deep" ->
               /\ heap' = IF old[others] = 1 THEN heap ELSE Alloc(heap, heap[old[others]])
               /\ conc' = Append(conc, [x \in Attrs |-> IF x = a THEN hands[h] ELSE IF old[x] = 1 THEN 1 ELSE n + 1])
          [] CopyMode = "eager" ->
               /\ heap' = (IF old[others] = 1 THEN heap ELSE Alloc(heap, heap[old[others]])) \o <<heap[hands[h]]>>
               /\ conc' = Append(conc, [x \in Attrs |-> IF x = a THEN Len(heap') ELSE IF old[x] = 1 THEN 1 ELSE n + 1])
          [] CopyMode \in {"shallow", "lazy"} ->
               /\ heap' = heap
               /\ conc' = Append(conc, [x \in Attrs |-> IF x = a THEN hands[h] ELSE old[x]])
          [] CopyMode = "inplace" ->
               /\ heap' = heap
               /\ LET new == [x \in Attrs |-> IF x = a THEN hands[h] ELSE old[x]]
                  IN conc' = Append([conc EXCEPT ![b] = new], new)
  /\ UNCHANGED <<hands, res, next_c, muts>>

Build(b) ==
  /\ Len(res) < MaxResults
  /\ CanBuild(abs_st, b)
  /\ abs_st' = Built(abs_st, b, [a \in {} |-> 0])
  /\ IF CopyMode = "lazy"
     THEN /\ heap' = heap \o <<heap[conc[b]["rp"]], heap[conc[b]["pub_key_cred_params"]]>>
          /\ res' = Append(res, [rp |-> Len(heap) + 1, pub_key_cred_params |-> Len(heap) + 2])
     ELSE heap' = heap /\ res' = Append(res, conc[b])
  /\ UNCHANGED <<conc, hands, next_c, muts>>

MutHandle(h) ==
  /\ muts < MaxMutations
  /\ heap' = [heap EXCEPT ![hands[h]] = next_c]
  /\ abs_st' = Mutate(abs_st, h, next_c)
  /\ next_c' = next_c + 1 /\ muts' = muts + 1
  /\ UNCHANGED <<conc, hands, res>>

MutRes(r, a) ==
  /\ muts < MaxMutations
  /\ heap' = [heap EXCEPT ![res[r][a]] = next_c]
  /\ abs_st' = MutateResult(abs_st, r, a, next_c)
  /\ next_c' = next_c + 1 /\ muts' = muts + 1
  /\ UNCHANGED <<conc, hands, res>>

Next == \/ \E b \in 1..Len(conc), h \in 1..2 : Set(b, IF h = 1 THEN "rp" ELSE "pub_key_cred_params", h)
        \/ \E b \in 1..Len(conc) : Build(b)
        \/ \E h \in 1..2 : MutHandle(h)
        \/ \E r \in 1..Len(res), a \in Attrs : MutRes(r, a)
Spec == Init /\ [][Next]_heapvars

\* whatever is built now, or was built before, shows only what it may
ResultsFaithful ==
  \A r \in 1..Len(res) : \A a \in Attrs : heap[res[r][a]] \in abs_st.cells[abs_st.rs[r].f[a]]
BuildersFaithful ==
  \A b \in 1..Len(conc) : \A a \in Attrs : heap[conc[b][a]] \in abs_st.cells[abs_st.bl[b].f[a]]
\* a builder that was complete stays complete, an incomplete one incomplete
Complete ==
  \A b \in 1..Len(conc) : (\A a \in Attrs : conc[b][a] # 1) <=> CanBuild(abs_st, b)
=============================================================================
