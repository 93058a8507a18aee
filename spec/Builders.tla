------------------------------ MODULE Builders ------------------------------
(* Option builders as persistent values.                                     *)
(*                                                                           *)
(* A cell stands for an object that the caller, a builder and the options    *)
(* built from it may share; its value is the set of contents it may legally  *)
(* show.  Setting an attribute gives a new builder that shares the cell of   *)
(* the passed object for that attribute and has cells of its own, with what  *)
(* they may show now, for all others.  Mutating an object adds a content to  *)
(* its cell and to no other.  Contents are numbers: 0 is "none", 1..3 are    *)
(* the three default values.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets

KindAttrs(k) ==
  IF k = "create" THEN {"rp", "pub_key_cred_params", "timeout", "authenticator_selection", "extensions", "attestation",
                        "exclude_credentials"}
  ELSE {"mediation", "timeout", "rp_id", "extensions", "user_verification"}
BuildArgs(k) == IF k = "create" THEN {"user", "challenge"} ELSE {"challenge", "allow_credentials"}
Required(k) == IF k = "create" THEN {"rp", "pub_key_cred_params", "attestation"} ELSE {"mediation"}
\* attributes whose setter takes no none
NotNone(k) == Required(k)
Default(a) == CASE a = "attestation" -> 1 [] a = "mediation" -> 2 [] a = "user_verification" -> 3 [] OTHER -> 0

\* st: [cells: Seq(SUBSET Nat), bl: Seq([kind, f]), hd: Seq(cell), rs: Seq([kind, f])]
Start == [cells |-> <<{0}>>, bl |-> <<>>, hd |-> <<>>, rs |-> <<>>]
NoneCell == 1

NewHandle(st, c) == [st EXCEPT !.cells = Append(@, {c}), !.hd = Append(@, Len(st.cells) + 1)]
CellOf(st, h) == IF h = 0 THEN NoneCell ELSE st.hd[h]

\* attributes given numbers, to give each its own fresh cell
RECURSIVE Number(_)
Number(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Number(S \ {x})
Index(s, a) == CHOOSE i \in 1..Len(s) : s[i] = a

\* args: function from a set of attributes to handles (0: none)
NewBuilder(st, kind, args) ==
  LET A == KindAttrs(kind)
      order == Number(A)
      base == Len(st.cells)
  IN [st EXCEPT !.cells = @ \o [i \in 1..Len(order) |-> {Default(order[i])}],
                !.bl = Append(@, [kind |-> kind,
                                  f |-> [a \in A |-> IF a \in DOMAIN args THEN CellOf(st, args[a]) ELSE base + Index(order, a)]])]

Derive(st, b, attr, h) ==
  LET old == st.bl[b]
      A == KindAttrs(old.kind)
      order == Number(A)
      base == Len(st.cells)
  IN [st EXCEPT !.cells = @ \o [i \in 1..Len(order) |-> st.cells[old.f[order[i]]]],
                !.bl = Append(@, [kind |-> old.kind,
                                  f |-> [a \in A |-> IF a = attr THEN CellOf(st, h) ELSE base + Index(order, a)]])]

CanBuild(st, b) == \A a \in Required(st.bl[b].kind) : st.cells[st.bl[b].f[a]] # {0}
\* extra: function from BuildArgs to handles
BuildResult(st, b, extra) ==
  LET bb == st.bl[b] IN
  [kind |-> bb.kind, f |-> [a \in KindAttrs(bb.kind) \cup BuildArgs(bb.kind) |->
                             IF a \in KindAttrs(bb.kind) THEN bb.f[a]
                             ELSE IF a \in DOMAIN extra THEN CellOf(st, extra[a]) ELSE NoneCell]]
Built(st, b, extra) == [st EXCEPT !.rs = Append(@, BuildResult(st, b, extra))]

MutateCell(st, cell, c) == [st EXCEPT !.cells[cell] = @ \cup {c}]
Mutate(st, h, c) == MutateCell(st, st.hd[h], c)
MutateResult(st, r, a, c) == MutateCell(st, st.rs[r].f[a], c)

\* may result r show these contents?
MayShow(st, r, seen) == \A a \in DOMAIN st.rs[r].f : seen[a] \in st.cells[st.rs[r].f[a]]
WrongAttrs(st, r, seen) == {a \in DOMAIN st.rs[r].f : seen[a] \notin st.cells[st.rs[r].f[a]]}
=============================================================================
