-------------------------------- MODULE Heap ----------------------------------
(* Values in memory: cells that refer to cells, who owns them, and what a     *)
(* conversion may share (C22).                                                *)
(* H: sequence of cells [m, v, c]: whether the cell can be changed, its text, *)
(* addresses of its members.  A value is a tree [v, c].                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RECURSIVE Unfold(_, _)
Unfold(H, a) == [v |-> H[a].v, c |-> [i \in 1..Len(H[a].c) |-> Unfold(H, H[a].c[i])]]

RECURSIVE Reach(_, _)
Reach(H, a) == {a} \cup UNION {Reach(H, H[a].c[i]) : i \in 1..Len(H[a].c)}
Changeable(H, a) == {b \in Reach(H, a) : H[b].m}

\* each changeable cell at one place only
RECURSIVE Places(_, _)
Places(H, a) == LET RECURSIVE all(_)
                    all(i) == IF i > Len(H[a].c) THEN <<>> ELSE Places(H, H[a].c[i]) \o all(i + 1)
                IN (IF H[a].m THEN <<a>> ELSE <<>>) \o all(1)
Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)

-------------------------------------------------------------------------------
(* The requirement on a call: roots R of everything there is (as the caller   *)
(* can reach it) before the call, root r of the result.                       *)
Apart(H, R, r) == \A o \in DOMAIN R : Changeable(H, R[o]) \cap Changeable(H, r) = {}
Untouched(H, H2, R) == \A o \in DOMAIN R : Unfold(H2, R[o]) = Unfold(H, R[o])

(* Copies of the value at a: [h, a].  Parts that cannot change may be shared. *)
RECURSIVE Copied(_, _, _), CopyAll(_, _, _, _)
CopyAll(H, cs, share, out) ==
  IF cs = <<>> THEN [h |-> H, c |-> out]
  ELSE LET x == Copied(H, Head(cs), share) IN CopyAll(x.h, Tail(cs), share, Append(out, x.a))
Copied(H, a, share) ==
  IF share /\ Changeable(H, a) = {} THEN [h |-> H, a |-> a]
  ELSE LET x == CopyAll(H, H[a].c, share, <<>>) IN
       [h |-> Append(x.h, [H[a] EXCEPT !.c = x.c]), a |-> Len(x.h) + 1]

(* The caller changes cell b: appends the member z                            *)
Change(H, b, z) == [H EXCEPT ![b].c = Append(@, z)]
===============================================================================
