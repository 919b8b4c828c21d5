-------------------------------- MODULE Topo --------------------------------
(* Dependency graphs.  A graph G is a function from nodes to sets of nodes;  *)
(* an edge from a node to itself does not count.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Succ(G, n) == G[n] \ {n}

(* The machine: any node may be listed when everything it points to is. *)
CanList(G, out, n) == n \notin Range(out) /\ Succ(G, n) \subseteq Range(out)

\* nodes reachable in one or more steps
RECURSIVE Grow(_, _)
Grow(G, seen) == LET more == seen \union UNION {Succ(G, n) : n \in seen} IN IF more = seen THEN seen ELSE Grow(G, more)
After(G, n) == Grow(G, Succ(G, n))
OnCycle(G) == {n \in DOMAIN G : n \in After(G, n)}
\* the same without looking at each node: what cannot be taken away
RECURSIVE Peel(_, _)
Peel(G, rest) == LET stay == {n \in rest : Succ(G, n) \intersect rest # {}} IN IF stay = rest THEN rest ELSE Peel(G, stay)
Cyclic(G) == Peel(G, DOMAIN G) # {}

\* a list is a run of the machine that cannot be continued because all is listed
IsRun(G, out) == \A i \in 1..Len(out) : out[i] \in DOMAIN G /\ CanList(G, SubSeq(out, 1, i - 1), out[i])
Sorted(G, out) == IsRun(G, out) /\ Range(out) = DOMAIN G
=============================================================================
