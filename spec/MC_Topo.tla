------------------------------- MODULE MC_Topo -------------------------------
(* All graphs of up to MaxNodes nodes, and all ways of listing them.         *)
EXTENDS Topo, Json, IOUtils, CSV

Deep == "DEEP" \in DOMAIN IOEnv
Sizes == 0..(IF Deep THEN 4 ELSE 3)
Nodes(k) == 1..k
Graphs == UNION {[Nodes(k) -> SUBSET Nodes(k)] : k \in Sizes}

VARIABLES graph, out
vars == <<graph, out>>

Dump(g) == "CASES" \notin DOMAIN IOEnv \/ CSVWrite("%1$s", <<ToJson([i \in 1..Cardinality(DOMAIN g) |-> g[i]])>>, IOEnv.CASES)
Init == graph \in Graphs /\ out = <<>>
List(n) == CanList(graph, out, n) /\ out' = Append(out, n) /\ UNCHANGED graph
Next == \E n \in DOMAIN graph : List(n)
Spec == Init /\ [][Next]_vars

Once == Cardinality(Range(out)) = Len(out)
AfterDependencies == \A i \in 1..Len(out) : \A m \in Succ(graph, out[i]) : \E j \in 1..(i - 1) : out[j] = m
\* the machine gets stuck exactly if there is a cycle: no choice of an order can help or harm
Stuck == ~ENABLED Next
NeverStuckInVain == Stuck => (Len(out) < Cardinality(DOMAIN graph) <=> Cyclic(graph))
Agrees == Len(out) = Cardinality(DOMAIN graph) => Sorted(graph, out)
Peels == out = <<>> => (Cyclic(graph) <=> OnCycle(graph) # {})
Dumped == out # <<>> \/ Dump(graph)
=============================================================================
