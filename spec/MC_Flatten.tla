------------------------------ MODULE MC_Flatten ------------------------------
(* Object schemas of three levels, hoisted one property at a time in every    *)
(* order, end up as the flattened schema.                                     *)
EXTENDS Flatten, Json, IOUtils, CSV

Deep == "DEEP" \in DOMAIN IOEnv
Leaf == Simple("string")
Open == Simple("object")
Link == JMap(<<Kw("$ref", "#/definitions/X")>>)
Object(ps, needs) ==      \* ps: sequence of P; needs: a set of names
  LET isneeded(p) == p.n \in needs  ns == SelectSeq(ps, isneeded)
      a == JMap(<<Kw("type", "object"), P("properties", JMap(ps)), P("additionalProperties", JFalse)>>)
  IN IF ns = <<>> THEN a ELSE Put(a, "required", JArr([i \in 1..Len(ns) |-> JStr(ns[i].n)]))
Solo(n, js) == {Object(<<P(n, j)>>, needs) : j \in js, needs \in {{}, {n}}}
Duo(n, m, js, ks) == {Object(<<P(n, j), P(m, k)>>, needs) : j \in js, k \in ks, needs \in SUBSET {n, m}}
Inner == Solo("e", {Leaf}) \cup {Object(<<>>, {})}
Middle == Solo("c", {Leaf, Open} \cup Inner) \cup Duo("c", "d", {Leaf, Open} \cup Inner, {Leaf, Open} \cup Inner)
Trees == Solo("a", {Leaf, Link, Open} \cup Middle) \cup Duo("a", "b", {Leaf, Link} \cup Middle, {Leaf} \cup Solo("f", Inner) \cup (IF Deep THEN Middle \cup {Link} ELSE {}))

VARIABLES start, cur, q, rec, todo
vars == <<start, cur, q, rec, todo>>
Names(J) == {Props(J)[i].n : i \in {i \in 1..Len(Props(J)) : Nested(Props(J)[i].j)}}
Init == /\ start \in Trees /\ cur = start /\ q \in BOOLEAN /\ rec \in BOOLEAN
        /\ ~Collides(start, q, rec) /\ todo = (IF rec THEN {} ELSE Names(start))
Step(i) ==
  LET p == Props(cur)[i] IN
  /\ Nested(p.j) /\ (~rec => p.n \in todo)
  /\ cur' = TLCEval(Hoist(cur, i, q)) /\ todo' = todo \ {p.n} /\ UNCHANGED <<start, q, rec>>
Next == \E i \in 1..Len(Props(cur)) : Step(i)
Spec == Init /\ [][Next]_vars

Stuck == ~ENABLED Next
\* whatever the order, the result is the same
Confluent == Stuck => SameSchema(Put(cur, "additionalProperties", JFalse), Flattened(start, q, rec))
\* all levels: the properties are the leaves
RECURSIVE Leaves(_)
Leaves(J) == IF ~Nested(J) THEN 1 ELSE LET r[i \in 0..Len(Props(J))] == IF i = 0 THEN 0 ELSE r[i - 1] + Leaves(Props(J)[i].j) IN r[Len(Props(J))]
NoneLost == Leaves(cur) = Leaves(start)
\* flattening everything again changes nothing
Settled == (cur = start /\ rec) => LET f == Flattened(start, q, TRUE) IN SameSchema(Flattened(f, q, TRUE), f)
Dump == (cur = start /\ "CASES" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson([J |-> start, q |-> q, rec |-> rec])>>, IOEnv.CASES)
===============================================================================
