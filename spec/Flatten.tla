------------------------------- MODULE Flatten -------------------------------
(* Flattening of object schemas (C14).  A schema is a JSON document.          *)
EXTENDS Schema, FiniteSets

Props(J) == IF HasMember(J, "properties") THEN Member(J, "properties").m ELSE <<>>
Needed(J) == IF HasMember(J, "required") THEN LET a == Member(J, "required").a IN {a[i].v : i \in 1..Len(a)} ELSE {}
IsObject(J) == J.k = "map" /\ HasMember(J, "type") /\ Member(J, "type") = JStr("object")
Nested(J) == IsObject(J) /\ Props(J) # <<>>
Under(name, n, qualified) == IF qualified THEN name \o "." \o n ELSE n

RECURSIVE FlatProps(_, _, _), FlatNeeded(_, _, _), Gather(_, _, _, _)
Gather(ps, q, rec, done) ==
  IF ps = <<>> THEN done
  ELSE LET p == Head(ps)
           inner == IF ~Nested(p.j) THEN <<p>>
                    ELSE LET sub == IF rec THEN FlatProps(p.j, q, rec) ELSE Props(p.j) IN [i \in 1..Len(sub) |-> P(Under(p.n, sub[i].n, q), sub[i].j)]
       IN Gather(Tail(ps), q, rec, TLCEval(done \o inner))
FlatProps(J, q, rec) == Gather(Props(J), q, rec, <<>>)
FlatNeeded(J, q, rec) ==
  UNION {LET p == Props(J)[i] IN
         IF ~Nested(p.j) THEN (IF p.n \in Needed(J) THEN {p.n} ELSE {})
         ELSE {Under(p.n, n, q) : n \in IF rec THEN FlatNeeded(p.j, q, rec) ELSE Needed(p.j)} : i \in 1..Len(Props(J))}
Collides(J, q, rec) == LET ps == FlatProps(J, q, rec) IN Cardinality({ps[i].n : i \in 1..Len(ps)}) < Len(ps)

Others(J) == LET other(e) == e.n \notin {"properties", "required", "additionalProperties"} IN JMap(SelectSeq(J.m, other))
Flattened(J, q, rec) ==
  LET ps == TLCEval(FlatProps(J, q, rec))
      needs == TLCEval(FlatNeeded(J, q, rec))
      isneeded(p) == p.n \in needs
      ns == SelectSeq(ps, isneeded)
      a == IF ps = <<>> THEN Others(J) ELSE Put(Others(J), "properties", JMap(ps))
      b == IF ns = <<>> THEN a ELSE Put(a, "required", JArr([i \in 1..Len(ns) |-> JStr(ns[i].n)]))
  IN Put(b, "additionalProperties", JFalse)

\* One property is hoisted
Hoist(J, i, q) ==
  LET p == Props(J)[i]
      sub == Props(p.j)
      ps == SubSeq(Props(J), 1, i - 1) \o [k \in 1..Len(sub) |-> P(Under(p.n, sub[k].n, q), sub[k].j)] \o SubSeq(Props(J), i + 1, Len(Props(J)))
      needs == (Needed(J) \ {p.n}) \cup {Under(p.n, n, q) : n \in Needed(p.j)}
      isneeded(x) == x.n \in needs
      ns == SelectSeq(ps, isneeded)
      a == Put(Others(J), "properties", JMap(ps))
  IN IF ns = <<>> THEN a ELSE Put(a, "required", JArr([k \in 1..Len(ns) |-> JStr(ns[k].n)]))

RECURSIVE Rounded(_)
Rounded(J) ==           \* 1.0 is 1
  CASE J.k = "float" -> LET n == Norm(J.v) IN IF EndsWith(J.v, ".0") /\ n.s # 0 THEN [k |-> "int", v |-> SubSeq(J.v, 1, Len(J.v) - 2)]
                                              ELSE IF n.s = 0 THEN [k |-> "int", v |-> "0"] ELSE J
    [] J.k = "arr" -> [J EXCEPT !.a = [i \in 1..Len(J.a) |-> Rounded(J.a[i])]]
    [] J.k = "map" -> [J EXCEPT !.m = [i \in 1..Len(J.m) |-> [n |-> J.m[i].n, j |-> Rounded(J.m[i].j)]]]
    [] OTHER -> J
==============================================================================
