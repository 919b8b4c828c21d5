-------------------------------- MODULE Deps --------------------------------
(* The types that a type expression refers to.  Types are named: a builtin   *)
(* or library type by its kind, a declared class or enumeration by its name. *)
EXTENDS Model, Topo

\* types that a type expression mentions; references stand for what they name
RECURSIVE Mentions(_, _, _)
Mentions(T, E, st) ==
  CASE T.k \in {"none", "any"} -> {}
    [] T.k = "lit" -> {}
    [] T.k \in {"cls", "enum"} -> {T.n}
    [] T.k = "ref" -> IF Has(E.als, T.n) THEN (IF T.n \in st THEN {} ELSE Mentions(E.als[T.n], E, st \union {T.n})) ELSE {T.n}
    [] T.k \in {"json", "sjson"} -> {"bool", "int", "float", "str"}
    [] T.k \in {"list", "set", "fset", "dict", "tuple", "union", "ann"} -> UNION {Mentions(T.a[i], E, st) : i \in 1..Len(T.a)}
    [] OTHER -> {T.k}

\* types that a declared class refers to directly; other types refer to nothing
Direct(n, E) == IF Has(E.cls, n) /\ E.cls[n].kind \notin {"custom", "untyped", "unt"} THEN UNION {Mentions(E.cls[n].f[i].t, E, {}) : i \in 1..Len(E.cls[n].f)} ELSE {}
RECURSIVE Closure(_, _, _)
Closure(seen, E, extra) ==
  LET more == seen \union UNION {Direct(n, E) \union (IF Has(extra, n) THEN Range(extra[n]) ELSE {}) : n \in seen} IN
  IF more = seen THEN seen ELSE Closure(more, E, extra)
NoExtra == [x \in {} |-> <<>>]

References(T, E) == Closure(Mentions(T, E, {}), E, NoExtra)

\* dependency graph of given types with extra dependencies
Graph(types, E, extra) ==
  LET nodes == Closure(UNION {Mentions(types[i], E, {}) : i \in 1..Len(types)}, E, extra)
  IN TLCEval([n \in nodes |-> Direct(n, E) \union (IF Has(extra, n) THEN Range(extra[n]) ELSE {})])
=============================================================================
