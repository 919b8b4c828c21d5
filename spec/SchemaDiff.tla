----------------------------- MODULE SchemaDiff -----------------------------
(* Types written in place, and where two schemas differ.                     *)
EXTENDS Schema

NotJson(j) == j.k = "alien"
RECURSIVE Diff(_, _)
Diff(x, y) ==
  IF x.k = "map" /\ y.k = "map" THEN
    LET lost == {i \in 1..Len(x.m) : ~HasMember(y, x.m[i].n)}
        more == {i \in 1..Len(y.m) : ~HasMember(x, y.m[i].n)}
        other == {i \in 1..Len(x.m) : HasMember(y, x.m[i].n) /\ ~JEq(x.m[i].j, Member(y, x.m[i].n), x.m[i].n)}
    IN IF lost # {} THEN ": lacks " \o x.m[CHOOSE i \in lost : TRUE].n
       ELSE IF more # {} THEN ": has " \o y.m[CHOOSE i \in more : TRUE].n
       ELSE IF other # {} THEN LET e == x.m[CHOOSE i \in other : TRUE] IN "/" \o e.n \o Diff(e.j, Member(y, e.n))
       ELSE ""
  ELSE ": differs"

\* a reference to the JSON type and its definition mean the same
RECURSIVE Fold(_, _)
Fold(J, O) ==
  IF J.k = "arr" THEN [J EXCEPT !.a = [i \in 1..Len(J.a) |-> Fold(J.a[i], O)]]
  ELSE IF J.k # "map" THEN J
  ELSE LET F == TLCEval([J EXCEPT !.m = [i \in 1..Len(J.m) |-> P(J.m[i].n, Fold(J.m[i].j, O))]]) IN
       IF ~HasMember(F, "oneOf") \/ Member(F, "oneOf").k # "arr" THEN F
       ELSE LET n == Len(Member(F, "oneOf").a)
                one == JMap(<<P("oneOf", Member(F, "oneOf"))>>)
                kind == IF n = 7 /\ SameSchema(one, S([k |-> "union", a |-> <<[k |-> "none"]>> \o JsonItems], <<>>, [als |-> <<>>], O)) THEN "JsonType"
                        ELSE IF n = 6 /\ SameSchema(one, S([k |-> "union", a |-> StrictItems], <<>>, [als |-> <<>>], O)) THEN "StrictJsonType"
                        ELSE ""
            IN IF kind = "" THEN F ELSE PutAll(RefTo(kind, O), DropMember(F, "oneOf").m)
Report(expected, actual) == "bad:not the schema of the type, at " \o Diff(expected, actual)

\* a registered type written in place
RECURSIVE InPlace(_, _, _), Explicit(_, _)
InPlace(T, E, O) ==
  IF T.k = "ann" /\ Flatten(T).a[1].k \in {"cls", "enum", "json", "sjson"} THEN InPlace(Flatten(T).a[1], E, O)
  ELSE IF T.k = "json" THEN S([k |-> "union", a |-> <<[k |-> "none"]>> \o JsonItems], <<>>, E, O)
  ELSE IF T.k = "sjson" THEN S([k |-> "union", a |-> StrictItems], <<>>, E, O)
  ELSE IF T.k = "cls" /\ Registered(T.n, E) THEN ClassSchema(T.n, <<>>, E, O)
  ELSE IF T.k = "enum" /\ Registered(T.n, E) THEN EnumSchema(T.n, E, O)
  ELSE S(T, <<>>, E, O)
Forced(T, E, O) ==
  LET top == TLCEval(InPlace(T, E, O))  defs == Defined(RefIds(top, O), <<>>, E, O) IN
  IF defs = <<>> THEN top ELSE Put(top, "definitions", JMap(defs))
Explicit(T, E) == IF T.k = "ann" THEN Explicit(T.a[1], E) ELSE T.k \in {"cls", "enum"} /\ Registered(T.n, E) /\ E.reg[T.n].s # <<>>
=============================================================================
