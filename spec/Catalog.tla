------------------------------- MODULE Catalog -------------------------------
(* The catalog of registered types: a function from types to registrations,  *)
(* and the schemas that are generated under it.                              *)
EXTENDS SchemaDiff

Under(E, reg) == [E EXCEPT !.reg = reg]
IdOf(reg, n) == IF n \in DOMAIN reg THEN reg[n].id ELSE n

\* registration: refused for a type that is registered
CanRegister(reg, n) == n \notin DOMAIN reg
WithRegistration(reg, n, r) == (n :> r) @@ reg

(* Schemas are first written with each type under a name of its own, then    *)
(* the identifiers are put in.  An identifier that would stand for several   *)
(* types makes the schema impossible.                                        *)
Own(reg) == [n \in DOMAIN reg |-> [reg[n] EXCEPT !.id = n]]
RECURSIVE Renamed(_, _, _)
Renamed(J, reg, O) ==
  IF J.k = "arr" THEN [J EXCEPT !.a = [i \in 1..Len(J.a) |-> Renamed(J.a[i], reg, O)]]
  ELSE IF J.k # "map" THEN J
  ELSE JMap([i \in 1..Len(J.m) |->
         IF J.m[i].n = "$ref" /\ J.m[i].j.k = "str" /\ StartsWith(J.m[i].j.v, O.path)
         THEN Kw("$ref", O.path \o IdOf(reg, Drop(J.m[i].j.v, Len(O.path))))
         ELSE IF J.m[i].n \in {"const", "enum", "default", "examples"} THEN J.m[i]
         ELSE P(J.m[i].n, Renamed(J.m[i].j, reg, O))])
Wrote(T, force, reg, E, O) ==
  LET F == Under(E, Own(reg)) IN
  IF force THEN Forced(T, F, O) ELSE Document(T, F, O)
Names(doc) == IF HasMember(doc, "definitions") /\ Member(doc, "definitions").k = "map"
              THEN {Member(doc, "definitions").m[i].n : i \in 1..Len(Member(doc, "definitions").m)} ELSE {}
Conflict(names, reg) == \E a, b \in names : a # b /\ IdOf(reg, a) = IdOf(reg, b)
Served(doc, reg, O) ==
  LET names == Names(doc)
      body == IF names = {} THEN doc ELSE DropMember(doc, "definitions")
      defs == Member(doc, "definitions").m
      top == Renamed(body, reg, O)
  IN IF names = {} THEN top
     ELSE Put(top, "definitions", JMap([i \in 1..Len(defs) |-> P(IdOf(reg, defs[i].n), Renamed(defs[i].j, reg, O))]))
=============================================================================
