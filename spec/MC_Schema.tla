------------------------------ MODULE MC_Schema -----------------------------
(* The schema generator, the converter and a validator side by side, over    *)
(* the grid: the schema of a type is produced, then values and documents are *)
(* checked against it.                                                       *)
EXTENDS Grid, Schema

EnvS == [cls |-> Env.cls, enm |-> Env.enm, als |-> Env.als,
  doc |-> [P |-> [s |-> <<"A pair.">>, l |-> <<"Of two things.">>, p |-> <<[n |-> "a", d |-> "first"]>>],
           Q |-> [s |-> <<"Q">>, l |-> <<>>, p |-> <<>>],
           ES |-> [s |-> <<"Letters.">>, l |-> <<>>, p |-> <<>>]],
  base |-> [P |-> ""],
  reg |-> [X |-> [id |-> "Ex", s |-> <<JMap(<<Kw("type", "string")>>)>>, x |-> <<>>],
           N |-> [id |-> "N", s |-> <<>>, x |-> <<JArr(<<Str("example")>>)>>],
           EI |-> [id |-> "EI", s |-> <<>>, x |-> <<>>]]]
Plain == [path |-> "#/definitions/", desc |-> TRUE, ex |-> TRUE, fun |-> FALSE]
Options == {Plain, [Plain EXCEPT !.path = "#/x/y/"], [Plain EXCEPT !.desc = FALSE], [Plain EXCEPT !.ex = FALSE], [Plain EXCEPT !.fun = TRUE]}

\* members of a union that no document satisfies both
Kinds == [bool |-> {"bool"}, int |-> {"num"}, float |-> {"num"}, str |-> {"str"}, date |-> {"str"}]
Exclusive(t) == t.k = "union" => t.a[1].k # t.a[2].k /\ (Len(t.a) = 2 /\ t.a[2].k = "none")

VARIABLES pc, typ, schema, item
vars == <<pc, typ, schema, item>>
Init == pc = "start" /\ typ \in AllTypes /\ schema = Null /\ item = <<>>
Generate == pc = "start" /\ pc' = "schema" /\ schema' = Document(typ, EnvS, Plain) /\ UNCHANGED <<typ, item>>
PickValue == pc = "schema" /\ pc' = "value" /\ \E v \in Vals_(typ) : item' = <<v>> /\ UNCHANGED <<typ, schema>>
PickDoc == pc = "schema" /\ pc' = "doc" /\ \E j \in Docs : item' = <<j>> /\ UNCHANGED <<typ, schema>>
Next == Generate \/ PickValue \/ PickDoc
Spec == Init /\ [][Next]_vars

G(shape) == [root |-> schema, shape |-> shape, rx |-> <<>>]
\* every reference is defined
Closed == pc = "schema" => AllDefined(schema)
\* values of the type are accepted, unless members of a union overlap
Accepts == (pc = "value" /\ Exclusive(typ)) =>
  LET J == Ser(item[1], EnvS) IN Valid(schema, J, G(FALSE)) \/ (\E i \in 1..Len(typ.a) : typ.a[i].k = "union")
AcceptsShape == pc = "value" => Valid(schema, Ser(item[1], EnvS), G(TRUE))
\* what the deserializer accepts has the shape that the schema describes
Shaped == pc = "doc" => (D(typ, item[1], FALSE, EnvS).a = "yes" => Valid(schema, item[1], G(TRUE)))
\* options change only what they name
Names(J) == IF J.k = "map" THEN {J.m[i].n : i \in 1..Len(J.m)} ELSE {}
RECURSIVE Strip(_)
Strip(J) ==
  IF J.k = "map" THEN
    LET keep(e) == ~(e.n \in {"title", "description", "examples"} /\ e.j.k \in {"str", "arr"}) 
        s == SelectSeq(J.m, keep) IN JMap([i \in 1..Len(s) |-> P(s[i].n, IF s[i].n = "$ref" THEN Null ELSE Strip(s[i].j))])
  ELSE IF J.k = "arr" THEN JArr([i \in 1..Len(J.a) |-> Strip(J.a[i])]) ELSE J
OptionsInert == pc = "schema" => \A o \in Options : SameSchema(Strip(Document(typ, EnvS, o)), Strip(schema))

CasesS == LET ts == Sequenced(AllTypes) IN TLCEval([i \in 1..Len(ts) |-> [T |-> ts[i], V |-> Sequenced(Vals_(ts[i]))]])
ASSUME "CASES" \in DOMAIN IOEnv => /\ ndJsonSerialize(IOEnv.CASES, CasesS)
                                   /\ ndJsonSerialize(IOEnv.CASES \o ".2", Sequenced(Docs))
                                   /\ JsonSerialize(IOEnv.CASES \o ".3", <<EnvS>>)
=============================================================================
