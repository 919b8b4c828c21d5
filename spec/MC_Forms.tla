------------------------------- MODULE MC_Forms ------------------------------
(* Type expressions grown step by step from atoms: written down and read     *)
(* back, named, classified and taken apart.                                  *)
EXTENDS Forms, Json, IOUtils, CSV

Deep == "DEEP" \in DOMAIN IOEnv
MaxDepth == IF Deep THEN 3 ELSE 2

Kinds == [A |-> "dc", B |-> "nt", C |-> "plain"]
N(n) == [mk |-> "note", s |-> n, i |-> <<>>]
D_(s) == [mk |-> "doc", s |-> s, i |-> <<>>]
LitV(k, v) == [k |-> k, v |-> v]
Atoms == {Ty("none"), Ty("any"), Ty("int"), Ty("str"), [k |-> "cls", n |-> "A"], [k |-> "cls", n |-> "B"], [k |-> "enum", n |-> "Color"],
  [k |-> "aux", n |-> "int16"], [k |-> "aux", n |-> "float32"], [k |-> "tvar", n |-> "T"],
  [k |-> "lit", v |-> <<LitV("str", "a"), LitV("int", "1")>>], [k |-> "lit", v |-> <<[k |-> "enum", n |-> "Color", v |-> "RED"]>>]}
\* the other operands of a form
Others == IF Deep THEN {Ty("none"), Ty("str"), [k |-> "cls", n |-> "C"]} ELSE {Ty("none"), Ty("str")}
AnnOk(t) == TRUE
Around(t) ==
  {TyA("list", <<t>>), TyA("set", <<t>>), TyA("fset", <<t>>), TyA("vtuple", <<t>>), TyA("tuple", <<t>>), TyA("type", <<t>>)}
  \cup {TyA("dict", <<u, t>>) : u \in Others} \cup {TyA("dict", <<t, u>>) : u \in Others}
  \cup {TyA("tuple", <<t, u>>) : u \in Others} \cup {TyA("tuple", <<>>)}
  \cup {TyA("union", <<t, u>>) : u \in Others} \cup {TyA("union", <<u, t>>) : u \in Others}
  \cup {TyA("union", <<t, Ty("bool"), Ty("none")>>), TyA("union", <<Ty("none"), Ty("bool"), t>>)}
  \cup {[k |-> "ann", a |-> <<t>>, m |-> m] : m \in {<<N("x")>>, <<D_("d"), N("y")>>}}
  \cup {[k |-> "call", p |-> "args", a |-> <<t, Ty("int")>>], [k |-> "call", p |-> "args", a |-> <<Ty("int"), t>>], [k |-> "call", p |-> "args", a |-> <<t>>],
        [k |-> "call", p |-> "dots", a |-> <<t>>], [k |-> "call", p |-> "pspec", a |-> <<[k |-> "pspec", n |-> "P"], t>>]}
  \cup {[k |-> "gen", n |-> "G", a |-> <<t>>]}
\* an annotation that completes a fixed-width alias is that alias
Extra == {[k |-> "ann", a |-> <<Ty("int")>>, m |-> Aux["int16"].m \o <<N("x")>>], [k |-> "ann", a |-> <<Ty("int")>>, m |-> <<N("x")>> \o Aux["int16"].m],
          [k |-> "ann", a |-> <<Ty("int")>>, m |-> Aux["uint8"].m], [k |-> "ann", a |-> <<Ty("int")>>, m |-> SubSeq(Aux["uint8"].m, 1, 2)],
          [k |-> "ann", a |-> <<Ty("float")>>, m |-> Aux["float64"].m \o <<N("x"), D_("d")>>]}

NS == [None |-> Ty("none"), Any |-> Ty("any"), Self |-> Ty("self"), bool |-> Ty("bool"), int |-> Ty("int"), float |-> Ty("float"), str |-> Ty("str"),
  A |-> [k |-> "cls", n |-> "A"], B |-> [k |-> "cls", n |-> "B"], C |-> [k |-> "cls", n |-> "C"], Color |-> [k |-> "enum", n |-> "Color"],
  T |-> [k |-> "tvar", n |-> "T"], P |-> [k |-> "pspec", n |-> "P"], G |-> [k |-> "origin", i |-> 1],
  int8 |-> Aux["int8"], int16 |-> Aux["int16"], uint8 |-> Aux["uint8"], float32 |-> Aux["float32"], float64 |-> Aux["float64"]]

VARIABLES typ, depth
vars == <<typ, depth>>
Dump(t) == "CASES" \notin DOMAIN IOEnv \/ CSVWrite("%1$s", <<ToJson(t)>>, IOEnv.CASES)
Init == typ \in Atoms \cup Extra /\ depth = 0
Next == depth < MaxDepth /\ depth' = depth + 1 /\ typ' \in Around(typ)
Spec == Init /\ [][Next]_vars

T == Canon(typ)
Bar == [bar |-> TRUE, names |-> FALSE, val |-> FALSE]
Old == [bar |-> FALSE, names |-> TRUE, val |-> FALSE]
Stable == TEq(Canon(T), T)
ReadsBack == TEq(Denote(Write(T, TRUE), NS, Bar), T) /\ TEq(Denote(Write(T, FALSE), NS, Old), T)
Notations == Denote(Write(T, TRUE), NS, Old).k = "bad" <=> Denote(Write(T, TRUE), NS, [Bar EXCEPT !.bar = FALSE]).k = "bad"
WritesAliases == Aliased(Write(T, TRUE)) /\ Aliased(Write(T, FALSE))
NamesAgree == NameOf(T, FALSE) # NoName => NameOf(T, TRUE) = NameOf(T, FALSE)
NamesRefused == (T.k \in DOMAIN Prefixes \cup {"union"}) => NameOf(T, FALSE) = NoName
Forms_ == {"literal", "list", "set", "dict", "enum", "dataclass", "namedtuple"}
Cl == Class(T, Kinds)
OneForm == /\ Cardinality({f \in Forms_ : Cl[f]}) <= 1
           /\ (Cl.optional \/ Cl.union) => \A f \in Forms_ : ~Cl[f]
           /\ Cl.strict => Cl.optional /\ ~Cl.union
           /\ Inner(T).k = "union" => Cl.optional \/ Cl.union
AnnotationsIrrelevant == LET X == Class(MkAnn(T, <<N("z")>>), Kinds) IN X.annotated /\ [X EXCEPT !.annotated = Cl.annotated] = Cl
ThereAndBack ==
  LET O == MkUnion(<<T, Ty("none")>>)  u == Apart("optional", O) IN
  T.k # "union" /\ T.k # "none" => u = <<Some(T)>>
RewrapKeeps == FirstMark(Apart("rewrap-list", T)[1].t[1], "note") = FirstMark(T, "note")
Dumped == Dump(typ)
=============================================================================
