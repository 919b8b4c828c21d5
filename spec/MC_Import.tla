------------------------------ MODULE MC_Import -------------------------------
(* Types created from schemas: definitions are created one at a time in any   *)
(* order in which what they refer to exists; every property node of a grid;   *)
(* every class of a grid, its schema generated and imported.                  *)
EXTENDS Import, Json, IOUtils, CSV

Str(s) == [k |-> "str", v |-> s]
Num(s) == [k |-> "int", v |-> s]
V(k, v) == [k |-> k, v |-> v]
Deep == "DEEP" \in DOMAIN IOEnv
Draft == Kw("$schema", "http://json-schema.org/draft-07/schema#")
Object(ps, needs) == JMap(<<Kw("type", "object"), P("properties", JMap(ps)), P("additionalProperties", JFalse)>>
                          \o (IF needs = <<>> THEN <<>> ELSE <<P("required", JArr([i \in 1..Len(needs) |-> JStr(needs[i])]))>>))
Link(n) == JMap(<<Kw("$ref", DefPath \o n)>>)
Rows(j) == JMap(<<Kw("type", "array"), P("items", j)>>)
Either(js) == JMap(<<P("oneOf", JArr(js))>>)

-------------------------------------------------------------------------------
(* Definitions that refer to each other *)
Defs == {"A", "B", "C"}
Bodies == {Simple("string"), JMap(<<Kw("type", "string"), P("enum", JArr(<<Str("x"), Str("y")>>))>>)}
  \cup {Rows(Link(n)) : n \in Defs} \cup {Either(<<Simple("integer"), Link(n)>>) : n \in Defs} \cup {Object(<<P("p", Link(n))>>, <<"p">>) : n \in Defs}
  \cup (IF Deep THEN {Object(<<P("p", Rows(Link(n))), P("q", Link(m))>>, <<"p">>) : n, m \in Defs} ELSE {Object(<<P("p", Simple("string")), P("q", Link("D"))>>, <<>>)})
Linked == {JMap(<<Draft, Kw("type", "object"), P("properties", JMap(<<P("t", Link("A"))>>)), P("additionalProperties", JFalse),
                  P("definitions", JMap(<<P("A", x), P("B", y), P("C", z)>>))>>) : x, y, z \in Bodies}

(* One property: its node, whether it is required *)
With(J, sets) == {J} \cup {JMap(J.m \o s) : s \in sets}
Scalar(k, sets) == With(Simple(k), sets)
K1(n, j) == <<P(n, j)>>
Pool == {JTrue, Num("1"), V("float", "1.5"), Str("x"), Str(""), Str("2020-01-01"), Null, JArr(<<>>)}
Numbery == {K1("format", Str(f)) : f \in {"int8", "uint64", "int64", "float32", "float64", "date"}} \cup {K1("const", Num("1")), K1("minimum", Num("0")), K1("multipleOf", V("float", "0.01")), K1("enum", JArr(<<Num("1")>>))}
Prec(m, lo, hi) == K1("multipleOf", m) \o K1("exclusiveMinimum", lo) \o K1("exclusiveMaximum", hi)
Precise == {Prec(V("float", "0.01"), Num("-1000"), Num("1000")), Prec(Num("1"), Num("-10"), Num("10")), Prec(V("float", "0.5"), Num("-10"), Num("10")), Prec(V("float", "0.1"), Num("0"), Num("10"))}
Textual == {K1("format", Str(f)) : f \in {"date", "time", "date-time", "duration", "uuid", "ipv4", "ipv6", "int8", "binary"}}
  \cup {K1("enum", JArr(es)) : es \in {<<>>, <<Str("x"), Str("")>>, <<Str("1"), Str("a b")>>, <<Num("1")>>}}
  \cup {K1("const", Str("x")), K1("minLength", Num("1")), K1("maxLength", Num("0")), K1("minLength", Num("1")) \o K1("maxLength", Num("2")), K1("minLength", Str("1")), K1("pattern", Str("x"))}
Single == Scalar("boolean", {K1("const", JTrue), K1("format", Str("x")), K1("enum", JArr(<<JTrue>>))}) \cup Scalar("integer", Numbery) \cup Scalar("number", Numbery \cup Precise) \cup Scalar("string", Textual)
Inner == {Object(<<P("x", Simple("string"))>>, <<"x">>), Object(<<P("x", Simple("string"))>>, <<>>), Object(<<P("class", Simple("integer")), P("y", Simple("null"))>>, <<>>), Simple("object"),
          JMap(<<Kw("type", "object"), P("properties", JMap(<<P("x", Simple("string"))>>))>>), JMap(<<Kw("type", "object"), P("properties", JMap(<<>>)), P("additionalProperties", JFalse)>>)}
Plural == {Rows(j) : j \in {Simple("integer"), Simple("null"), Rows(Simple("string"))} \cup Inner} \cup {Simple("array"), Simple("null"), JMap(<<>>), JMap(<<Kw("type", "array"), P("items", JArr(<<Simple("string")>>))>>), Link("A"), JTrue}
  \cup {Either(js) : js \in {<<Simple("integer"), Simple("string")>>, <<Simple("string"), Simple("string")>>, <<Simple("boolean")>>, <<>>, <<Simple("string"), Rows(Simple("string"))>>, <<Simple("integer"), Either(<<Simple("boolean"), Simple("string")>>)>>}}
  \cup {JMap(<<P("anyOf", JArr(<<Simple("integer")>>))>>)}
Defaulted(js) == js \cup {JMap(j.m \o K1("default", v)) : j \in js, v \in Pool}
Nodes == Defaulted(Single) \cup Inner \cup Plural \cup {JMap(j.m \o K1("default", v)) : j \in {Rows(Simple("string")), Either(<<Simple("integer"), Simple("string")>>)}, v \in {Str("x"), JArr(<<>>)}}
  \cup {JMap(j.m \o K1("description", Str("Text."))) : j \in Single \cup Inner} \cup {JMap(<<Kw("title", "Name"), Kw("description", "Text.")>> \o j.m) : j \in Inner}
Lone == {Put(Object(<<P("p", j)>>, needs), "$schema", Str("http://json-schema.org/draft-07/schema#")) : j \in Nodes, needs \in {<<>>, <<"p">>}}

-------------------------------------------------------------------------------
(* Classes of one field and one of two *)
T0(k) == [k |-> k]
Mk(mk, i) == [mk |-> mk, i |-> i]
An(t, ms) == [k |-> "ann", a |-> <<t>>, m |-> ms]
TOpt(t) == [k |-> "union", a |-> <<t, T0("none")>>]
VI(i) == [k |-> "int", v |-> i]  VS(s) == [k |-> "str", v |-> s]
Plain == {T0(k) : k \in {"bool", "int", "float", "str", "date", "time", "timedelta", "uuid", "ipv4"}} \cup {[k |-> "enum", n |-> "ES"], [k |-> "cls", n |-> "L"]}
  \cup {[k |-> "lit", v |-> <<v>>] : v \in {VI("0"), VS("a"), [k |-> "bool", v |-> "True"]}}
FieldTypes == Plain \cup {[k |-> "list", a |-> <<t>>] : t \in Plain} \cup {TOpt(t) : t \in Plain}
  \cup {TOpt([k |-> "list", a |-> <<T0("int")>>]), [k |-> "union", a |-> <<T0("int"), T0("str")>>], [k |-> "union", a |-> <<T0("bool"), [k |-> "cls", n |-> "L"], T0("none")>>], [k |-> "list", a |-> <<[k |-> "list", a |-> <<T0("str")>>]>>]}
FDef(v) == [k |-> "val", v |-> <<v>>]
NoDefault == [k |-> "no"]
DefaultsOf(t) == {NoDefault} \cup (IF t.k = "union" /\ t.a[Len(t.a)].k = "none" THEN {FDef([k |-> "none", v |-> "None"])} ELSE {})
  \cup (LET b == IF t.k = "union" /\ Len(t.a) = 2 /\ t.a[2].k = "none" THEN t.a[1] ELSE t IN
        CASE b.k = "bool" -> {FDef([k |-> "bool", v |-> x]) : x \in {"True", "False"}} [] b.k = "int" -> {FDef(VI(x)) : x \in {"0", "-7"}}
          [] b.k = "float" -> {FDef([k |-> "float", v |-> x]) : x \in {"0.0", "2.5"}} [] b.k = "str" -> {FDef(VS(x)) : x \in {"", "it's"}}
          [] b.k = "date" -> {FDef(ParseText("date", "2020-02-29").v[1])} [] b.k = "lit" -> {FDef(b.v[1])}
          [] b.k = "enum" -> {FDef([k |-> "enum", n |-> "ES", v |-> "A"])} [] OTHER -> {})
Fd(n, t, d) == [n |-> n, t |-> t, d |-> d]
Leaf == [kind |-> "dc", f |-> <<Fd("x", T0("int"), NoDefault), Fd("y", TOpt(T0("str")), NoDefault)>>, opts |-> [frozen |-> TRUE]]
EnvOf(X) == [cls |-> [L |-> Leaf, X |-> X], enm |-> [ES |-> <<[n |-> "A", v |-> VS("a")], [n |-> "B", v |-> VS("1 x")]>>], als |-> [none |-> T0("none")],
  doc |-> [L |-> [s |-> <<"Leaf.">>, l |-> <<>>, p |-> <<[n |-> "x", d |-> "first"]>>]], base |-> [X |-> ""],
  reg |-> [zz |-> [id |-> "zz", s |-> <<>>, x |-> <<>>]]]
Class1(fs) == [kind |-> "dc", f |-> fs, opts |-> [kw_only |-> TRUE]]
Usual == [path |-> "#/definitions/", desc |-> TRUE, ex |-> TRUE, fun |-> FALSE]
ClassCases == {<<Fd(n, t, d)>> : n \in {"f"}, t \in FieldTypes, d \in {NoDefault}} \cup UNION {{<<Fd(n, t, d)>> : d \in DefaultsOf(t), n \in {"f", "class_"}} : t \in FieldTypes}
  \cup (IF Deep THEN UNION {{<<Fd("f", t, d), Fd("g", u, e)>> : d \in DefaultsOf(t), e \in DefaultsOf(u)} : t, u \in Plain} ELSE {})

-------------------------------------------------------------------------------
VARIABLES what, doc, made
vars == <<what, doc, made>>
Init == \/ what = "linked" /\ doc \in Linked /\ made = <<>>
        \/ what = "lone" /\ doc \in Lone /\ made = <<>>
        \/ what = "class" /\ made = <<>> /\ \E c \in ClassCases : doc = c
\* one definition is created
Create(n) == /\ what = "linked" /\ n \in DefNames(doc) \ {made[i].n : i \in 1..Len(made)}
             /\ Mentions(DefOf(doc, n)) \subseteq {made[i].n : i \in 1..Len(made)}
             /\ made' = TLCEval(Append(made, [n |-> n, t |-> NodeShape(DefOf(doc, n), made)])) /\ UNCHANGED <<what, doc>>
Next == what = "linked" /\ \E n \in DefNames(doc) : Create(n)
Spec == Init /\ [][Next]_vars

Known == what = "linked" => \A n \in Defs : Mentions(DefOf(doc, n)) \subseteq Defs
Stuck == what = "linked" /\ ~ENABLED Next
\* definitions remain exactly if they refer to each other in a circle or to what does not exist
Complete == (Stuck /\ Known) => ((Len(made) < Cardinality(Defs)) <=> Cyclic(doc))
\* the order does not matter
Confluent == (Stuck /\ Len(made) = Cardinality(Defs)) => NodeShape(TopObject(doc), made) = SchemaShape(doc)
\* an accepted schema describes a class; expanding its references changes nothing
AClass == (what \in {"linked", "lone"} /\ made = <<>> /\ Known /\ Accepted(doc)) => SchemaShape(doc).k = "rec"
SameExpanded == (what = "linked" /\ made = <<>> /\ Known /\ Accepted(doc)) =>
  TEq(SchemaShape(doc), NodeShape(Expanded(TopObject(doc), doc), <<>>))
\* the class comes back
Doc(fs) == Put(Document([k |-> "cls", n |-> "X"], EnvOf(Class1(fs)), Usual), "$schema", Str("draft"))
Back == what = "class" => LET z == TLCEval(Doc(doc)) IN
  /\ Accepted(z) /\ TEq(SchemaShape(z), ShapeOf([k |-> "cls", n |-> "X"], EnvOf(Class1(doc))))

Row == IF what = "class" THEN [what |-> what, f |-> doc] ELSE [what |-> what, J |-> doc]
Dump == (made = <<>> /\ "CASES" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(Row)>>, IOEnv.CASES)
ASSUME "CASES" \in DOMAIN IOEnv => JsonSerialize(IOEnv.CASES \o ".3", <<EnvOf(Class1(<<>>))>>)
===============================================================================
