-------------------------------- MODULE Grid ---------------------------------
(* A small universe: declared types, type expressions over them, all small   *)
(* values of these types, and documents that match them more or less.        *)
EXTENDS Model, Json, IOUtils, SequencesExt, FiniteSetsExt

Deep == "DEEP" \in DOMAIN IOEnv

K(k) == [k |-> k]
A(k, a) == [k |-> k, a |-> a]
V(k, v) == [k |-> k, v |-> v]
Cls(n) == [k |-> "cls", n |-> n]
Opt(t) == A("union", <<t, K("none")>>)
Alias(t, s) == [k |-> "ann", a |-> <<t>>, m |-> <<[mk |-> "alias", s |-> s, i |-> <<>>]>>]
Special(t) == [k |-> "ann", a |-> <<t>>, m |-> <<[mk |-> "special", s |-> "", i |-> <<>>]>>]
NoDef == [k |-> "no", v |-> <<>>]
Def(v) == [k |-> "val", v |-> <<v>>]
Fac(v) == [k |-> "fac", v |-> <<v>>]
Fld(n, t, d) == [n |-> n, t |-> t, d |-> d]
Str(s) == V("str", s)
Num(s) == V("int", s)
NoOpts == [frozen |-> FALSE]
Class(kind, fs) == [kind |-> kind, f |-> fs, opts |-> NoOpts]
Frozen(fs) == [kind |-> "dc", f |-> fs, opts |-> [frozen |-> TRUE]]

Env == [
  cls |-> [
    P |-> Frozen(<<Fld("a", K("int"), NoDef), Fld("from_", Opt(K("str")), NoDef)>>),
    Q |-> Class("dc", <<Fld("b", Opt(K("int")), Def(Num("7"))), Fld("c", A("list", <<K("str")>>), Fac([k |-> "list", a |-> <<>>]))>>),
    R |-> Class("dc", <<Fld("x", Cls("P"), NoDef), Fld("next", Opt([k |-> "ref", n |-> "R"]), Def(None))>>),
    N |-> Class("nt", <<Fld("a", K("bool"), NoDef), Fld("b", Opt(K("float")), Def(V("float", "0.5")))>>),
    W |-> Class("typed", <<Fld("class_", Alias(K("int"), "klass"), NoDef), Fld("d", Opt(K("date")), NoDef)>>),
    X |-> Class("custom", <<Fld("value", K("str"), NoDef)>>),
    T1 |-> Class("dc", <<Fld("type_", [k |-> "lit", v |-> <<Str("a")>>], NoDef), Fld("v", K("int"), NoDef)>>),
    T2 |-> Class("dc", <<Fld("type_", [k |-> "lit", v |-> <<Str("b"), Str("c")>>], NoDef), Fld("v", K("int"), NoDef)>>),
    G1 |-> Class("dc", <<Fld("g", Alias([k |-> "lit", v |-> <<Num("1")>>], "tag"), NoDef)>>),
    G2 |-> Class("dc", <<Fld("u", Opt(K("str")), NoDef), Fld("g", Alias([k |-> "lit", v |-> <<Num("2")>>], "tag"), Def(Num("2")))>>)],
  enm |-> [
    ES |-> <<[n |-> "A", v |-> Str("a")], [n |-> "B", v |-> Str("1")]>>,
    EI |-> <<[n |-> "M0", v |-> Num("0")], [n |-> "M1", v |-> Num("1")]>>],
  als |-> [none |-> K("none")]]

Scalars == {K("bool"), K("int"), K("float"), K("str"), K("date"), K("bytes"), K("uuid")}
Enums == {[k |-> "enum", n |-> "ES"], [k |-> "enum", n |-> "EI"]}
Lits == {[k |-> "lit", v |-> <<Str("a"), Str("1")>>], [k |-> "lit", v |-> <<Num("1")>>], [k |-> "lit", v |-> <<V("bool", "True")>>],
         [k |-> "lit", v |-> <<[k |-> "enum", n |-> "EI", v |-> "M1"]>>]}
Classes == {Cls(n) : n \in {"P", "Q", "R", "N", "W", "X", "T1", "T2"}}
Base == Scalars \cup Enums \cup Lits \cup Classes
Small == {K("bool"), K("int"), K("float"), K("str"), K("date"), [k |-> "enum", n |-> "ES"], [k |-> "lit", v |-> <<Num("1")>>], Cls("P"), Cls("Q"), Cls("X")}
Hashed == {K("int"), K("bool"), K("str"), K("date"), [k |-> "enum", n |-> "ES"], Cls("P"), Cls("X"), A("union", <<K("int"), K("str")>>)}
Tagged == {A("union", <<Cls("T1"), Cls("T2")>>), A("union", <<Cls("T2"), Cls("T1")>>), A("union", <<Cls("G1"), Cls("G2")>>), A("union", <<Cls("G2"), Cls("G1")>>)}
Open == {K(k) : k \in FreeKinds}
OpenTypes ==
  Open \cup {A("list", <<t>>) : t \in Open} \cup {A("dict", <<K("str"), t>>) : t \in Open}
  \cup {Opt(K("jobj")), A("union", <<K("int"), K("jarr")>>), A("union", <<K("jarr"), K("jobj")>>), A("union", <<Cls("P"), K("any")>>)}
Types ==
  Base \cup Tagged
  \cup {A("list", <<t>>) : t \in Small \cup Tagged}
  \cup {A("set", <<t>>) : t \in Hashed}
  \cup {A("dict", <<K("str"), t>>) : t \in Small} \cup {A("dict", <<[k |-> "enum", n |-> "ES"], t>>) : t \in {K("int"), Cls("P")}}
  \cup {A("tuple", <<>>)} \cup {A("tuple", <<t, u>>) : t, u \in (IF Deep THEN Small ELSE {K("int"), K("str"), Cls("P")})}
  \cup {Opt(t) : t \in Base} \cup {Special(t) : t \in Small}
  \cup {A("union", <<t, u>>) : t, u \in Small} 
  \cup {A("list", <<Opt(t)>>) : t \in Small} \cup {A("list", <<A("union", <<t, K("str")>>)>>) : t \in {K("int"), K("date"), Cls("P")}}
  \cup (IF Deep THEN {A("union", <<t, u, w>>) : t, u, w \in {K("bool"), K("int"), K("float"), K("str"), K("date"), Cls("P")}} ELSE {})

\* unions with a member twice are not types
Wellformed(t) == t.k = "union" => \A i, j \in 1..Len(t.a) : i # j => t.a[i] # t.a[j]
AllTypes == {t \in Types : Wellformed(t)}

-------------------------------------------------------------------------------
Date1 == [k |-> "date", f |-> <<2024, 2, 29>>]
Obj(n, m) == [k |-> "obj", n |-> n, m |-> m]
Mem(n, x) == [n |-> n, x |-> x]
OpenDict == [k |-> "dict", p |-> <<[key |-> Str("b"), val |-> None], [key |-> Str("a"), val |-> [k |-> "list", a |-> <<V("float", "1.0")>>]]>>]
OpenDict2 == [k |-> "dict", p |-> <<[key |-> Str(""), val |-> V("bool", "True")]>>]
OpenList == [k |-> "list", a |-> <<None, Num("0"), OpenDict2>>]
RECURSIVE Vals_(_)
Vals_(t) ==
  CASE t.k = "bool" -> {V("bool", "True"), V("bool", "False")}
    [] t.k = "int" -> {Num("0"), Num("1"), Num("-12345678901234567890")}
    [] t.k = "float" -> {V("float", "0.0"), V("float", "1.0"), V("float", "-2.5")}
    [] t.k = "str" -> {Str(""), Str("a"), Str("1"), Str("2024-02-29"), Str("\"\\")}
    [] t.k = "date" -> {Date1}
    [] t.k = "bytes" -> {[k |-> "bytes", b |-> <<>>], [k |-> "bytes", b |-> <<0, 255>>]}
    [] t.k = "uuid" -> {[k |-> "uuid", b |-> [i \in 1..16 |-> 16 * i - 16]]}
    [] t.k = "none" -> {None}
    [] t.k \in {"any", "json"} -> {None, Num("1"), OpenList, OpenDict}
    [] t.k = "sjson" -> {V("bool", "False"), Str("a"), [k |-> "list", a |-> <<OpenDict2>>]}
    [] t.k = "jobj" -> {OpenDict, OpenDict2}
    [] t.k = "jarr" -> {OpenList, [k |-> "list", a |-> <<>>]}
    [] t.k = "enum" -> {[k |-> "enum", n |-> t.n, v |-> Env.enm[t.n][i].n] : i \in 1..Len(Env.enm[t.n])}
    [] t.k = "lit" -> {t.v[i] : i \in 1..Len(t.v)}
    [] t.k = "ann" -> Vals_(t.a[1])
    [] t.k = "union" -> UNION {Vals_(t.a[i]) : i \in 1..Len(t.a)}
    [] t.k = "list" -> LET e == Vals_(t.a[1]) IN {[k |-> "list", a |-> <<>>]} \cup {[k |-> "list", a |-> <<x>>] : x \in e}
                       \cup {[k |-> "list", a |-> <<x, y>>] : x, y \in e}
    [] t.k = "set" -> LET e == Vals_(t.a[1]) IN {[k |-> "set", a |-> <<>>]} \cup {[k |-> "set", a |-> <<x>>] : x \in e}
                      \cup {[k |-> "set", a |-> <<p[1], p[2]>>] : p \in {p \in e \X e : ~Loose(p[1], p[2])}}
    [] t.k = "dict" -> LET e == Vals_(t.a[2])  ks == IF t.a[1].k = "str" THEN <<Str(""), Str("a")>> ELSE <<[k |-> "enum", n |-> "ES", v |-> "A"], [k |-> "enum", n |-> "ES", v |-> "B"]>>
                       IN {[k |-> "dict", p |-> <<>>]} \cup {[k |-> "dict", p |-> <<[key |-> ks[2], val |-> x]>>] : x \in e}
                          \cup {[k |-> "dict", p |-> <<[key |-> ks[1], val |-> x], [key |-> ks[2], val |-> x]>>] : x \in e}
    [] t.k = "tuple" -> IF Len(t.a) = 0 THEN {[k |-> "tuple", a |-> <<>>]}
                        ELSE {[k |-> "tuple", a |-> <<x, y>>] : x \in Vals_(t.a[1]), y \in Vals_(t.a[2])}
    [] t.k = "cls" ->
         CASE t.n = "P" -> {Obj("P", <<Mem("a", x), Mem("from_", y)>>) : x \in {Num("0"), Num("5")}, y \in {None, Str(""), Str("a")}}
           [] t.n = "Q" -> {Obj("Q", <<Mem("b", x), Mem("c", y)>>) : x \in {Num("7"), Num("0"), None}, y \in {[k |-> "list", a |-> <<>>], [k |-> "list", a |-> <<Str("z")>>]}}
           [] t.n = "R" -> LET p == Obj("P", <<Mem("a", Num("1")), Mem("from_", None)>>)  r == Obj("R", <<Mem("x", p), Mem("next", None)>>)
                           IN {r, Obj("R", <<Mem("x", p), Mem("next", r)>>)}
           [] t.n = "N" -> {Obj("N", <<Mem("a", x), Mem("b", y)>>) : x \in {V("bool", "True"), V("bool", "False")}, y \in {V("float", "0.0"), V("float", "0.5")}}
           [] t.n = "W" -> {Obj("W", <<Mem("class_", Num("3")), Mem("d", y)>>) : y \in {None, Date1}}
           [] t.n = "X" -> {Obj("X", <<Mem("value", x)>>) : x \in {Str(""), Str("a")}}
           [] t.n = "T1" -> {Obj("T1", <<Mem("type_", Str("a")), Mem("v", Num("1"))>>)}
           [] t.n = "T2" -> {Obj("T2", <<Mem("type_", x), Mem("v", Num("1"))>>) : x \in {Str("b"), Str("c")}}
           [] t.n = "G1" -> {Obj("G1", <<Mem("g", Num("1"))>>)}
           [] t.n = "G2" -> {Obj("G2", <<Mem("u", x), Mem("g", Num("2"))>>) : x \in {None, Str("")}}

-------------------------------------------------------------------------------
Arr(a) == [k |-> "arr", a |-> a]
Map(m) == [k |-> "map", m |-> m]
Jm(n, j) == [n |-> n, j |-> j]
JsonScalars == {Null, V("bool", "True"), V("bool", "False"), Num("0"), Num("1"), V("float", "1.0"), V("float", "-2.5"),
                Str(""), Str("a"), Str("1"), Str("2024-02-29"), Str("2024-02-30"), Str("AP8="), Str("v:a")}
FewScalars == {Null, V("bool", "True"), Num("1"), V("float", "1.0"), Str("a"), Str("2024-02-29")}
PDoc(a, f) == Map(<<Jm("a", a), Jm("from", f)>>)
Docs ==
  JsonScalars \cup {Arr(<<>>), Map(<<>>)} \cup {Arr(<<x>>) : x \in JsonScalars} \cup {Arr(<<x, y>>) : x, y \in FewScalars}
  \cup {Arr(<<Num("1"), Num("1")>>), Arr(<<Num("1"), Str("a"), Null>>), Arr(<<Arr(<<>>)>>), Arr(<<Map(<<>>)>>)}
  \cup {Map(<<Jm(n, x)>>) : n \in {"a", "b", "c", "from", "from_", "klass", "class_", "", "1", "x", "type", "tag"}, x \in FewScalars}
  \cup {PDoc(x, y) : x, y \in FewScalars} \cup {Arr(<<PDoc(x, y)>>) : x \in {Num("1"), Str("a")}, y \in {Null, Str("a"), Num("1")}}
  \cup {Map(<<Jm("a", PDoc(x, y))>>) : x \in {Num("1"), Str("a")}, y \in {Null, Str("a"), Num("1")}}
  \cup {Map(<<Jm("a", x), Jm("extra", y)>>) : x \in FewScalars, y \in {Null, Num("1")}}
  \cup {Map(<<Jm("b", x), Jm("c", y)>>) : x \in FewScalars, y \in {Null, Arr(<<>>), Arr(<<Str("a")>>), Arr(<<Num("1")>>), Str("a")}}
  \cup {Map(<<Jm("a", x), Jm("b", y)>>) : x \in {V("bool", "True"), Num("1"), Null}, y \in {Null, V("float", "1.0"), Num("1"), Str("a"), V("bool", "True")}}
  \cup {Map(<<Jm("x", PDoc(Num("1"), Null)), Jm("next", y)>>) : y \in {Null, Str("a"), Map(<<>>), Map(<<Jm("x", PDoc(Num("1"), Null))>>), Map(<<Jm("x", PDoc(Num("1"), Null)), Jm("extra", Num("1"))>>)}}
  \cup {Map(<<Jm("klass", x), Jm("d", y)>>) : x \in {Num("1"), Null, V("bool", "True")}, y \in {Null, Str("2024-02-29"), Str("2024-02-30"), Num("1")}}
  \cup {Map(<<Jm(n, x), Jm("v", y)>>) : n \in {"type", "type_"}, x \in {Str("a"), Str("b"), Str("c"), Str("d"), Num("1"), Null}, y \in {Num("1"), Str("a")}}
  \cup {Map(<<Jm("v", Num("1")), Jm("type", x)>>) : x \in {Str("a"), Str("c")}}
  \cup {Map(<<Jm(n, x)>>) : n \in {"tag", "g"}, x \in {Num("1"), Num("2"), Num("3"), Str("1")}} \cup {Map(<<Jm("tag", Num("2")), Jm("u", x)>>) : x \in {Null, Str(""), Num("1")}}
  \cup {Map(<<Jm("tag", Num("1")), Jm("u", Str(""))>>)}

Sequenced(S) == TLCEval(SetToSeq(S))
CasesOf(types) == LET ts == Sequenced(types) IN TLCEval([i \in 1..Len(ts) |-> [T |-> ts[i], V |-> Sequenced(Vals_(ts[i]))]])
CasesV == CasesOf(AllTypes)
=============================================================================
