-------------------------------- MODULE Schema -------------------------------
(* JSON schemas generated from types, and what a schema means.               *)
(* A schema is a JSON document (see Model).  Further to Model, a type may be *)
(* [k] with k in "any" "decimal" "json" "sjson" "jobj" "jarr"; a dictionary  *)
(* may have integer keys.  Further to Model, an environment has              *)
(*   E.doc[n] = [s, l, p]  short and long description (<<>> or <<text>>) and *)
(*              descriptions [n, d] of members, for a class or enum n        *)
(*   E.base[n] = base class of n, "" if none                                 *)
(*   E.reg[n] = [id, s, x]  registration of n in the catalog: identifier,    *)
(*              explicit schema (<<>> or <<S>>), examples (<<>> or <<list>>) *)
(* Options O = [path, desc, ex, fun]: path of definitions, whether to use    *)
(* descriptions and examples, and whether descriptions are transformed.      *)
EXTENDS Model

JMap(m) == [k |-> "map", m |-> m]
JArr(a) == [k |-> "arr", a |-> a]
JTrue == [k |-> "bool", v |-> "True"]
JFalse == [k |-> "bool", v |-> "False"]
JInt(s) == [k |-> "int", v |-> s]
P(n, j) == [n |-> n, j |-> j]
Kw(n, s) == P(n, JStr(s))
Simple(t) == JMap(<<Kw("type", t)>>)

Put(J, n, x) == IF HasMember(J, n)
                THEN JMap([i \in 1..Len(J.m) |-> IF J.m[i].n = n THEN P(n, x) ELSE J.m[i]])
                ELSE JMap(Append(J.m, P(n, x)))
DropMember(J, n) == LET other(e) == e.n # n IN JMap(SelectSeq(J.m, other))
RECURSIVE PutAll(_, _)
PutAll(J, ps) == IF ps = <<>> THEN J ELSE PutAll(Put(J, Head(ps).n, Head(ps).j), Tail(ps))

-------------------------------------------------------------------------------
(* Simple types *)
SimpleSchema(k) ==
  CASE k = "none" -> Simple("null")
    [] k = "bool" -> Simple("boolean")
    [] k = "int" -> Simple("integer")
    [] k \in {"float", "decimal"} -> Simple("number")
    [] k = "str" -> Simple("string")
    [] k = "bytes" -> JMap(<<Kw("type", "string"), Kw("contentEncoding", "base64")>>)
    [] k = "datetime" -> JMap(<<Kw("type", "string"), Kw("format", "date-time")>>)
    [] k \in {"date", "time", "uuid", "ipv4", "ipv6"} -> JMap(<<Kw("type", "string"), Kw("format", k)>>)
    [] k = "timedelta" -> JMap(<<Kw("type", "string"), Kw("format", "duration")>>)
    [] k = "any" -> JMap(<<P("oneOf", JArr(<<Simple("null"), Simple("boolean"), Simple("number"), Simple("string"),
                                              Simple("array"), Simple("object")>>))>>)
    [] k = "jobj" -> Simple("object")
    [] k = "jarr" -> Simple("array")
SimpleKinds == {"none", "bool", "int", "float", "decimal", "str", "any", "jobj", "jarr"} \cup TextKinds

(* Constraints stated by annotations *)
PowTen == <<"1", "10", "100", "1000", "10000", "100000", "1000000", "10000000", "100000000", "1000000000">>
NegTen == <<JInt("1"), [k |-> "float", v |-> "0.1"], [k |-> "float", v |-> "0.01"], [k |-> "float", v |-> "0.001"],
            [k |-> "float", v |-> "0.0001"], [k |-> "float", v |-> "1e-05"], [k |-> "float", v |-> "1e-06"]>>
MarkKeywords(m) ==
  CASE m.mk = "range" -> <<P("minimum", JInt(m.i[1])), P("maximum", JInt(m.i[2]))>>
    [] m.mk = "minlen" -> <<P("minLength", JInt(m.i[1]))>>
    [] m.mk = "maxlen" -> <<P("maxLength", JInt(m.i[1]))>>
    [] m.mk = "len" -> <<P("minLength", JInt(m.i[1])), P("maxLength", JInt(m.i[1]))>>
    [] m.mk = "prec" ->
         LET sig == NatOf(m.i[1])  dec == IF Len(m.i) > 1 THEN NatOf(m.i[2]) ELSE 0  bound == PowTen[sig - dec + 1] IN
         <<P("multipleOf", NegTen[dec + 1]), P("exclusiveMinimum", JInt("-" \o bound)), P("exclusiveMaximum", JInt(bound))>>
    [] OTHER -> <<>>
RECURSIVE MarksKeywords(_)
MarksKeywords(ms) == IF ms = <<>> THEN <<>> ELSE MarkKeywords(Head(ms)) \o MarksKeywords(Tail(ms))

Mark(mk, i) == [mk |-> mk, s |-> "", i |-> i]
IntMarks(signed, bytes, lo, hi) == <<Mark("signed", <<signed>>), Mark("storage", <<bytes>>), Mark("range", <<lo, hi>>)>>
FixedWidth == <<
  [n |-> "int8", b |-> "int", m |-> IntMarks("True", "1", "-128", "127")],
  [n |-> "int16", b |-> "int", m |-> IntMarks("True", "2", "-32768", "32767")],
  [n |-> "int32", b |-> "int", m |-> IntMarks("True", "4", "-2147483648", "2147483647")],
  [n |-> "int64", b |-> "int", m |-> IntMarks("True", "8", "-9223372036854775808", "9223372036854775807")],
  [n |-> "uint8", b |-> "int", m |-> IntMarks("False", "1", "0", "255")],
  [n |-> "uint16", b |-> "int", m |-> IntMarks("False", "2", "0", "65535")],
  [n |-> "uint32", b |-> "int", m |-> IntMarks("False", "4", "0", "4294967295")],
  [n |-> "uint64", b |-> "int", m |-> IntMarks("False", "8", "0", "18446744073709551615")],
  [n |-> "float32", b |-> "float", m |-> <<Mark("storage", <<"4">>)>>],
  [n |-> "float64", b |-> "float", m |-> <<Mark("storage", <<"8">>)>>]>>
FixedNames(k, ms) == {FixedWidth[i].n : i \in {i \in 1..Len(FixedWidth) : FixedWidth[i].b = k /\ FixedWidth[i].m = ms}}

AnnotatedSimple(k, ms) ==
  LET fixed == FixedNames(k, ms) IN
  IF fixed # {} THEN Put(SimpleSchema(k), "format", JStr(CHOOSE f \in fixed : TRUE))
  ELSE PutAll(SimpleSchema(k), MarksKeywords(ms))

-------------------------------------------------------------------------------
(* Documentation *)
DocKeywords(n, E, O) ==
  IF ~O.desc \/ ~Has(E.doc, n) THEN <<>>
  ELSE (IF E.doc[n].s = <<>> THEN <<>> ELSE <<Kw("title", E.doc[n].s[1])>>)
       \o (IF E.doc[n].l = <<>> THEN <<>> ELSE <<Kw("description", E.doc[n].l[1])>>)

\* description of a member: by the class itself or the nearest base class that describes it
RECURSIVE MemberDoc(_, _, _)
MemberDoc(n, field, E) ==
  LET ps == IF Has(E.doc, n) THEN E.doc[n].p ELSE <<>>
      own == {i \in 1..Len(ps) : ps[i].n = field}
  IN IF own # {} THEN <<ps[CHOOSE i \in own : TRUE].d>>
     ELSE IF Has(E.base, n) /\ E.base[n] # "" THEN MemberDoc(E.base[n], field, E) ELSE <<>>
Described(n, field, text, O) == IF O.fun THEN n \o "." \o field \o ": " \o text ELSE text

-------------------------------------------------------------------------------
(* The schema of a type.  st lists the recursive names being written.        *)
RECURSIVE Flatten(_)
Flatten(T) == IF T.k = "ann" /\ T.a[1].k = "ann"
              THEN Flatten([k |-> "ann", a |-> T.a[1].a, m |-> T.a[1].m \o T.m]) ELSE T

\* the member type of an optional member; annotations around it stay
RECURSIVE UnwrapOpt(_, _)
UnwrapOpt(T, E) ==
  IF T.k = "ann" THEN Flatten([T EXCEPT !.a = <<UnwrapOpt(T.a[1], E)>>])
  ELSE WithoutNone(T, E)

Registered(n, E) == Has(E.reg, n)
RefTo(id, O) == JMap(<<Kw("$ref", O.path \o id)>>)
On(st, n) == \E i \in 1..Len(st) : st[i] = n

JsonItems == <<[k |-> "bool"], [k |-> "int"], [k |-> "float"], [k |-> "str"],
               [k |-> "dict", a |-> <<[k |-> "str"], [k |-> "json"]>>], [k |-> "list", a |-> <<[k |-> "json"]>>]>>
StrictItems == <<[k |-> "bool"], [k |-> "int"], [k |-> "float"], [k |-> "str"],
                 [k |-> "dict", a |-> <<[k |-> "str"], [k |-> "sjson"]>>], [k |-> "list", a |-> <<[k |-> "sjson"]>>]>>

EnumType(E, n) ==
  CASE E.enm[n][1].v.k = "bool" -> "boolean" [] E.enm[n][1].v.k = "int" -> "integer"
    [] E.enm[n][1].v.k = "float" -> "number" [] OTHER -> "string"
EnumSchema(n, E, O) ==
  PutAll(JMap(<<Kw("type", EnumType(E, n)),
                P("enum", JArr([i \in 1..Len(E.enm[n]) |-> Ser(E.enm[n][i].v, E)]))>>), DocKeywords(n, E, O))

DefaultKinds == {"bool", "int", "float", "str", "enum", "datetime", "date", "time", "timedelta"}
HasDefault(f) == f.d.k = "val" /\ f.d.v[1].k \in DefaultKinds

RECURSIVE RxEscape(_)
RxSpecial == CharSet("()[]{}?*+-|^$\\.&~# \t\n\r")
RxEscape(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in RxSpecial THEN "\\" ELSE "") \o Ch(s, 1) \o RxEscape(Drop(s, 1))
EnumLimit == 4

RECURSIVE S(_, _, _, _), ClassSchema(_, _, _, _)

S(T, st, E, O) ==
  CASE T.k \in SimpleKinds -> SimpleSchema(T.k)
    [] T.k \in {"json", "sjson"} -> RefTo(IF T.k = "json" THEN "JsonType" ELSE "StrictJsonType", O)
    [] T.k = "ref" ->
         IF Has(E.als, T.n) THEN (IF On(st, T.n) THEN RefTo(T.n, O) ELSE S(E.als[T.n], Append(st, T.n), E, O))
         ELSE S(Bare(T, E), st, E, O)
    [] T.k = "ann" -> LET F == Flatten(T) IN
         IF F.a[1].k \in SimpleKinds THEN AnnotatedSimple(F.a[1].k, F.m) ELSE S(F.a[1], st, E, O)
    [] T.k = "enum" -> IF Registered(T.n, E) THEN RefTo(E.reg[T.n].id, O) ELSE EnumSchema(T.n, E, O)
    [] T.k = "union" -> LET ms == Members(T.a, E) IN JMap(<<P("oneOf", JArr([i \in 1..Len(ms) |-> S(ms[i], st, E, O)]))>>)
    [] T.k = "list" -> JMap(<<Kw("type", "array"), P("items", S(T.a[1], st, E, O))>>)
    [] T.k = "set" -> JMap(<<Kw("type", "array"), P("items", S(T.a[1], st, E, O)), P("uniqueItems", JTrue)>>)
    [] T.k = "dict" -> LET vs == S(T.a[2], st, E, O)  K == Bare(T.a[1], E) IN
         IF K.k = "enum" THEN
           LET ms == E.enm[K.n]  texts == [i \in 1..Len(ms) |-> ms[i].v.v] IN
           (IF Len(ms) > EnumLimit THEN
              JMap(<<Kw("type", "object"),
                     P("propertyNames", JMap(<<Kw("pattern", "^(" \o JoinWith([i \in 1..Len(ms) |-> RxEscape(texts[i])], "|") \o ")$")>>)),
                     P("additionalProperties", vs)>>)
            ELSE JMap(<<Kw("type", "object"), P("properties", JMap([i \in 1..Len(ms) |-> P(texts[i], vs)])),
                        P("additionalProperties", JFalse)>>))
         ELSE JMap(<<Kw("type", "object"), P("additionalProperties", vs)>>)
    [] T.k = "tuple" -> JMap(<<Kw("type", "array"), P("minItems", JInt(ToString(Len(T.a)))), P("maxItems", JInt(ToString(Len(T.a))))>>
                             \o (IF T.a = <<>> THEN <<>> ELSE <<P("prefixItems", JArr([i \in 1..Len(T.a) |-> S(T.a[i], st, E, O)]))>>))
    [] T.k = "lit" -> LET base == S(IF T.v[1].k = "enum" THEN [k |-> "enum", n |-> T.v[1].n] ELSE [k |-> T.v[1].k], st, E, O) IN
         IF Len(T.v) = 1 THEN Put(base, "const", Ser(T.v[1], E))
         ELSE Put(base, "enum", JArr([i \in 1..Len(T.v) |-> Ser(T.v[i], E)]))
    [] T.k = "cls" ->
         IF Registered(T.n, E) THEN RefTo(E.reg[T.n].id, O)
         ELSE IF On(st, T.n) THEN RefTo(T.n, O)
         ELSE ClassSchema(T.n, st, E, O)

IsOptionalMember(T, E) == T.k # "ref" /\ (IsOptional(T, E) \/ (T.k = "ann" /\ IsOptional(T.a[1], E)) \/ Flatten(T).k = "json"
                                          \/ (T.k = "ann" /\ Flatten(T).a[1].k = "json"))
MemberSchema(T, st, E, O) ==
  IF ~IsOptionalMember(T, E) THEN S(T, st, E, O)
  ELSE IF T.k = "json" \/ (T.k = "ann" /\ T.a[1].k = "json") THEN S([k |-> "union", a |-> JsonItems], st, E, O)
  ELSE S(UnwrapOpt(T, E), st, E, O)

ClassSchema(n, st, E, O) ==
  LET fs == E.cls[n].f
      st2 == Append(st, n)
      def(f) ==
        LET base == MemberSchema(f.t, st2, E, O)
            dflt == IF HasDefault(f) THEN Put(base, "default", Ser(f.d.v[1], E)) ELSE base
            doc == IF O.desc THEN MemberDoc(n, f.n, E) ELSE <<>>
            text == IF doc = <<>> THEN "" ELSE Described(n, f.n, doc[1], O)
        IN IF text = "" THEN dflt ELSE Put(DropMember(dflt, "title"), "description", JStr(text))
      props == [i \in 1..Len(fs) |-> P(PropName(fs[i].n, fs[i].t), def(fs[i]))]
      mandatory(f) == ~IsOptionalMember(f.t, E)
      req == SelectSeq(fs, mandatory)
  IN PutAll(JMap(<<Kw("type", "object")>>
                 \o (IF fs = <<>> THEN <<>> ELSE <<P("properties", JMap(props)), P("additionalProperties", JFalse)>>)
                 \o (IF req = <<>> THEN <<>> ELSE <<P("required", JArr([i \in 1..Len(req) |-> JStr(PropName(req[i].n, req[i].t))]))>>)),
            DocKeywords(n, E, O))

-------------------------------------------------------------------------------
(* References and definitions *)
RECURSIVE Refs(_)
Refs(J) ==
  IF J.k = "map" THEN UNION {IF J.m[i].n = "$ref" /\ J.m[i].j.k = "str" THEN {J.m[i].j.v}
                             ELSE IF J.m[i].n \in {"const", "enum", "default", "examples"} THEN {}
                             ELSE Refs(J.m[i].j) : i \in 1..Len(J.m)}
  ELSE IF J.k = "arr" THEN UNION {Refs(J.a[i]) : i \in 1..Len(J.a)}
  ELSE {}
RefIds(J, O) == {Drop(r, Len(O.path)) : r \in {r \in Refs(J) : StartsWith(r, O.path)}}

JsonExamples == JArr(<<JMap(<<P("property1", Null), P("property2", JTrue), P("property3", JInt("64")), P("property4", JStr("string")),
                            P("property5", JArr(<<JStr("item")>>)), P("property6", JMap(<<P("key", JStr("value"))>>))>>)>>)
StrictExamples == JArr(<<JMap(<<P("property1", JTrue), P("property2", JInt("64")), P("property3", JStr("string")),
                            P("property4", JArr(<<JStr("item")>>)), P("property5", JMap(<<P("key", JStr("value"))>>))>>)>>)
WithExamples(J, x, O) == IF O.ex /\ x # <<>> THEN Put(J, "examples", x[1]) ELSE J

\* registration under an identifier
RegNames(E, id) == {n \in DOMAIN E.reg : E.reg[n].id = id}
Definition(id, E, O) ==
  IF id = "JsonType" THEN WithExamples(S([k |-> "union", a |-> <<[k |-> "none"]>> \o JsonItems], <<>>, E, O), <<JsonExamples>>, O)
  ELSE IF id = "StrictJsonType" THEN WithExamples(S([k |-> "union", a |-> StrictItems], <<>>, E, O), <<StrictExamples>>, O)
  ELSE IF RegNames(E, id) # {} THEN
    LET n == CHOOSE n \in RegNames(E, id) : TRUE
        r == E.reg[n]
        base == IF r.s # <<>> THEN r.s[1] ELSE IF Has(E.enm, n) THEN EnumSchema(n, E, O) ELSE ClassSchema(n, <<>>, E, O)
    IN WithExamples(PutAll(base, DocKeywords(n, E, O)), r.x, O)
  ELSE IF Has(E.als, id) THEN S(E.als[id], <<id>>, E, O)
  ELSE ClassSchema(id, <<>>, E, O)

RECURSIVE Defined(_, _, _, _)
Defined(todo, done, E, O) ==       \* done: sequence of [n, j]
  LET names == {done[i].n : i \in 1..Len(done)}
      rest == todo \ names
  IN IF rest = {} THEN done
     ELSE LET id == CHOOSE id \in rest : TRUE
              d == TLCEval(Definition(id, E, O))
          IN Defined(rest \cup RefIds(d, O), Append(done, P(id, d)), E, O)

\* the schema of a type when all of it is requested: registered types are written in place at the top only when forced
SchemaOf(T, E, O) ==
  LET top == TLCEval(S(T, <<>>, E, O)) IN [s |-> top, d |-> Defined(RefIds(top, O), <<>>, E, O)]
Document(T, E, O) ==
  LET r == SchemaOf(T, E, O) IN IF r.d = <<>> THEN r.s ELSE Put(r.s, "definitions", JMap(r.d))

-------------------------------------------------------------------------------
(* Equality of schemas: objects irrespective of order, and so are the arrays *)
(* that stand for sets.                                                      *)
SetKeywords == {"required", "enum", "oneOf"}
RECURSIVE JEq(_, _, _)
JEq(x, y, kw) ==
  IF x.k # y.k THEN FALSE
  ELSE IF x.k = "map" THEN
    Len(x.m) = Len(y.m)
    /\ \A i \in 1..Len(x.m) : \E j \in 1..Len(y.m) :
         x.m[i].n = y.m[j].n /\ JEq(x.m[i].j, y.m[j].j, IF kw \in {"properties", "definitions", "const", "default", "examples"} THEN "" ELSE x.m[i].n)
  ELSE IF x.k = "arr" THEN
    Len(x.a) = Len(y.a)
    /\ IF kw \in SetKeywords
       THEN (\A i \in 1..Len(x.a) : \E j \in 1..Len(y.a) : JEq(x.a[i], y.a[j], ""))
            /\ (\A j \in 1..Len(y.a) : \E i \in 1..Len(x.a) : JEq(x.a[i], y.a[j], ""))
       ELSE \A i \in 1..Len(x.a) : JEq(x.a[i], y.a[i], "")
  ELSE x.v = y.v
SameSchema(x, y) == JEq(x, y, "")

-------------------------------------------------------------------------------
(* Numbers as exact decimals: sign, digits without outer zeros, and position *)
(* of the point: value = 0.d * 10^p                                          *)
RECURSIVE TrimR(_)
TrimR(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE LeadZeros(_)
LeadZeros(s) == IF s # "" /\ Ch(s, 1) = "0" THEN 1 + LeadZeros(Drop(s, 1)) ELSE 0
IntOf(s) == IF StartsWith(s, "-") THEN -NatOf(Drop(s, 1)) ELSE IF StartsWith(s, "+") THEN NatOf(Drop(s, 1)) ELSE NatOf(s)
Norm(text) ==
  LET neg == StartsWith(text, "-")
      s == IF neg THEN Drop(text, 1) ELSE text
      e == IndexOf(s, "e")
      mant == IF e = 0 THEN s ELSE SubSeq(s, 1, e - 1)
      ex == IF e = 0 THEN 0 ELSE IntOf(Drop(s, e))
      dot == IndexOf(mant, ".")
      whole == IF dot = 0 THEN mant ELSE SubSeq(mant, 1, dot - 1)
      frac == IF dot = 0 THEN "" ELSE Drop(mant, dot)
      all == whole \o frac
      z == LeadZeros(all)
      d == TrimR(Drop(all, z))
  IN IF d = "" THEN [s |-> 0, d |-> "", p |-> 0]
     ELSE [s |-> IF neg THEN -1 ELSE 1, d |-> d, p |-> Len(whole) + ex - z]
RECURSIVE CmpDigits(_, _)
CmpDigits(a, b) ==
  IF a = "" /\ b = "" THEN 0 ELSE IF a = "" THEN -1 ELSE IF b = "" THEN 1
  ELSE LET x == DigitVal[Ch(a, 1)]  y == DigitVal[Ch(b, 1)] IN
       IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CmpDigits(Drop(a, 1), Drop(b, 1))
CmpMag(a, b) == IF a.p < b.p THEN -1 ELSE IF a.p > b.p THEN 1 ELSE CmpDigits(a.d, b.d)
Cmp(x, y) == LET a == Norm(x)  b == Norm(y) IN
  IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1) ELSE IF a.s = 0 THEN 0 ELSE a.s * CmpMag(a, b)
IsNum(J) == J.k \in {"int", "float"}
Integral(J) == J.k = "int" \/ LET n == Norm(J.v) IN n.s = 0 \/ Len(n.d) <= n.p
MultipleOfTen(v, m) ==        \* m is a power of ten
  LET a == Norm(v)  b == Norm(m) IN a.s = 0 \/ Len(a.d) - a.p <= 1 - b.p

\* equality of JSON documents
RECURSIVE JsonEq(_, _)
JsonEq(x, y) ==
  IF IsNum(x) /\ IsNum(y) THEN Norm(x.v) = Norm(y.v)
  ELSE IF x.k # y.k THEN FALSE
  ELSE IF x.k = "arr" THEN Len(x.a) = Len(y.a) /\ \A i \in 1..Len(x.a) : JsonEq(x.a[i], y.a[i])
  ELSE IF x.k = "map" THEN Len(x.m) = Len(y.m) /\ \A i \in 1..Len(x.m) : HasMember(y, x.m[i].n) /\ JsonEq(x.m[i].j, Member(y, x.m[i].n))
  ELSE x.v = y.v

-------------------------------------------------------------------------------
(* The meaning of a schema (JSON Schema 2020-12, the keywords that appear).  *)
(* G = [root, shape, rx]: the document that references resolve in; whether   *)
(* only the shape counts (see C08); facts about patterns as triples.         *)
Opt1(J, n) == HasMember(J, n)
OfType(t, J) ==
  CASE t = "null" -> J.k = "null" [] t = "boolean" -> J.k = "bool" [] t = "string" -> J.k = "str"
    [] t = "number" -> IsNum(J) [] t = "integer" -> IsNum(J) /\ Integral(J)
    [] t = "array" -> J.k = "arr" [] t = "object" -> J.k = "map" [] OTHER -> FALSE
RECURSIVE Resolve(_, _)
Resolve(path, J) == IF path = <<>> THEN <<J>>
                    ELSE IF J.k = "map" /\ HasMember(J, Head(path)) THEN Resolve(Tail(path), Member(J, Head(path))) ELSE <<>>
\* a reference "#/a/b"
Target(ref, root) == IF ~StartsWith(ref, "#/") THEN <<>> ELSE Resolve(SplitBy(Drop(ref, 2), "/"), root)
RxMatches(G, p, s) == \E i \in 1..Len(G.rx) : G.rx[i].p = p /\ G.rx[i].s = s /\ G.rx[i].m

RECURSIVE Valid(_, _, _)
Valid(X, J, G) ==
  IF X.k = "bool" THEN X.v = "True"
  ELSE LET kw(n) == Member(X, n)  has(n) == HasMember(X, n) IN
  /\ has("$ref") => LET t == Target(kw("$ref").v, G.root) IN t # <<>> /\ Valid(t[1], J, G)
  /\ has("type") => OfType(kw("type").v, J)
  /\ has("const") => JsonEq(kw("const"), J)
  /\ has("enum") => \E i \in 1..Len(kw("enum").a) : JsonEq(kw("enum").a[i], J)
  /\ has("oneOf") => LET n == Cardinality({i \in 1..Len(kw("oneOf").a) : Valid(kw("oneOf").a[i], J, G)}) IN
                     IF G.shape THEN n >= 1 ELSE n = 1
  /\ has("anyOf") => \E i \in 1..Len(kw("anyOf").a) : Valid(kw("anyOf").a[i], J, G)
  /\ has("allOf") => \A i \in 1..Len(kw("allOf").a) : Valid(kw("allOf").a[i], J, G)
  /\ (J.k = "map" /\ has("properties")) =>
        \A i \in 1..Len(J.m) : HasMember(kw("properties"), J.m[i].n) =>
           (G.shape /\ J.m[i].j.k = "null") \/ Valid(Member(kw("properties"), J.m[i].n), J.m[i].j, G)
  /\ (J.k = "map" /\ has("additionalProperties")) =>
        \A i \in 1..Len(J.m) : (has("properties") /\ HasMember(kw("properties"), J.m[i].n)) \/ Valid(kw("additionalProperties"), J.m[i].j, G)
  /\ (J.k = "map" /\ has("propertyNames") /\ HasMember(kw("propertyNames"), "pattern")) =>
        \A i \in 1..Len(J.m) : RxMatches(G, Member(kw("propertyNames"), "pattern").v, J.m[i].n)
  /\ (J.k = "map" /\ has("required") /\ ~G.shape) => \A i \in 1..Len(kw("required").a) : HasMember(J, kw("required").a[i].v)
  /\ (J.k = "arr" /\ has("prefixItems")) =>
        \A i \in 1..Len(J.a) : i <= Len(kw("prefixItems").a) => Valid(kw("prefixItems").a[i], J.a[i], G)
  /\ (J.k = "arr" /\ has("items")) =>
        LET skipped == IF has("prefixItems") THEN Len(kw("prefixItems").a) ELSE 0 IN
        \A i \in 1..Len(J.a) : i > skipped => Valid(kw("items"), J.a[i], G)
  /\ (J.k = "arr" /\ has("minItems")) => Cmp(ToString(Len(J.a)), kw("minItems").v) >= 0
  /\ (J.k = "arr" /\ has("maxItems")) => Cmp(ToString(Len(J.a)), kw("maxItems").v) <= 0
  /\ (J.k = "arr" /\ has("uniqueItems") /\ kw("uniqueItems").v = "True" /\ ~G.shape) =>
        \A i, j \in 1..Len(J.a) : i < j => ~JsonEq(J.a[i], J.a[j])
  /\ (IsNum(J) /\ ~G.shape) =>
       /\ has("minimum") => Cmp(J.v, kw("minimum").v) >= 0
       /\ has("maximum") => Cmp(J.v, kw("maximum").v) <= 0
       /\ has("exclusiveMinimum") => Cmp(J.v, kw("exclusiveMinimum").v) > 0
       /\ has("exclusiveMaximum") => Cmp(J.v, kw("exclusiveMaximum").v) < 0
       /\ has("multipleOf") => MultipleOfTen(J.v, kw("multipleOf").v)
  /\ (J.k = "str" /\ ~G.shape) =>
       /\ has("minLength") => Cmp(ToString(Len(J.v)), kw("minLength").v) >= 0
       /\ has("maxLength") => Cmp(ToString(Len(J.v)), kw("maxLength").v) <= 0
       /\ has("pattern") => RxMatches(G, kw("pattern").v, J.v)

\* every reference resolves
AllDefined(X) == \A r \in Refs(X) : Target(r, X) # <<>>
=============================================================================
