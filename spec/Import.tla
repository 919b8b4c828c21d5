------------------------------- MODULE Import --------------------------------
(* Types created from schemas (C13).                                          *)
(* Shape of a type: [k] for simple types; [k |-> "fix", n]; [k |-> "prec",    *)
(* s, d]; [k |-> "len", lo, hi]; [k |-> "list", a]; [k |-> "union", a];       *)
(* [k |-> "enum", v] with the texts of its members; [k |-> "lit", v];         *)
(* [k |-> "json"]; [k |-> "rec", f] with fields [n, t, d], d = <<value>> or   *)
(* <<>>; and [k |-> "vague"] for what the property leaves open.               *)
EXTENDS Flatten, SchemaDiff

Vague == [k |-> "vague"]
Solid(k) == [k |-> k]
TUnion(ts) == [k |-> "union", a |-> ts]

RECURSIVE Spread(_)
Spread(ts) == IF ts = <<>> THEN <<>> ELSE (IF Head(ts).k = "union" THEN Spread(Head(ts).a) ELSE <<Head(ts)>>) \o Spread(Tail(ts))

\* a default value, whatever the class of an enumeration is called
DEq(x, y) == IF x.k = "vague" \/ y.k = "vague" THEN TRUE
             ELSE IF x.k = "decimal" /\ y.k = "decimal" THEN Norm(x.v) = Norm(y.v)
             ELSE x = y
RECURSIVE TEq(_, _)
TEq(x, y) ==
  IF x.k = "vague" \/ y.k = "vague" THEN TRUE
  ELSE IF x.k # y.k THEN FALSE
  ELSE CASE x.k = "list" -> TEq(x.a[1], y.a[1])
         [] x.k = "union" -> /\ \A i \in 1..Len(x.a) : \E j \in 1..Len(y.a) : TEq(x.a[i], y.a[j])
                             /\ \A j \in 1..Len(y.a) : \E i \in 1..Len(x.a) : TEq(x.a[i], y.a[j])
         [] x.k = "enum" -> {x.v[i] : i \in 1..Len(x.v)} = {y.v[i] : i \in 1..Len(y.v)} /\ Len(x.v) = Len(y.v)
         [] x.k = "rec" -> /\ Len(x.f) = Len(y.f)
                           /\ \A i \in 1..Len(x.f) : \E j \in 1..Len(y.f) :
                                /\ x.f[i].n = y.f[j].n /\ TEq(x.f[i].t, y.f[j].t)
                                /\ Len(x.f[i].d) = Len(y.f[j].d) /\ (x.f[i].d # <<>> => DEq(x.f[i].d[1], y.f[j].d[1]))
         [] OTHER -> x = y

\* a union without repeated members
RECURSIVE Once(_, _)
Once(ts, done) == IF ts = <<>> THEN done
                  ELSE Once(Tail(ts), IF \E i \in 1..Len(done) : TEq(done[i], Head(ts)) THEN done ELSE Append(done, Head(ts)))
UnionShape(ts) ==
  LET ms == TLCEval(Spread(ts))  us == TLCEval(Once(ms, <<>>)) IN
  IF \E i \in 1..Len(ms) : ms[i].k \in {"vague", "json"} THEN Vague ELSE IF Len(us) = 1 THEN us[1] ELSE TUnion(us)

\* the first difference, for the report
RECURSIVE TDiff(_, _)
TDiff(x, y) ==
  IF TEq(x, y) THEN "" ELSE IF x.k # y.k THEN ": " \o x.k \o " is " \o y.k
  ELSE IF x.k = "list" THEN "[]" \o TDiff(x.a[1], y.a[1])
  ELSE IF x.k = "rec" THEN
    (IF Len(x.f) # Len(y.f) THEN ": number of fields"
     ELSE LET bad == {i \in 1..Len(x.f) : ~\E j \in 1..Len(y.f) : x.f[i].n = y.f[j].n /\ TEq(x.f[i].t, y.f[j].t)}
              lost == {i \in 1..Len(x.f) : ~\E j \in 1..Len(y.f) : x.f[i].n = y.f[j].n}
          IN IF lost # {} THEN ": no field " \o x.f[CHOOSE i \in lost : TRUE].n
             ELSE IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE  j == CHOOSE j \in 1..Len(y.f) : x.f[i].n = y.f[j].n IN "." \o x.f[i].n \o TDiff(x.f[i].t, y.f[j].t)
             ELSE ": default of a field")
  ELSE ": " \o x.k

-------------------------------------------------------------------------------
(* The shape of a declared type *)
ImportText == TextKinds \ {"bytes"}
NeverNone(t) == t.k # "none"
MarkOf(ms, mk) == {ms[i] : i \in {i \in 1..Len(ms) : ms[i].mk = mk}}
TheMark(ms, mk) == CHOOSE m \in MarkOf(ms, mk) : TRUE
Marked(k, ms) ==
  IF k \in {"int", "float"} /\ FixedNames(k, ms) # {} THEN [k |-> "fix", n |-> CHOOSE f \in FixedNames(k, ms) : TRUE]
  ELSE IF k = "decimal" /\ MarkOf(ms, "prec") # {} THEN
    LET m == TheMark(ms, "prec") IN [k |-> "prec", s |-> m.i[1], d |-> IF Len(m.i) > 1 THEN m.i[2] ELSE "0"]
  ELSE IF k = "str" /\ (MarkOf(ms, "len") \cup MarkOf(ms, "minlen") \cup MarkOf(ms, "maxlen")) # {} THEN
    LET val(mk) == IF MarkOf(ms, "len") # {} THEN TheMark(ms, "len").i[1] ELSE IF MarkOf(ms, mk) # {} THEN TheMark(ms, mk).i[1] ELSE ""
    IN [k |-> "len", lo |-> val("minlen"), hi |-> val("maxlen")]
  ELSE IF k = "decimal" \/ MarkOf(ms, "range") \cup MarkOf(ms, "prec") # {} THEN Vague
  ELSE Solid(k)

DefaultOf(V, E) == IF V.k = "enum" THEN [k |-> "enum", v |-> EnumValue(E, V.n, V.v).v] ELSE V

RECURSIVE ShapeOf(_, _), FieldShape(_, _)
ShapeOf(T, E) ==
  CASE T.k \in {"none", "bool", "int", "float", "str"} \cup TextKinds -> Solid(T.k)
    [] T.k = "decimal" -> Vague
    [] T.k \in {"json", "jobj"} -> Solid("json")
    [] T.k = "ann" -> LET F == Flatten(T) IN IF F.a[1].k \in SimpleKinds THEN Marked(F.a[1].k, F.m) ELSE ShapeOf(F.a[1], E)
    [] T.k = "ref" -> ShapeOf(Bare(T, E), E)
    [] T.k = "list" -> [k |-> "list", a |-> <<ShapeOf(T.a[1], E)>>]
    [] T.k = "union" -> UnionShape([i \in 1..Len(T.a) |-> ShapeOf(T.a[i], E)])
    [] T.k = "lit" -> IF Len(T.v) = 1 /\ IsScalarKind(T.v[1].k) THEN [k |-> "lit", v |-> T.v[1]] ELSE Vague
    [] T.k = "enum" -> [k |-> "enum", v |-> [i \in 1..Len(E.enm[T.n]) |-> E.enm[T.n][i].v.v]]
    [] T.k = "cls" -> LET fs == E.cls[T.n].f IN [k |-> "rec", f |-> [i \in 1..Len(fs) |-> FieldShape(fs[i], E)]]
    [] OTHER -> [k |-> "alien", v |-> T.k]
FieldShape(f, E) ==
  [n |-> f.n, t |-> ShapeOf(f.t, E),
   d |-> IF f.d.k = "val" /\ f.d.v[1].k # "none" THEN <<DefaultOf(f.d.v[1], E)>> ELSE IF f.d.k = "fac" THEN <<Vague>> ELSE <<>>]

-------------------------------------------------------------------------------
(* Which schemas can be imported *)
ScalarTypes == {"boolean", "integer", "number", "string"}
KindOfNode(J) ==
  IF J.k # "map" THEN "" ELSE IF HasMember(J, "$ref") THEN "ref" ELSE IF HasMember(J, "oneOf") THEN "oneOf"
  ELSE IF ~HasMember(J, "type") \/ Member(J, "type").k # "str" THEN ""
  ELSE IF Member(J, "type").v \in ScalarTypes \cup {"array", "object"} THEN Member(J, "type").v ELSE ""
Common == {"title", "description"}
KnownKeywords(kind) ==
  CASE kind = "ref" -> Common \cup {"$ref"}
    [] kind = "oneOf" -> Common \cup {"oneOf"}
    [] kind = "boolean" -> Common \cup {"type", "format", "const", "default", "examples"}
    [] kind = "integer" -> Common \cup {"type", "format", "const", "default", "examples", "enum", "minimum", "maximum"}
    [] kind = "number" -> Common \cup {"type", "format", "const", "default", "examples", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"}
    [] kind = "string" -> Common \cup {"type", "format", "const", "default", "examples", "enum", "minLength", "maxLength"}
    [] kind = "array" -> Common \cup {"type", "format", "items"}
    [] kind = "object" -> Common \cup {"type", "format", "properties", "additionalProperties", "required"}
ScalarFits(kind, x) == CASE kind = "boolean" -> x.k = "bool" [] kind = "integer" -> x.k = "int" [] kind = "number" -> IsNum(x) [] OTHER -> x.k = "str"
IsListOf(kind, x) == x.k = "arr" /\ \A i \in 1..Len(x.a) : ScalarFits(kind, x.a[i])
KeywordFits(kind, n, x) ==
  CASE n \in {"title", "description", "format", "$ref", "type"} -> x.k = "str"
    [] n \in {"const", "default", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"} -> ScalarFits(kind, x)
    [] n \in {"examples", "enum"} -> IsListOf(kind, x)
    [] n \in {"minLength", "maxLength"} -> x.k = "int"
    [] n = "additionalProperties" -> x.k = "bool"
    [] n = "required" -> IsListOf("string", x)
    [] n = "properties" -> x.k = "map"
    [] n = "oneOf" -> x.k = "arr" /\ x.a # <<>>
    [] OTHER -> TRUE

WordChars == CharSet("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
IsWord(s) == s # "" /\ AllIn(s, WordChars)
IsFieldName(s) == IsWord(s) /\ Ch(s, 1) \notin Digits
FieldName(s) == IF s \in Keywords THEN s \o "_" ELSE s
DefPath == "#/definitions/"
RefName(J) == Drop(Member(J, "$ref").v, Len(DefPath))
FormatKind(J) ==
  IF ~HasMember(J, "format") THEN ""
  ELSE LET f == Member(J, "format").v IN
       CASE f = "date-time" -> "datetime" [] f = "duration" -> "timedelta" [] f \in {"date", "time", "uuid", "ipv4", "ipv6"} -> f [] OTHER -> ""
Texts(J) == [i \in 1..Len(J.a) |-> J.a[i].v]
Kwd(J, n) == Member(J, n)
Maybe(J, n) == HasMember(J, n)

\* the value that a scalar node gives as default: <<value>>, or <<>> if it is not one of its type
FloatOf(x) == IF x.k = "int" THEN IntAsFloat(x.v) ELSE <<x>>
DefaultValue(kind, J) ==
  LET x == Kwd(J, "default") IN
  IF Maybe(J, "const") THEN (IF kind = "number" THEN (IF FloatOf(x) = <<>> THEN <<Vague>> ELSE FloatOf(x)) ELSE <<x>>)
  ELSE CASE kind = "number" ->
              IF Maybe(J, "multipleOf") /\ Maybe(J, "exclusiveMinimum") /\ Maybe(J, "exclusiveMaximum") THEN
                (IF Cmp(Kwd(J, "exclusiveMinimum").v, "-" \o Kwd(J, "exclusiveMaximum").v) = 0 THEN <<[k |-> "decimal", v |-> x.v]>> ELSE <<Vague>>)
              ELSE IF FloatOf(x) = <<>> THEN <<Vague>> ELSE FloatOf(x)
         [] kind = "string" /\ FormatKind(J) # "" ->
              LET r == TLCEval(ParseText(FormatKind(J), x.v)) IN IF r.r = "ok" THEN r.v ELSE IF r.r = "any" THEN <<Vague>> ELSE <<>>
         [] kind = "string" /\ Maybe(J, "enum") -> IF \E i \in 1..Len(Kwd(J, "enum").a) : Kwd(J, "enum").a[i] = x THEN <<[k |-> "enum", v |-> x.v]>> ELSE <<>>
         [] OTHER -> <<x>>

Path10(n) == IF n = 0 THEN "1" ELSE "1" \o Rep("0", n)
PowerOfTen(x) == LET n == Norm(x) IN n.s = 1 /\ n.d = "1"
Exponent(x) == Norm(x).p - 1

\* each node can be read and fits; defs: names of definitions
RECURSIVE Importable(_, _), Refused(_)
Importable(J, defs) ==
  LET kind == KindOfNode(J) IN
  /\ kind # ""
  /\ \A i \in 1..Len(J.m) : J.m[i].n \in KnownKeywords(kind) /\ KeywordFits(kind, J.m[i].n, J.m[i].j)
  /\ CASE kind = "ref" -> StartsWith(Kwd(J, "$ref").v, DefPath) /\ IsWord(RefName(J)) /\ RefName(J) \in defs
       [] kind = "oneOf" -> \A i \in 1..Len(Kwd(J, "oneOf").a) : Importable(Kwd(J, "oneOf").a[i], defs) /\ ~Refused(Kwd(J, "oneOf").a[i])
       [] kind = "array" -> Maybe(J, "items") /\ Importable(Kwd(J, "items"), defs) /\ ~Refused(Kwd(J, "items"))
       [] kind = "object" ->
            /\ \A i \in 1..Len(Props(J)) : Importable(Props(J)[i].j, defs) /\ IsFieldName(Props(J)[i].n)
            /\ Maybe(J, "properties") => Maybe(J, "additionalProperties") /\ Kwd(J, "additionalProperties") = JFalse
       [] OTHER -> Maybe(J, "default") => DefaultValue(kind, J) # <<>>
\* a default where there is no field to take it
Refused(J) == J.k = "map" /\ HasMember(J, "default")

\* defaults that may be refused: of decimals, and texts that C06 leaves open
RECURSIVE OpenDefault(_)
OpenDefault(J) ==
  LET kind == KindOfNode(J) IN
  CASE kind = "number" -> Maybe(J, "default") /\ Maybe(J, "multipleOf") /\ ~Maybe(J, "const")
    [] kind = "string" -> Maybe(J, "default") /\ ~Maybe(J, "const") /\ FormatKind(J) # "" /\ ParseText(FormatKind(J), Kwd(J, "default").v).r = "any"
    [] kind = "object" -> \E i \in 1..Len(Props(J)) : OpenDefault(Props(J)[i].j)
    [] kind = "array" -> OpenDefault(Kwd(J, "items"))
    [] kind = "oneOf" -> \E i \in 1..Len(Kwd(J, "oneOf").a) : OpenDefault(Kwd(J, "oneOf").a[i])
    [] OTHER -> FALSE

Definitions(Z) == IF HasMember(Z, "definitions") THEN Member(Z, "definitions").m ELSE <<>>
DefNames(Z) == {Definitions(Z)[i].n : i \in 1..Len(Definitions(Z))}
DefOf(Z, n) == Member(Member(Z, "definitions"), n)
TopObject(Z) == DropMember(DropMember(Z, "definitions"), "$schema")

\* references in the positions of schemas
RECURSIVE Mentions(_)
Mentions(J) ==
  LET kind == KindOfNode(J) IN
  CASE kind = "ref" -> {RefName(J)}
    [] kind = "oneOf" -> UNION {Mentions(Kwd(J, "oneOf").a[i]) : i \in 1..Len(Kwd(J, "oneOf").a)}
    [] kind = "array" -> Mentions(Kwd(J, "items"))
    [] kind = "object" -> UNION {Mentions(Props(J)[i].j) : i \in 1..Len(Props(J))}
    [] OTHER -> {}
RECURSIVE Reach(_, _, _)
Reach(Z, todo, done) == IF todo = {} THEN done
                        ELSE LET n == CHOOSE n \in todo : TRUE IN Reach(Z, (todo \cup (Mentions(DefOf(Z, n)) \ done)) \ {n}, done \cup {n})
Cyclic(Z) == \E n \in DefNames(Z) : n \in Reach(Z, Mentions(DefOf(Z, n)), {})

\* keywords set to null may count as absent
RECURSIVE NullWord(_)
NullWord(J) == \/ J.k = "null"
               \/ J.k = "map" /\ \E i \in 1..Len(J.m) : NullWord(J.m[i].j)
               \/ J.k = "arr" /\ \E i \in 1..Len(J.a) : NullWord(J.a[i])

Accepted(Z) ==
  /\ Z.k = "map" /\ HasMember(Z, "$schema") /\ Member(Z, "$schema").k = "str"
  /\ (HasMember(Z, "definitions") => Member(Z, "definitions").k = "map")
  /\ KindOfNode(TopObject(Z)) = "object"
  /\ Importable(TopObject(Z), DefNames(Z))
  /\ \A i \in 1..Len(Definitions(Z)) : Importable(Definitions(Z)[i].j, DefNames(Z)) /\ ~Refused(Definitions(Z)[i].j)
  /\ ~Cyclic(Z)

-------------------------------------------------------------------------------
(* The type that a node stands for; env: shapes of the definitions [n, t] *)
EnvShape(env, n) == LET i == CHOOSE i \in 1..Len(env) : env[i].n = n IN env[i].t
Only(J, kws) == \A i \in 1..Len(J.m) : J.m[i].n \in kws \cup Common \cup {"type"}
FixNames(b) == {FixedWidth[i].n : i \in {i \in 1..Len(FixedWidth) : FixedWidth[i].b = b}}
ConstOf(kind, J) == LET x == Kwd(J, "const") IN
  IF kind = "number" THEN (IF FloatOf(x) = <<>> THEN Vague ELSE [k |-> "lit", v |-> FloatOf(x)[1]]) ELSE [k |-> "lit", v |-> x]
RECURSIVE NodeShape(_, _)
NodeShape(J, env) ==
  LET kind == KindOfNode(J) IN
  CASE kind = "ref" -> EnvShape(env, RefName(J))
    [] kind \in ScalarTypes /\ Maybe(J, "const") -> IF Only(J, {"const", "default", "examples"}) THEN ConstOf(kind, J) ELSE Vague
    [] kind = "boolean" -> IF Only(J, {"default", "examples"}) THEN Solid("bool") ELSE Vague
    [] kind = "integer" ->
         IF Only(J, {"default", "examples"}) THEN Solid("int")
         ELSE IF Only(J, {"default", "examples", "format"}) /\ Kwd(J, "format").v \in FixNames("int") THEN [k |-> "fix", n |-> Kwd(J, "format").v]
         ELSE Vague
    [] kind = "number" ->
         IF Only(J, {"default", "examples"}) THEN Solid("float")
         ELSE IF Only(J, {"default", "examples", "format"}) /\ Kwd(J, "format").v \in FixNames("float") THEN [k |-> "fix", n |-> Kwd(J, "format").v]
         ELSE IF Only(J, {"default", "examples", "multipleOf", "exclusiveMinimum", "exclusiveMaximum"})
                 /\ Maybe(J, "multipleOf") /\ Maybe(J, "exclusiveMinimum") /\ Maybe(J, "exclusiveMaximum")
                 /\ PowerOfTen(Kwd(J, "multipleOf").v) /\ PowerOfTen(Kwd(J, "exclusiveMaximum").v)
                 /\ Cmp(Kwd(J, "exclusiveMinimum").v, "-" \o Kwd(J, "exclusiveMaximum").v) = 0
              THEN LET whole == Exponent(Kwd(J, "exclusiveMaximum").v)  dec == -Exponent(Kwd(J, "multipleOf").v) IN
                   IF dec < 0 \/ whole < 0 THEN Vague ELSE [k |-> "prec", s |-> ToString(whole + dec), d |-> ToString(dec)]
         ELSE Vague
    [] kind = "string" ->
         IF Only(J, {"default", "examples"}) THEN Solid("str")
         ELSE IF Only(J, {"default", "examples", "format"}) THEN (IF FormatKind(J) # "" THEN Solid(FormatKind(J)) ELSE Vague)
         ELSE IF Only(J, {"default", "examples", "enum"}) THEN (IF Kwd(J, "enum").a = <<>> THEN Vague ELSE [k |-> "enum", v |-> Texts(Kwd(J, "enum"))])
         ELSE IF Only(J, {"default", "examples", "minLength", "maxLength"}) THEN
           LET val(n) == IF Maybe(J, n) THEN Kwd(J, n).v ELSE "" IN [k |-> "len", lo |-> val("minLength"), hi |-> val("maxLength")]
         ELSE Vague
    [] kind = "array" -> IF Only(J, {"items"}) THEN [k |-> "list", a |-> <<NodeShape(Kwd(J, "items"), env)>>] ELSE Vague
    [] kind = "oneOf" -> UnionShape([i \in 1..Len(Kwd(J, "oneOf").a) |-> NodeShape(Kwd(J, "oneOf").a[i], env)])
    [] kind = "object" ->
         IF ~Maybe(J, "properties") THEN Solid("json")
         ELSE LET ps == Props(J)
                  field(p) ==
                    LET t == NodeShape(p.j, env)
                        whole == IF p.n \in Needed(J) \/ t.k = "json" THEN t ELSE IF t.k = "vague" THEN t ELSE UnionShape(<<t, Solid("none")>>)
                        d == IF Maybe(p.j, "default") THEN DefaultValue(KindOfNode(p.j), p.j) ELSE <<>>
                    IN [n |-> FieldName(p.n), t |-> whole, d |-> d]
              IN [k |-> "rec", f |-> [i \in 1..Len(ps) |-> field(ps[i])]]

\* definitions in an order in which they can be created
RECURSIVE Created(_, _)
Created(Z, env) ==
  LET done == {env[i].n : i \in 1..Len(env)}
      ready == {n \in DefNames(Z) \ done : Mentions(DefOf(Z, n)) \subseteq done}
  IN IF ready = {} THEN env
     ELSE LET n == CHOOSE n \in ready : TRUE IN Created(Z, TLCEval(Append(env, [n |-> n, t |-> NodeShape(DefOf(Z, n), env)])))
SchemaShape(Z) == NodeShape(TopObject(Z), Created(Z, <<>>))

\* no name stands for two things
OddName(n) == EndsWith(n, "_") /\ SubSeq(n, 1, Len(n) - 1) \in Keywords

-------------------------------------------------------------------------------
(* The schema with its references expanded, and when it is regenerated whole *)
RECURSIVE Expanded(_, _)
Expanded(J, Z) ==
  LET kind == KindOfNode(J) IN
  CASE kind = "ref" ->
         LET body == Expanded(DefOf(Z, RefName(J)), Z) IN
         IF Maybe(J, "description") THEN Put(DropMember(body, "title"), "description", Kwd(J, "description")) ELSE body
    [] kind = "oneOf" -> Put(J, "oneOf", JArr([i \in 1..Len(Kwd(J, "oneOf").a) |-> Expanded(Kwd(J, "oneOf").a[i], Z)]))
    [] kind = "array" -> Put(J, "items", Expanded(Kwd(J, "items"), Z))
    [] kind = "object" /\ Props(J) # <<>> -> Put(J, "properties", JMap([i \in 1..Len(Props(J)) |-> P(Props(J)[i].n, Expanded(Props(J)[i].j, Z))]))
    [] OTHER -> J

Regular(s) == \A c \in CharSet(s) : c \notin {":", "\t", "\r"}
DefaultKept(J) ==
  /\ (FormatKind(J) # "" => LET r == DefaultValue("string", J) IN r # <<>> /\ r[1].k # "vague" /\ HasText(r[1]) /\ TextOf(r[1]) = Kwd(J, "default").v)
  /\ FormatKind(J) \notin {"uuid", "ipv4", "ipv6"} /\ ~Maybe(J, "multipleOf")
\* place: "top", "prop", "item" (of an array, union, or definition)
RECURSIVE Whole(_, _, _)
Whole(J, place, env) ==
  LET kind == KindOfNode(J)
      owned == kind = "object" \/ (kind = "string" /\ Maybe(J, "enum") /\ ~Maybe(J, "const") /\ ~Maybe(J, "format"))
      docs == /\ \A n \in Common : Maybe(J, n) => Kwd(J, n).v # "" /\ Regular(Kwd(J, n).v)
              /\ Maybe(J, "title") => owned
              /\ (Maybe(J, "description") /\ ~Maybe(J, "title")) => place = "prop"
  IN /\ docs /\ ~Maybe(J, "examples")
     /\ (Maybe(J, "default") => DefaultKept(J))
     /\ CASE kind = "ref" -> TRUE
          [] kind = "oneOf" -> Len(Kwd(J, "oneOf").a) > 1 /\ \A i \in 1..Len(Kwd(J, "oneOf").a) : Whole(Kwd(J, "oneOf").a[i], "item", env) /\ KindOfNode(Kwd(J, "oneOf").a[i]) \notin {"oneOf", "ref"}
                             /\ Len(Once([h \in 1..Len(Kwd(J, "oneOf").a) |-> NodeShape(Kwd(J, "oneOf").a[h], env)], <<>>)) = Len(Kwd(J, "oneOf").a)
          [] kind = "array" -> Whole(Kwd(J, "items"), "item", env)
          [] kind = "object" -> Props(J) # <<>> /\ (\A i \in 1..Len(Props(J)) : Whole(Props(J)[i].j, "prop", env) /\ ~OddName(Props(J)[i].n))
                                /\ (Maybe(J, "required") => Kwd(J, "required").a # <<>>) /\ Needed(J) \subseteq {Props(J)[i].n : i \in 1..Len(Props(J))}
          [] OTHER -> TRUE
RECURSIVE NoneVague(_)
NoneVague(t) == CASE t.k = "vague" -> FALSE [] t.k = "json" -> FALSE
                  [] t.k \in {"list", "union"} -> \A i \in 1..Len(t.a) : NoneVague(t.a[i])
                  [] t.k = "rec" -> \A i \in 1..Len(t.f) : NoneVague(t.f[i].t)
                  [] OTHER -> TRUE
Regenerates(Z) ==
  LET env == TLCEval(Created(Z, <<>>))  t == TLCEval(NodeShape(TopObject(Z), env)) IN
  /\ NoneVague(t) /\ Whole(TopObject(Z), "top", env)
  /\ \A i \in 1..Len(Definitions(Z)) : Whole(Definitions(Z)[i].j, "item", env)
Regenerated(Z) == Expanded(TopObject(Z), Z)
==============================================================================
