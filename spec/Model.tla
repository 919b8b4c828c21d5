-------------------------------- MODULE Model --------------------------------
(* Types, values, JSON documents, and the relation between them.             *)
(*                                                                           *)
(* Type:   [k] for "none" "bool" "int" "float" "str" and the text kinds;     *)
(*         [k, a] for "list" "set" "dict" "tuple" "union" "ann" (a: types);  *)
(*         "ann" also has m, a sequence of annotations [mk, s, i];           *)
(*         [k |-> "lit", v] with literal values v;                           *)
(*         [k |-> "cls"/"enum"/"ref", n] for named types.                    *)
(* Value:  [k, v] scalars (v is a string), [k, f] or [k, b] texts,           *)
(*         [k, a] list, tuple, set; [k |-> "dict", p] pairs [key, val];      *)
(*         [k |-> "enum", n, v] member v of n; [k |-> "obj", n, m] with      *)
(*         members [n, x].                                                   *)
(* JSON:   [k |-> "null"], [k, v] for "bool" "int" "float" "str",            *)
(*         [k |-> "arr", a], [k |-> "map", m] with members [n, j].           *)
(* Environment E: E.cls[n] = [kind, f] where f is a sequence of fields       *)
(*         [n, t, d], d = [k, v] with k in "no" "val" "fac" and v = <<value>>*)
(*         E.enm[n] = sequence of members [n, v]; E.als[n] = type alias.     *)
EXTENDS Codec

None == [k |-> "none", v |-> "None"]
IsScalarKind(k) == k \in {"none", "bool", "int", "float", "str"}

Has(f, x) == x \in DOMAIN f

-------------------------------------------------------------------------------
(* Type forms *)
RECURSIVE Bare(_, _)
Bare(T, E) ==          \* without annotations, references resolved
  IF T.k = "ann" THEN Bare(T.a[1], E)
  ELSE IF T.k = "ref" THEN
    (IF Has(E.cls, T.n) THEN [k |-> "cls", n |-> T.n]
     ELSE IF Has(E.enm, T.n) THEN [k |-> "enum", n |-> T.n]
     ELSE Bare(E.als[T.n], E))
  ELSE T

RECURSIVE Members(_, _)
Members(ts, E) ==      \* members of a union, nested unions spliced in as Python does
  IF ts = <<>> THEN <<>>
  ELSE LET h == Head(ts) IN
       (IF h.k = "union" THEN Members(h.a, E) ELSE <<h>>) \o Members(Tail(ts), E)

IsUnion(T, E) == Bare(T, E).k = "union"
IsNone(T, E) == Bare(T, E).k = "none"
UnionMembers(T, E) == Members(Bare(T, E).a, E)
IsOptional(T, E) == LET B == Bare(T, E) IN
                    B.k = "union" /\ \E i \in 1..Len(Members(B.a, E)) : Members(B.a, E)[i].k = "none"
NonNone(t) == t.k # "none"
WithoutNone(T, E) == LET ms == SelectSeq(UnionMembers(T, E), NonNone) IN
                     IF Len(ms) = 1 THEN ms[1] ELSE [k |-> "union", a |-> ms]

-------------------------------------------------------------------------------
(* Names *)
Keywords == {"False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue",
  "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if", "import", "in", "is",
  "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield"}

IsAlias(m) == m.mk = "alias"
PropName(field, T) ==
  LET al == IF T.k = "ann" THEN SelectSeq(T.m, IsAlias) ELSE <<>> IN
  IF al # <<>> THEN al[1].s
  ELSE IF EndsWith(field, "_") /\ SubSeq(field, 1, Len(field) - 1) \in Keywords
       THEN SubSeq(field, 1, Len(field) - 1) ELSE field

-------------------------------------------------------------------------------
(* Equality of values: sets and dictionaries irrespective of order *)
RECURSIVE VEq(_, _)
VEq(x, y) ==
  IF x.k # y.k THEN FALSE
  ELSE IF x.k \in {"list", "tuple"} THEN
    Len(x.a) = Len(y.a) /\ \A i \in 1..Len(x.a) : VEq(x.a[i], y.a[i])
  ELSE IF x.k = "set" THEN
    (\A i \in 1..Len(x.a) : \E j \in 1..Len(y.a) : VEq(x.a[i], y.a[j]))
    /\ (\A j \in 1..Len(y.a) : \E i \in 1..Len(x.a) : VEq(x.a[i], y.a[j]))
  ELSE IF x.k = "dict" THEN
    Len(x.p) = Len(y.p)
    /\ \A i \in 1..Len(x.p) : \E j \in 1..Len(y.p) : VEq(x.p[i].key, y.p[j].key) /\ VEq(x.p[i].val, y.p[j].val)
  ELSE IF x.k = "obj" THEN
    x.n = y.n /\ Len(x.m) = Len(y.m)
    /\ \A i \in 1..Len(x.m) : \E j \in 1..Len(y.m) : x.m[i].n = y.m[j].n /\ VEq(x.m[i].x, y.m[j].x)
  ELSE x = y

Field(obj, name) == LET i == CHOOSE i \in 1..Len(obj.m) : obj.m[i].n = name IN obj.m[i].x
HasField(obj, name) == \E i \in 1..Len(obj.m) : obj.m[i].n = name
Member(J, name) == LET i == CHOOSE i \in 1..Len(J.m) : J.m[i].n = name IN J.m[i].j
HasMember(J, name) == \E i \in 1..Len(J.m) : J.m[i].n = name
EnumValue(E, n, member) == LET ms == E.enm[n]  i == CHOOSE i \in 1..Len(ms) : ms[i].n = member IN ms[i].v

-------------------------------------------------------------------------------
(* A value conforms to a type at every level *)
RECURSIVE Jsonish(_)
Jsonish(V) == CASE V.k = "list" -> \A i \in 1..Len(V.a) : Jsonish(V.a[i])
                [] V.k = "dict" -> \A i \in 1..Len(V.p) : V.p[i].key.k = "str" /\ Jsonish(V.p[i].val)
                [] OTHER -> IsScalarKind(V.k)
RECURSIVE NoNulls(_)
NoNulls(V) == CASE V.k = "list" -> \A i \in 1..Len(V.a) : NoNulls(V.a[i])
                [] V.k = "dict" -> \A i \in 1..Len(V.p) : NoNulls(V.p[i].val)
                [] OTHER -> V.k # "none"
RECURSIVE Conforms(_, _, _)
Conforms(V, T, E) ==
  CASE T.k \in {"any", "json"} -> Jsonish(V)
    [] T.k = "sjson" -> Jsonish(V) /\ NoNulls(V)
    [] T.k = "jobj" -> V.k = "dict" /\ Jsonish(V)
    [] T.k = "jarr" -> V.k = "list" /\ Jsonish(V)
    [] T.k = "ann" -> Conforms(V, T.a[1], E)
    [] T.k = "ref" -> Conforms(V, Bare(T, E), E)
    [] T.k = "list" -> V.k = "list" /\ \A i \in 1..Len(V.a) : Conforms(V.a[i], T.a[1], E)
    [] T.k = "set" -> V.k = "set" /\ \A i \in 1..Len(V.a) : Conforms(V.a[i], T.a[1], E)
    [] T.k = "dict" -> V.k = "dict" /\ \A i \in 1..Len(V.p) :
                         Conforms(V.p[i].key, T.a[1], E) /\ Conforms(V.p[i].val, T.a[2], E)
    [] T.k = "tuple" -> V.k = "tuple" /\ Len(V.a) = Len(T.a) /\ \A i \in 1..Len(V.a) : Conforms(V.a[i], T.a[i], E)
    [] T.k = "union" -> \E i \in 1..Len(T.a) : Conforms(V, T.a[i], E)
    [] T.k = "lit" -> \E i \in 1..Len(T.v) : V = T.v[i]
    [] T.k = "enum" -> V.k = "enum" /\ V.n = T.n
    [] T.k = "cls" -> /\ V.k = "obj" /\ V.n = T.n
                      /\ LET fs == E.cls[T.n].f IN
                         /\ Len(V.m) = Len(fs)
                         /\ \A i \in 1..Len(fs) : HasField(V, fs[i].n) /\ Conforms(Field(V, fs[i].n), fs[i].t, E)
    [] OTHER -> V.k = T.k

-------------------------------------------------------------------------------
(* Serialization: J is a JSON representation of V.  Sets may be written in   *)
(* any order, and so may the members of an object.                           *)
KeyText(key, E) == IF key.k = "enum" THEN EnumValue(E, key.n, key.v).v ELSE key.v

RECURSIVE SerMatch(_, _, _)
SerMatch(V, J, E) ==
  IF V.k = "none" THEN J.k = "null"
  ELSE IF IsScalarKind(V.k) THEN J.k = V.k /\ J.v = V.v
  ELSE IF V.k \in TextKinds THEN HasText(V) /\ J.k = "str" /\ J.v = TextOf(V)
  ELSE IF V.k = "enum" THEN SerMatch(EnumValue(E, V.n, V.v), J, E)
  ELSE IF V.k \in {"list", "tuple"} THEN
    J.k = "arr" /\ Len(J.a) = Len(V.a) /\ \A i \in 1..Len(V.a) : SerMatch(V.a[i], J.a[i], E)
  ELSE IF V.k = "set" THEN
    J.k = "arr" /\ Len(J.a) = Len(V.a)
    /\ (\A i \in 1..Len(V.a) : \E j \in 1..Len(J.a) : SerMatch(V.a[i], J.a[j], E))
    /\ (\A j \in 1..Len(J.a) : \E i \in 1..Len(V.a) : SerMatch(V.a[i], J.a[j], E))
  ELSE IF V.k = "dict" THEN
    J.k = "map" /\ Len(J.m) = Len(V.p)
    /\ \A i \in 1..Len(V.p) : J.m[i].n = KeyText(V.p[i].key, E) /\ SerMatch(V.p[i].val, J.m[i].j, E)
  ELSE IF V.k = "obj" THEN
    LET c == E.cls[V.n]
        fs == c.f
        name(i) == PropName(fs[i].n, IF c.kind \in {"untyped", "unt"} THEN [k |-> "int"] ELSE fs[i].t)
        given == {i \in 1..Len(fs) : Field(V, fs[i].n).k # "none"}
        \* None in a tuple without declared types: absent or null
        shown == given \cup (IF c.kind = "unt" /\ J.k = "map" THEN {i \in 1..Len(fs) : HasMember(J, name(i))} ELSE {})
    IN IF c.kind = "custom" THEN J.k = "str" /\ J.v = "v:" \o Field(V, fs[1].n).v
       ELSE /\ J.k = "map" /\ Len(J.m) = Cardinality(shown)
            /\ \A i \in shown : HasMember(J, name(i)) /\ SerMatch(Field(V, fs[i].n), Member(J, name(i)), E)
  ELSE FALSE

\* serialization is refused: a timestamp without UTC offset somewhere in a position that is written
RECURSIVE Unwritable(_, _)
Unwritable(V, E) ==
  CASE V.k = "datetime" -> ~HasText(V)
    [] V.k \in {"list", "tuple", "set"} -> \E i \in 1..Len(V.a) : Unwritable(V.a[i], E)
    [] V.k = "dict" -> \E i \in 1..Len(V.p) : Unwritable(V.p[i].val, E)
    [] V.k = "obj" -> \E i \in 1..Len(V.m) : Unwritable(V.m[i].x, E)
    [] OTHER -> FALSE

\* one JSON representation (sets in the given order, members in field order)
Null == [k |-> "null", v |-> "null"]
JStr(s) == [k |-> "str", v |-> s]
RECURSIVE Ser(_, _)
Ser(V, E) ==
  IF V.k = "none" THEN Null
  ELSE IF IsScalarKind(V.k) THEN [k |-> V.k, v |-> V.v]
  ELSE IF V.k \in TextKinds THEN JStr(TextOf(V))
  ELSE IF V.k = "enum" THEN Ser(EnumValue(E, V.n, V.v), E)
  ELSE IF V.k \in {"list", "tuple", "set"} THEN [k |-> "arr", a |-> [i \in 1..Len(V.a) |-> Ser(V.a[i], E)]]
  ELSE IF V.k = "dict" THEN
    [k |-> "map", m |-> [i \in 1..Len(V.p) |-> [n |-> KeyText(V.p[i].key, E), j |-> Ser(V.p[i].val, E)]]]
  ELSE LET c == E.cls[V.n]
           fs == c.f
           written(f) == Field(V, f.n).k # "none"
           sel == SelectSeq(fs, written)
       IN IF c.kind = "custom" THEN JStr("v:" \o Field(V, fs[1].n).v)
          ELSE [k |-> "map", m |-> [i \in 1..Len(sel) |->
                 [n |-> PropName(sel[i].n, sel[i].t), j |-> Ser(Field(V, sel[i].n), E)]]]

-------------------------------------------------------------------------------
(* Deserialization.  D returns [a, v, e]:                                    *)
(*   a = "yes": must be accepted with value v[1];                            *)
(*   a = "no":  must be refused with an error whose kind is in e;            *)
(*   a = "any": the specification leaves the reader free (error kinds in e). *)
(* Kinds: T type mismatch, K key, V value (the library's own errors), v a    *)
(* value error, y a type error, o overflow (of the standard library).        *)
Yes(v) == [a |-> "yes", v |-> <<v>>, e |-> {}]
No(e) == [a |-> "no", v |-> <<>>, e |-> e]
Free(e) == [a |-> "any", v |-> <<>>, e |-> e]

ValueErrs == {"V", "v"}
LibraryErrs == {"T", "K", "V"}

\* combination of the results of independent parts
AnyNo(rs) == \E i \in 1..Len(rs) : rs[i].a = "no"
AnyFree(rs) == \E i \in 1..Len(rs) : rs[i].a = "any"
AllErrs(rs) == UNION {rs[i].e : i \in 1..Len(rs)}
Combine(rs, v) == IF AnyNo(rs) THEN No(AllErrs(rs)) ELSE IF AnyFree(rs) THEN Free(AllErrs(rs)) ELSE Yes(v)
Vals(rs) == [i \in 1..Len(rs) |-> rs[i].v[1]]

\* the value of an integer read as a floating-point number; integers are exact up to 15 digits
IntAsFloat(s) == IF Len(s) <= 15 THEN <<[k |-> "float", v |-> s \o ".0"]>> ELSE <<>>

\* classes that are read member by member
IsRecordKind(kind) == kind \in {"dc", "nt", "typed"}

\* fields of literal type shared by all members of a union of classes
LiteralFields(T, E) ==
  IF T.k = "cls" /\ IsRecordKind(E.cls[T.n].kind) THEN
    LET fs == E.cls[T.n].f IN
    {fs[i].n : i \in {i \in 1..Len(fs) : fs[i].t.k # "ref" /\ Bare(fs[i].t, E).k = "lit"}}
  ELSE {}
FieldType(E, n, field) == LET fs == E.cls[n].f  i == CHOOSE i \in 1..Len(fs) : fs[i].n = field IN fs[i].t
TagFields(ms, E) ==
  LET bs == [i \in 1..Len(ms) |-> IF ms[i].k = "ann" THEN [k |-> "none"] ELSE Bare(ms[i], E)] IN
  {f \in LiteralFields(bs[1], E) : \A i \in 1..Len(ms) : f \in LiteralFields(bs[i], E)}
TagName(ms, i, field, E) == PropName(field, FieldType(E, Bare(ms[i], E).n, field))
TagValues(ms, i, field, E) == LET lt == Bare(FieldType(E, Bare(ms[i], E).n, field), E) IN
                              {Ser(lt.v[j], E) : j \in 1..Len(lt.v)}
\* well-formed tags: no value of a tag selects two members
TagsDisjoint(ms, E) ==
  \A f \in TagFields(ms, E) : \A i, j \in 1..Len(ms) : i # j => TagValues(ms, i, f, E) \cap TagValues(ms, j, f, E) = {}
\* the member that the document selects: 0 if none, -1 if different tags disagree
Selected(ms, J, E) ==
  LET sel == {i \in 1..Len(ms) : \E f \in TagFields(ms, E) :
                LET nm == TagName(ms, i, f, E) IN HasMember(J, nm) /\ Member(J, nm) \in TagValues(ms, i, f, E)}
  IN IF sel = {} THEN 0 ELSE IF Cardinality(sel) = 1 THEN CHOOSE i \in sel : TRUE ELSE -1

RECURSIVE Distinct(_)
Distinct(vs) ==      \* sequence without repeated values
  IF vs = <<>> THEN <<>>
  ELSE LET r == Distinct(SubSeq(vs, 1, Len(vs) - 1))  x == vs[Len(vs)] IN
       IF \E i \in 1..Len(r) : VEq(r[i], x) THEN r ELSE Append(r, x)

\* values that Python may consider equal although they differ (True and 1 and 1.0, one instant in two offsets)
Numeric(x) == x.k \in {"bool", "int", "float"}
Number(x) == IF x.v = "True" THEN "1" ELSE IF x.v = "False" \/ x.v = "-0.0" THEN "0"
             ELSE IF EndsWith(x.v, ".0") THEN SubSeq(x.v, 1, Len(x.v) - 2) ELSE x.v
RECURSIVE Loose(_, _)
Loose(x, y) ==
  IF Numeric(x) /\ Numeric(y) THEN Number(x) = Number(y)
  ELSE IF x.k = "tuple" /\ y.k = "tuple" THEN Len(x.a) = Len(y.a) /\ \A i \in 1..Len(x.a) : Loose(x.a[i], y.a[i])
  ELSE IF x.k = "obj" /\ y.k = "obj" THEN
    x.n = y.n /\ \A i \in 1..Len(x.m) : HasField(y, x.m[i].n) => Loose(x.m[i].x, Field(y, x.m[i].n))
  ELSE IF {x.k, y.k} = {"obj", "tuple"} THEN TRUE
  ELSE IF x.k = y.k /\ x.k \in {"datetime", "time"} THEN Len(x.f) # 3
  ELSE x = y
Ambiguous(vs) == \E i, j \in 1..Len(vs) : i < j /\ Loose(vs[i], vs[j]) /\ ~VEq(vs[i], vs[j])

\* unrestricted data is kept as it is
RECURSIVE AsIs(_)
AsIs(J) == CASE J.k = "null" -> None
             [] J.k = "arr" -> [k |-> "list", a |-> TLCEval([i \in 1..Len(J.a) |-> AsIs(J.a[i])])]
             [] J.k = "map" -> [k |-> "dict", p |-> TLCEval([i \in 1..Len(J.m) |-> [key |-> [k |-> "str", v |-> J.m[i].n], val |-> AsIs(J.m[i].j)]])]
             [] OTHER -> [k |-> J.k, v |-> J.v]
FreeKinds == {"any", "json", "sjson", "jobj", "jarr"}
DFree(k, J) ==
  CASE k \in {"any", "json"} -> Yes(AsIs(J))
    [] k = "sjson" -> IF NoNulls(AsIs(J)) THEN Yes(AsIs(J)) ELSE No(LibraryErrs)
    [] k = "jobj" -> IF J.k = "map" THEN Yes(AsIs(J)) ELSE No({"T"})
    [] k = "jarr" -> IF J.k = "arr" THEN Yes(AsIs(J)) ELSE No({"T"})
\* the member types for which absence stands for None
MayBeAbsent(T, E) == IsOptional(T, E) \/ Bare(T, E).k = "json"

RECURSIVE D(_, _, _, _), DField(_, _, _, _), DClass(_, _, _, _), DUnion(_, _, _, _, _)

DField(f, J, skip, E) ==
  LET name == PropName(f.n, f.t)
      opt == MayBeAbsent(f.t, E)
      missing == ~HasMember(J, name)
      inner == IF opt /\ IsOptional(f.t, E) THEN WithoutNone(f.t, E) ELSE f.t
      isnull == ~missing /\ Member(J, name).k = "null"
  IN IF missing \/ isnull THEN
       (IF f.d.k # "no" THEN Yes(f.d.v[1])
        ELSE IF opt THEN Yes(None)
        ELSE IF missing THEN No({"K"}) ELSE No({"V"}))
     ELSE D(inner, Member(J, name), skip, E)

DClass(n, J, skip, E) ==
  LET c == E.cls[n]
      fs == c.f
      names == {PropName(fs[i].n, fs[i].t) : i \in 1..Len(fs)}
      unknown == \E i \in 1..Len(J.m) : J.m[i].n \notin names
      rs == TLCEval([i \in 1..Len(fs) |-> DField(fs[i], J, skip, E)])
      all == IF unknown /\ ~skip THEN Append(rs, No({"K"})) ELSE rs
  IN Combine(all, [k |-> "obj", n |-> n, m |-> [i \in 1..Len(fs) |-> [n |-> fs[i].n, x |-> rs[i].v[1]]]])

\* first member in declaration order that accepts
DUnion(ms, i, J, skip, E) ==
  IF i > Len(ms) THEN No(LibraryErrs)
  ELSE LET r == TLCEval(D(ms[i], J, skip, E)) IN
       IF r.a = "yes" THEN r
       ELSE IF r.a = "any" THEN Free(LibraryErrs)
       ELSE DUnion(ms, i + 1, J, skip, E)

D(T, J, skip, E) ==
  CASE T.k = "ann" -> D(T.a[1], J, skip, E)
    [] T.k = "ref" -> D(Bare(T, E), J, skip, E)
    [] T.k = "none" -> IF J.k = "null" THEN Yes(None) ELSE No({"T"})
    [] T.k \in FreeKinds -> DFree(T.k, J)
    [] T.k \in {"bool", "int", "str"} ->
         IF J.k = T.k THEN Yes([k |-> T.k, v |-> J.v]) ELSE No({"T"})
    [] T.k = "float" ->
         IF J.k = "float" THEN Yes([k |-> "float", v |-> J.v])
         ELSE IF J.k = "int" THEN
           (IF IntAsFloat(J.v) # <<>> THEN Yes(IntAsFloat(J.v)[1]) ELSE Free({"T", "V", "v", "o"}))
         ELSE No({"T"})
    [] T.k \in TextKinds ->
         IF J.k # "str" THEN No({"T"})
         ELSE LET p == ParseText(T.k, J.v) IN
              IF p.r = "ok" THEN Yes(p.v[1])
              ELSE IF p.r = "rej" THEN No(ValueErrs \cup {"o"}) ELSE Free(ValueErrs \cup {"o"})
    [] T.k = "list" ->
         IF J.k # "arr" THEN No({"T"})
         ELSE LET rs == TLCEval([i \in 1..Len(J.a) |-> D(T.a[1], J.a[i], skip, E)]) IN
              Combine(rs, [k |-> "list", a |-> Vals(rs)])
    [] T.k = "set" ->
         IF J.k # "arr" THEN No({"T"})
         ELSE LET rs == TLCEval([i \in 1..Len(J.a) |-> D(T.a[1], J.a[i], skip, E)]) IN
              IF ~AnyNo(rs) /\ ~AnyFree(rs) /\ Ambiguous(Vals(rs)) THEN Free({})
              ELSE Combine(rs, [k |-> "set", a |-> Distinct(Vals(rs))])
    [] T.k = "tuple" ->
         IF J.k # "arr" THEN No({"T"})
         ELSE IF Len(J.a) # Len(T.a) THEN No({"V"})
         ELSE LET rs == TLCEval([i \in 1..Len(J.a) |-> D(T.a[i], J.a[i], skip, E)]) IN
              Combine(rs, [k |-> "tuple", a |-> Vals(rs)])
    [] T.k = "dict" ->
         IF J.k # "map" THEN No({"T"})
         ELSE LET kt == Bare(T.a[1], E)
                  keyOf(s) == IF kt.k = "str" THEN Yes([k |-> "str", v |-> s]) ELSE D(kt, JStr(s), skip, E)
                  ks == TLCEval([i \in 1..Len(J.m) |-> keyOf(J.m[i].n)])
                  vs == TLCEval([i \in 1..Len(J.m) |-> D(T.a[2], J.m[i].j, skip, E)])
              IN Combine(ks \o vs, [k |-> "dict", p |-> [i \in 1..Len(J.m) |-> [key |-> ks[i].v[1], val |-> vs[i].v[1]]]])
    [] T.k = "lit" ->
         LET matches == {i \in 1..Len(T.v) : SerMatch(T.v[i], J, E)}
             enumd == T.v[1].k = "enum" /\ matches = {}
             asEnum == IF enumd THEN D([k |-> "enum", n |-> T.v[1].n], J, skip, E) ELSE No({})
         IN
         IF enumd /\ asEnum.a = "any" THEN asEnum
         ELSE IF matches # {} THEN Yes(T.v[CHOOSE i \in matches : TRUE])
         ELSE IF J.k \in {"int", "float", "bool"} /\ T.v[1].k \in {"int", "float", "bool"} /\ J.k # T.v[1].k
                 /\ J.k # "bool" /\ T.v[1].k # "bool"
              THEN (IF T.v[1].k = "int" THEN No({"T"}) ELSE Free({"T"}))
         ELSE No({"T", "V", "v"})
    [] T.k = "enum" ->
         LET ms == E.enm[T.n]
             matches == {i \in 1..Len(ms) : SerMatch(ms[i].v, J, E)}
             number(x) == x.k \in {"int", "float"}
         IN IF matches # {} THEN Yes([k |-> "enum", n |-> T.n, v |-> ms[CHOOSE i \in matches : TRUE].n])
            ELSE IF number(J) /\ \E i \in 1..Len(ms) : number(ms[i].v) /\ ms[i].v.k # J.k
                 THEN Free({"T", "V", "v"})
            ELSE No({"T", "V", "v"})
    [] T.k = "union" ->
         LET ms == Members(T.a, E)
             tagged == Len(ms) > 1 /\ TagFields(ms, E) # {}
             sel == IF J.k = "map" THEN Selected(ms, J, E) ELSE 0
         IN IF tagged /\ ~TagsDisjoint(ms, E) THEN Free({"T", "K", "V", "v", "y", "o"})
            ELSE IF tagged /\ sel > 0 THEN
              LET r == TLCEval(D(ms[sel], J, skip, E)) IN [r EXCEPT !.e = IF r.a = "yes" THEN {} ELSE r.e \cup LibraryErrs]
            ELSE IF tagged /\ sel < 0 THEN No({"T", "K", "V", "v", "y", "o"})
            ELSE IF tagged /\ J.k = "map" /\ \E i \in 1..Len(ms), f \in TagFields(ms, E) :
                      HasMember(J, TagName(ms, i, f, E)) /\ Numeric(Member(J, TagName(ms, i, f, E)))
              THEN No({"T", "K", "V", "v", "y", "o"})      \* 1.0 and true may select the tag 1, whose class then refuses
            ELSE IF tagged THEN No(LibraryErrs)
            ELSE DUnion(ms, 1, J, skip, E)
    [] T.k = "cls" ->
         IF E.cls[T.n].kind = "custom" THEN
           (IF J.k = "str" /\ StartsWith(J.v, "v:")
            THEN Yes([k |-> "obj", n |-> T.n, m |-> <<[n |-> E.cls[T.n].f[1].n, x |-> [k |-> "str", v |-> Drop(J.v, 2)]]>>])
            ELSE No({"T", "V", "v"}))
         ELSE IF ~IsRecordKind(E.cls[T.n].kind) THEN Free({"T", "K", "V", "v", "y", "o"})
         ELSE IF J.k # "map" THEN No({"T"})
         ELSE DClass(T.n, J, skip, E)
    [] OTHER -> Free({"T", "K", "V", "v", "y", "o"})

\* the specification admits the outcome R = [ok, v, e] of deserialization
Admits(r, T, R, E) ==
  IF R.ok THEN (r.a = "yes" /\ VEq(r.v[1], R.v)) \/ (r.a = "any" /\ Conforms(R.v, T, E))
  ELSE r.a # "yes" /\ R.e \in r.e
=============================================================================
