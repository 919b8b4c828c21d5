-------------------------------- MODULE Forms --------------------------------
(* Type expressions as forms: what they denote, how they are written, how    *)
(* they are classified and taken apart, which values they admit, and which   *)
(* member values they contain.                                               *)
(*                                                                           *)
(* In addition to the kinds of Model, a type expression may be               *)
(*   "any" "dots" "self"; [k |-> "tvar"/"pspec", n]; [k |-> "bare", n] a     *)
(*   container class on its own;                                             *)
(*   [k |-> "aux", n] a fixed-width alias; [k |-> "fset"/"vtuple"/"type", a]; *)
(*   [k |-> "call", p, a] with p in "args" "dots" "pspec" and a the argument *)
(*   types followed by the result; [k |-> "gen", n, a] a declared generic;   *)
(*   [k |-> "ref", n, w, a] text n that means a[1], w in "str" "fwd".        *)
(* Syntax trees of written types: [k |-> "name", n], [k |-> "dots"],         *)
(*   [k |-> "const", v], [k |-> "attr", n, v], [k |-> "sub", f, a],          *)
(*   [k |-> "or", a], [k |-> "lst", a], [k |-> "tup", a], [k |-> "call", f, a] *)
EXTENDS Model

Ty(k) == [k |-> k]
TyA(k, a) == [k |-> k, a |-> a]
Mk(mk, i) == [mk |-> mk, s |-> "", i |-> i]
AuxInt(signed, bytes, lo, hi) ==
  [k |-> "ann", a |-> <<Ty("int")>>, m |-> <<Mk("signed", <<signed>>), Mk("storage", <<bytes>>), Mk("range", <<lo, hi>>)>>]
AuxFloat(bytes) == [k |-> "ann", a |-> <<Ty("float")>>, m |-> <<Mk("storage", <<bytes>>)>>]
Aux == [int8 |-> AuxInt("True", "1", "-128", "127"), int16 |-> AuxInt("True", "2", "-32768", "32767"),
  int32 |-> AuxInt("True", "4", "-2147483648", "2147483647"),
  int64 |-> AuxInt("True", "8", "-9223372036854775808", "9223372036854775807"),
  uint8 |-> AuxInt("False", "1", "0", "255"), uint16 |-> AuxInt("False", "2", "0", "65535"),
  uint32 |-> AuxInt("False", "4", "0", "4294967295"), uint64 |-> AuxInt("False", "8", "0", "18446744073709551615"),
  float32 |-> AuxFloat("4"), float64 |-> AuxFloat("8")]

-------------------------------------------------------------------------------
(* Equality of types: unions and literals irrespective of order, as in Python *)
RECURSIVE TEq(_, _)
TEq(x, y) ==
  LET all(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : TEq(a[i], b[i]) IN
  IF x.k # y.k THEN FALSE
  ELSE CASE x.k = "union" -> /\ Len(x.a) = Len(y.a)
                             /\ \A i \in 1..Len(x.a) : \E j \in 1..Len(y.a) : TEq(x.a[i], y.a[j])
                             /\ \A j \in 1..Len(y.a) : \E i \in 1..Len(x.a) : TEq(x.a[i], y.a[j])
         [] x.k \in {"list", "set", "fset", "dict", "tuple", "vtuple", "type"} -> all(x.a, y.a)
         [] x.k = "ann" -> all(x.a, y.a) /\ x.m = y.m
         [] x.k = "call" -> x.p = y.p /\ all(x.a, y.a)
         [] x.k = "gen" -> x.n = y.n /\ all(x.a, y.a)
         [] x.k = "lit" -> Len(x.v) = Len(y.v) /\ {x.v[i] : i \in 1..Len(x.v)} = {y.v[i] : i \in 1..Len(y.v)}
         [] x.k \in {"cls", "enum", "tvar", "pspec", "ref", "bare"} -> x.n = y.n
         [] x.k = "bad" -> FALSE
         [] OTHER -> TRUE

RECURSIVE DistinctT(_)
DistinctT(ts) ==
  IF ts = <<>> THEN <<>>
  ELSE LET r == DistinctT(SubSeq(ts, 1, Len(ts) - 1))  x == ts[Len(ts)] IN
       IF \E i \in 1..Len(r) : TEq(r[i], x) THEN r ELSE Append(r, x)

RECURSIVE Splice(_)
Splice(ts) == IF ts = <<>> THEN <<>> ELSE (IF Head(ts).k = "union" THEN Head(ts).a ELSE <<Head(ts)>>) \o Splice(Tail(ts))
MkUnion(ts) == LET ms == DistinctT(Splice(ts)) IN IF Len(ms) = 1 THEN ms[1] ELSE TyA("union", ms)
MkAnn(t, m) == IF m = <<>> THEN t ELSE IF t.k = "ann" THEN [t EXCEPT !.m = @ \o m] ELSE [k |-> "ann", a |-> <<t>>, m |-> m]

\* what an expression denotes: unions and annotations flat, aliases and references replaced
RECURSIVE Normal(_, _)
Normal(T, resolve) ==
  LET parts == TLCEval([i \in 1..Len(T.a) |-> Normal(T.a[i], resolve)]) IN
  CASE T.k = "aux" -> Aux[T.n]
    [] T.k = "ref" -> IF resolve THEN Normal(T.a[1], resolve) ELSE T
    [] T.k = "ann" -> MkAnn(Normal(T.a[1], resolve), T.m)
    [] T.k = "union" -> MkUnion(parts)
    [] T.k \in {"list", "set", "fset", "dict", "tuple", "vtuple", "type", "call", "gen"} -> [T EXCEPT !.a = parts]
    [] OTHER -> T
Canon(T) == Normal(T, TRUE)
\* the form of an expression: references are not looked into
Form(T) == Normal(T, FALSE)
Inner(T) == IF T.k = "ann" THEN T.a[1] ELSE T
Marks(T) == IF T.k = "ann" THEN T.m ELSE <<>>

-------------------------------------------------------------------------------
(* Written types *)
MarkOf == [Signed |-> "signed", Storage |-> "storage", IntegerRange |-> "range", Precision |-> "prec", TimePrecision |-> "timeprec",
  Length |-> "len", MinLength |-> "minlen", MaxLength |-> "maxlen", SpecialConversion |-> "special", Alias |-> "alias", Note |-> "note"]
Bad == Ty("bad")
Containers == [list |-> "list", set |-> "set", frozenset |-> "fset", dict |-> "dict", type |-> "type"]
ArityOk(k, n) == IF k = "dict" THEN n = 2 ELSE n = 1

(* N maps names to types, O says what may be written: O.bar "|", O.names      *)
(* Optional and Union, O.val whether values must be (and are) marked by "val". *)
RECURSIVE Denote(_, _, _)
DMark(t) ==
  IF t.k = "const" /\ t.v.k = "str" THEN [mk |-> "doc", s |-> t.v.v, i |-> <<>>]
  ELSE IF t.k = "call" /\ Has(MarkOf, t.f) /\ \A i \in 1..Len(t.a) : t.a[i].k = "const"
  THEN (IF t.f \in {"Alias", "Note"} THEN [mk |-> MarkOf[t.f], s |-> t.a[1].v.v, i |-> <<>>]
        ELSE [mk |-> MarkOf[t.f], s |-> "", i |-> [i \in 1..Len(t.a) |-> t.a[i].v.v]])
  ELSE [mk |-> "bad", s |-> "", i |-> <<>>]
DValue(t, O) ==
  LET plain(x) == IF x.k = "const" THEN x.v ELSE IF x.k = "attr" THEN [k |-> "enum", n |-> x.n, v |-> x.v] ELSE [k |-> "bad", v |-> ""] IN
  IF O.val THEN (IF t.k = "call" /\ t.f = "val" /\ Len(t.a) = 1 THEN plain(t.a[1]) ELSE [k |-> "bad", v |-> ""]) ELSE plain(t)
Denote(t, N, O) ==
  LET args == TLCEval([i \in 1..Len(t.a) |-> Denote(t.a[i], N, O)])
      callargs(x) == TLCEval([i \in 1..Len(x.a) |-> Denote(x.a[i], N, O)])
  IN CASE t.k = "name" -> IF Has(N, t.n) THEN N[t.n] ELSE Bad
       [] t.k = "attr" -> IF Has(N, t.n \o "." \o t.v) THEN N[t.n \o "." \o t.v] ELSE Bad
       [] t.k = "dots" -> Ty("dots")
       [] t.k = "or" -> IF O.bar THEN MkUnion(args) ELSE Bad
       [] t.k = "sub" ->
            IF Has(Containers, t.f) THEN (IF ArityOk(Containers[t.f], Len(t.a)) THEN TyA(Containers[t.f], args) ELSE Bad)
            ELSE CASE t.f = "tuple" -> IF Len(t.a) = 1 /\ t.a[1].k = "tup" THEN TyA("tuple", <<>>)
                                       ELSE IF Len(t.a) = 2 /\ args[2].k = "dots" THEN TyA("vtuple", <<args[1]>>)
                                       ELSE TyA("tuple", args)
                   [] t.f = "Optional" -> IF O.names /\ Len(t.a) = 1 THEN MkUnion(<<args[1], Ty("none")>>) ELSE Bad
                   [] t.f = "Union" -> IF O.names THEN MkUnion(args) ELSE Bad
                   [] t.f = "Literal" -> [k |-> "lit", v |-> [i \in 1..Len(t.a) |-> DValue(t.a[i], O)]]
                   [] t.f = "Annotated" -> IF Len(t.a) < 2 THEN Bad
                                           ELSE MkAnn(Denote(t.a[1], N, O), [i \in 1..Len(t.a) - 1 |-> DMark(t.a[i + 1])])
                   [] t.f = "Callable" ->
                        IF Len(t.a) # 2 THEN Bad
                        ELSE IF t.a[1].k = "lst" THEN [k |-> "call", p |-> "args", a |-> Append(callargs(t.a[1]), args[2])]
                        ELSE IF t.a[1].k = "dots" THEN [k |-> "call", p |-> "dots", a |-> <<args[2]>>]
                        ELSE IF args[1].k = "pspec" THEN [k |-> "call", p |-> "pspec", a |-> <<args[1], args[2]>>] ELSE Bad
                   [] Has(N, t.f) /\ N[t.f].k = "origin" -> IF Len(t.a) = N[t.f].i THEN [k |-> "gen", n |-> t.f, a |-> args] ELSE Bad
                   [] OTHER -> Bad
       [] OTHER -> Bad

\* no fixed-width alias is spelled out
Prefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Aliased(_)
Aliased(t) ==
  /\ ~(/\ t.k = "sub" /\ t.f = "Annotated" /\ Len(t.a) >= 2 /\ t.a[1].k = "name"
       /\ \E x \in DOMAIN Aux : /\ (t.a[1].n = "int" /\ Aux[x].a[1].k = "int") \/ (t.a[1].n = "float" /\ Aux[x].a[1].k = "float")
                                /\ Prefix([i \in 1..Len(t.a) - 1 |-> DMark(t.a[i + 1])], Aux[x].m))
  /\ t.k \in {"sub", "or", "lst", "tup", "call"} => \A i \in 1..Len(t.a) : Aliased(t.a[i])

\* a writer: one way of writing down a type
Id(n) == [k |-> "name", n |-> n]
Sub(f, a) == [k |-> "sub", f |-> f, a |-> a]
Names == [none |-> "None", any |-> "Any", self |-> "Self", bool |-> "bool", int |-> "int", float |-> "float", str |-> "str", bytes |-> "bytes",
  date |-> "date", datetime |-> "datetime", uuid |-> "UUID", decimal |-> "Decimal", object |-> "object"]
ContainerNames == [list |-> "list", set |-> "set", fset |-> "frozenset", dict |-> "dict", type |-> "type"]
CallOf == [signed |-> "Signed", storage |-> "Storage", range |-> "IntegerRange", note |-> "Note"]
WMark(m) == IF m.mk = "doc" THEN [k |-> "const", v |-> [k |-> "str", v |-> m.s]]
            ELSE IF m.mk = "note" THEN [k |-> "call", f |-> "Note", a |-> <<[k |-> "const", v |-> [k |-> "str", v |-> m.s]]>>]
            ELSE [k |-> "call", f |-> CallOf[m.mk], a |-> [i \in 1..Len(m.i) |-> [k |-> "const", v |-> [k |-> "int", v |-> m.i[i]]]]]
WValue(v) == IF v.k = "enum" THEN [k |-> "attr", n |-> v.n, v |-> v.v] ELSE [k |-> "const", v |-> v]
RECURSIVE Write(_, _)
Write(T, bar) ==
  LET parts == TLCEval([i \in 1..Len(T.a) |-> Write(T.a[i], bar)]) IN
  CASE T.k \in {"cls", "enum", "tvar", "pspec", "aux"} -> Id(T.n)
    [] T.k \in DOMAIN Names -> Id(Names[T.k])
    [] T.k \in DOMAIN ContainerNames -> Sub(ContainerNames[T.k], parts)
    [] T.k = "tuple" -> Sub("tuple", IF parts = <<>> THEN <<[k |-> "tup", a |-> <<>>]>> ELSE parts)
    [] T.k = "vtuple" -> Sub("tuple", <<parts[1], [k |-> "dots"]>>)
    [] T.k = "union" -> IF bar THEN [k |-> "or", a |-> parts]
                        ELSE IF Len(T.a) = 2 /\ \E i \in 1..2 : T.a[i].k = "none"
                             THEN Sub("Optional", <<parts[IF T.a[1].k = "none" THEN 2 ELSE 1]>>) ELSE Sub("Union", parts)
    [] T.k = "lit" -> Sub("Literal", [i \in 1..Len(T.v) |-> WValue(T.v[i])])
    [] T.k = "ann" -> IF \E x \in DOMAIN Aux : TEq(Aux[x], T) THEN Id(CHOOSE x \in DOMAIN Aux : TEq(Aux[x], T))
                      ELSE IF \E x \in DOMAIN Aux : TEq(Aux[x].a[1], T.a[1]) /\ Prefix(T.m, Aux[x].m)
                      THEN LET x == CHOOSE x \in DOMAIN Aux : TEq(Aux[x].a[1], T.a[1]) /\ Prefix(T.m, Aux[x].m)
                               d == Len(Aux[x].m) IN
                           Sub("Annotated", <<Id(x)>> \o [i \in 1..Len(T.m) - d |-> WMark(T.m[i + d])])
                      ELSE Sub("Annotated", <<parts[1]>> \o [i \in 1..Len(T.m) |-> WMark(T.m[i])])
    [] T.k = "call" -> LET n == Len(T.a) IN
                       Sub("Callable", <<IF T.p = "args" THEN [k |-> "lst", a |-> SubSeq(parts, 1, n - 1)]
                                         ELSE IF T.p = "dots" THEN [k |-> "dots"] ELSE parts[1], parts[n]>>)
    [] T.k = "gen" -> Sub(T.n, parts)
    [] OTHER -> [k |-> "odd"]

-------------------------------------------------------------------------------
(* Identifier names *)
NoName == <<>>
RECURSIVE NameOf(_, _)
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Prefixes == [list |-> "List", set |-> "Set", fset |-> "FrozenSet", dict |-> "Dict", tuple |-> "Tuple", type |-> "Type"]
NoneTypeName(T) == IF T.k = "none" THEN "NoneType" ELSE T.n
NameOf(T, force) ==      \* of a canonical type
  LET parts == TLCEval([i \in 1..Len(T.a) |-> NameOf(T.a[i], force)])
      joined(p, ps) == IF \E i \in 1..Len(ps) : ps[i] = NoName THEN NoName ELSE <<p \o "__" \o Join([i \in 1..Len(ps) |-> ps[i][1]], "__")>>
      some(t) == t.k # "none"
  IN CASE T.k = "ann" -> IF \E x \in DOMAIN Aux : TEq(Aux[x], T) THEN <<CHOOSE x \in DOMAIN Aux : TEq(Aux[x], T)>> ELSE NameOf(T.a[1], force)
       [] T.k \in {"cls", "enum", "tvar"} -> <<T.n>>
       [] T.k = "none" -> <<"NoneType">>
       [] T.k \in DOMAIN Names -> <<Names[T.k]>>
       [] T.k \in DOMAIN Prefixes -> IF force THEN joined(Prefixes[T.k], parts) ELSE NoName
       [] T.k = "union" -> IF ~force THEN NoName
                           ELSE IF Len(T.a) = 2 /\ \E i \in 1..2 : T.a[i].k = "none"
                           THEN joined("Optional", <<parts[IF T.a[1].k = "none" THEN 2 ELSE 1]>>) ELSE joined("Union", parts)
       [] OTHER -> NoName

-------------------------------------------------------------------------------
(* Classification and taking apart, of canonical types *)
HasNone(T) == \E i \in 1..Len(T.a) : T.a[i].k = "none"
Class(T, E) ==
  LET B == Inner(T)  u == B.k = "union" IN
  [optional |-> u /\ HasNone(B), strict |-> u /\ HasNone(B) /\ Len(B.a) = 2, union |-> u /\ (Len(B.a) > 2 \/ ~HasNone(B)),
   literal |-> B.k = "lit", list |-> B.k = "list", set |-> B.k = "set", dict |-> B.k = "dict", enum |-> B.k = "enum",
   dataclass |-> B.k = "cls" /\ Has(E, B.n) /\ E[B.n] = "dc", namedtuple |-> B.k = "cls" /\ Has(E, B.n) /\ E[B.n] \in {"nt", "unt"},
   annotated |-> T.k = "ann"]
Some(x) == [ok |-> TRUE, t |-> <<x>>]
Seq_(xs) == [ok |-> TRUE, t |-> xs]
Refused == [ok |-> FALSE, t |-> <<>>]
NotNone(t) == t.k # "none"
LitType(v) == IF v.k = "enum" THEN [k |-> "enum", n |-> v.n] ELSE Ty(v.k)
IsMark(mk, m) == m.mk = mk
\* result of taking T apart by an operation; <<>> when the operation is not for such types
Apart(op, T) ==
  LET B == Inner(T)  m == Marks(T) IN
  CASE op = "optional" -> IF B.k # "union" THEN <<Refused>> ELSE LET r == SelectSeq(B.a, NotNone) IN <<Some(MkAnn(MkUnion(r), m))>>
    [] op = "union" -> IF B.k # "union" THEN <<Refused>> ELSE <<Seq_(B.a)>>
    [] op = "list" -> IF B.k # "list" THEN <<>> ELSE <<Some(MkAnn(B.a[1], m))>>
    [] op = "set" -> IF B.k # "set" THEN <<>> ELSE <<Some(MkAnn(B.a[1], m))>>
    [] op = "dict" -> IF B.k # "dict" THEN <<>> ELSE <<Seq_(B.a)>>
    [] op = "annotated" -> <<Some(B)>>
    [] op = "rewrap-list" -> <<Some(MkAnn(TyA("list", <<B>>), m))>>
    [] op = "rewrap-opt" -> <<Some(MkAnn(MkUnion(<<B, Ty("none")>>), m))>>
    [] op = "rewrap-same" -> <<Some(T)>>
    [] op = "there-and-back" -> IF B.k = "union" /\ HasNone(B) /\ (Len(B.a) > 2 \/ \A i \in 1..Len(B.a) : B.a[i].k # "ann") THEN <<Some(T)>> ELSE <<>>
    [] op = "literal-types" -> IF B.k # "lit" THEN <<>> ELSE <<Seq_([i \in 1..Len(B.v) |-> LitType(B.v[i])])>>
    [] op = "literal-values" -> IF B.k # "lit" THEN <<>> ELSE <<[ok |-> TRUE, t |-> <<[k |-> "lit", v |-> B.v]>>]>>
    [] op = "literal-value" -> IF B.k # "lit" THEN <<>> ELSE IF Len(B.v) # 1 THEN <<Refused>> ELSE <<[ok |-> TRUE, t |-> <<[k |-> "lit", v |-> B.v]>>]>>
    [] OTHER -> <<>>
FirstMark(T, mk) == LET is(x) == IsMark(mk, x)  s == SelectSeq(Marks(T), is) IN IF s = <<>> THEN <<>> ELSE <<s[1]>>

-------------------------------------------------------------------------------
(* Instances.  A value [k |-> "sub", a |-> <<v>>] is v as an instance of a    *)
(* class derived from the class of v.                                        *)
Plain(V) == IF V.k = "sub" THEN V.a[1] ELSE V
RECURSIVE Descends(_, _, _)
Descends(n, m, E) == n = m \/ ("opts" \in DOMAIN E.cls[n] /\ "base" \in DOMAIN E.cls[n].opts /\ Descends(E.cls[n].opts.base, m, E))
RECURSIVE IsInst(_, _, _)
IsInst(W, T, E) ==
  LET V == Plain(W)
      isTuple == V.k = "tuple" \/ (V.k = "obj" /\ E.cls[V.n].kind \in {"nt", "unt"})
      items == IF V.k = "obj" THEN [i \in 1..Len(V.m) |-> V.m[i].x] ELSE V.a
      all(t) == \A i \in 1..Len(V.a) : IsInst(V.a[i], t, E)
  IN CASE T.k = "ann" -> IsInst(V, T.a[1], E)
       [] T.k = "none" -> V.k = "none"
       [] T.k = "int" -> V.k \in {"int", "bool"}
       [] T.k = "date" -> V.k \in {"date", "datetime"}
       [] T.k = "list" -> V.k = "list" /\ all(T.a[1])
       [] T.k = "set" -> V.k = "set" /\ all(T.a[1])
       [] T.k = "dict" -> V.k = "dict" /\ \A i \in 1..Len(V.p) : IsInst(V.p[i].key, T.a[1], E) /\ IsInst(V.p[i].val, T.a[2], E)
       [] T.k = "tuple" -> isTuple /\ Len(items) = Len(T.a) /\ \A i \in 1..Len(T.a) : IsInst(items[i], T.a[i], E)
       [] T.k = "vtuple" -> isTuple /\ \A i \in 1..Len(items) : IsInst(items[i], T.a[1], E)
       [] T.k = "union" -> \E i \in 1..Len(T.a) : IsInst(V, T.a[i], E)
       [] T.k = "cls" -> V.k = "obj" /\ Descends(V.n, T.n, E)
       [] T.k = "enum" -> V.k = "enum" /\ V.n = T.n
       [] T.k = "object" -> TRUE
       [] T.k = "btuple" -> isTuple
       [] T.k \in {"blist", "bset", "bdict"} -> T.k = "b" \o V.k
       [] OTHER -> V.k = T.k

(* Member values with their declared types *)
NoMarks(T) == T.k
RECURSIVE Strip(_, _)
Strip(T, E) ==
  CASE T.k = "ann" -> Strip(T.a[1], E)
    [] T.k = "ref" -> Strip(Bare(T, E), E)
    [] T.k = "aux" -> Aux[T.n].a[1]
    [] T.k = "union" -> MkUnion([i \in 1..Len(T.a) |-> Strip(T.a[i], E)])
    [] T.k \in {"list", "set", "fset", "dict", "tuple", "vtuple"} -> [T EXCEPT !.a = [i \in 1..Len(T.a) |-> Strip(T.a[i], E)]]
    [] OTHER -> T
RECURSIVE Leaves(_, _, _)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Leaves(T0, W, E) ==
  LET T == TLCEval(Bare(T0, E))  V == TLCEval(Plain(W)) IN
  CASE T.k \in {"list", "set", "vtuple"} -> Flat([i \in 1..Len(V.a) |-> Leaves(T.a[1], V.a[i], E)])
    [] T.k = "tuple" -> Flat([i \in 1..Len(T.a) |-> Leaves(T.a[i], V.a[i], E)])
    [] T.k = "dict" -> Flat([i \in 1..Len(V.p) |-> Leaves(T.a[2], V.p[i].val, E)])
    [] T.k = "cls" -> IF E.cls[T.n].kind \in {"dc", "nt", "typed"}
                      THEN LET fs == E.cls[T.n].f IN Flat([i \in 1..Len(fs) |-> Leaves(fs[i].t, Field(V, fs[i].n), E)])
                      ELSE <<>>
    [] T.k \in {"blist", "bset", "bdict", "btuple", "object"} -> <<>>
    [] T.k = "aux" -> <<[t |-> Aux[T.n].a[1], v |-> V]>>
    [] OTHER -> <<[t |-> Strip(T, E), v |-> V]>>
\* compared as values, whatever the derived class
RECURSIVE AllPlain(_)
AllPlain(W) ==
  LET V == TLCEval(Plain(W)) IN
  CASE V.k \in {"list", "set", "tuple"} -> [V EXCEPT !.a = TLCEval([i \in 1..Len(V.a) |-> AllPlain(V.a[i])])]
    [] V.k = "dict" -> [V EXCEPT !.p = TLCEval([i \in 1..Len(V.p) |-> [key |-> AllPlain(V.p[i].key), val |-> AllPlain(V.p[i].val)]])]
    [] OTHER -> V
SameValue(x, y) == VEq(AllPlain(x), AllPlain(y))
SameLeaf(x, y) == TEq(x.t, y.t) /\ SameValue(x.v, y.v)
SameBag(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) :
  Cardinality({j \in 1..Len(xs) : SameLeaf(xs[j], xs[i])}) = Cardinality({j \in 1..Len(ys) : SameLeaf(ys[j], xs[i])})
=============================================================================
