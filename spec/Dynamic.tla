------------------------------- MODULE Dynamic --------------------------------
(* Types and modules made at run time, and annotation classes (C23).          *)
(* Values: [k, v] with k in int, bool, float, str, none.                      *)
EXTENDS Schema, FiniteSets

(* Values as Python compares them *)
Numeric_(x) == x.k \in {"int", "bool", "float"}
NumText(x) == IF x.k = "bool" THEN (IF x.v = "True" THEN "1" ELSE "0") ELSE x.v
PyEq(x, y) == IF Numeric_(x) /\ Numeric_(y) THEN Cmp(NumText(x), NumText(y)) = 0 ELSE x = y
Ordered == " !#$%&()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RECURSIVE StrCmp(_, _)
StrCmp(s, t) == IF s = "" THEN (IF t = "" THEN 0 ELSE -1) ELSE IF t = "" THEN 1
                ELSE LET a == IndexOf(Ordered, Ch(s, 1))  b == IndexOf(Ordered, Ch(t, 1)) IN
                     IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE StrCmp(Drop(s, 1), Drop(t, 1))
Comparable(x, y) == (Numeric_(x) /\ Numeric_(y)) \/ (x.k = "str" /\ y.k = "str")
PyCmp(x, y) == IF x.k = "str" THEN StrCmp(x.v, y.v) ELSE Cmp(NumText(x), NumText(y))
PyRepr(x) == CASE x.k = "str" -> "'" \o x.v \o "'" [] OTHER -> x.v

-------------------------------------------------------------------------------
(* Enumerations: sequences of members [n, v] *)
Clash(Src, X) ==      \* no enumeration can hold both
  LET A == Src \o X IN \E i, j \in 1..Len(A) : i < j /\ (A[i].n = A[j].n) # PyEq(A[i].v, A[j].v)
\* the same member in both (1, 1.0 and True are equal): may be refused
Twice(Src, X) == \E i \in 1..Len(Src), j \in 1..Len(X) : Src[i].n = X[j].n /\ PyEq(Src[i].v, X[j].v)
Extended(Src, X) == LET new(m) == \A i \in 1..Len(Src) : Src[i].n # m.n IN Src \o SelectSeq(X, new)
\* whether members R are those of both
IsExtended(R, Src, X) == LET W == Extended(Src, X) IN
  Len(R) = Len(W) /\ \A i \in 1..Len(R) : R[i] = W[i] \/ \E j \in 1..Len(X) : R[i].n = W[i].n /\ R[i] = X[j] /\ PyEq(R[i].v, W[i].v)

-------------------------------------------------------------------------------
(* Annotation classes: c = [n, f, eq, order], f: number of fields; objects    *)
(* [c, a]: class and values of all fields                                     *)
RECURSIVE SeqEq(_, _), SeqCmp(_, _)
SeqEq(a, b) == IF a = <<>> THEN TRUE ELSE PyEq(Head(a), Head(b)) /\ SeqEq(Tail(a), Tail(b))
\* -1, 0, 1, or 2 if there is no order
SeqCmp(a, b) == IF a = <<>> THEN 0 ELSE IF PyEq(Head(a), Head(b)) THEN SeqCmp(Tail(a), Tail(b))
                ELSE IF Comparable(Head(a), Head(b)) THEN PyCmp(Head(a), Head(b)) ELSE 2
Same(x, y, cx) == IF cx.eq THEN x.c = y.c /\ SeqEq(x.a, y.a) ELSE FALSE
\* result of x < y, x <= y, x > y, x >= y: "T", "F" or "TypeError"
Less(op, x, y, cx) ==
  IF ~cx.order \/ x.c # y.c THEN "TypeError"
  ELSE LET r == SeqCmp(x.a, y.a) IN
       IF r = 2 THEN "TypeError"
       ELSE IF (CASE op = "lt" -> r < 0 [] op = "le" -> r <= 0 [] op = "gt" -> r > 0 [] op = "ge" -> r >= 0) THEN "T" ELSE "F"
PrintedAs(x) == x.c \o "(" \o JoinWith([i \in 1..Len(x.a) |-> PyRepr(x.a[i])], ", ") \o ")"

-------------------------------------------------------------------------------
(* Modules: the names in use *)
CreateIn(used, n) == IF n \in used THEN [ok |-> FALSE, used |-> used] ELSE [ok |-> TRUE, used |-> used \cup {n}]
Remove(used, n) == used \ {n}
\* what a module itself defines: members [n, kind, m, id]: name, kind, module that defines it, identity
OwnOf(ms, kind, m) == {ms[i].id : i \in {i \in 1..Len(ms) : ms[i].kind = kind /\ ms[i].m = m}}
===============================================================================
