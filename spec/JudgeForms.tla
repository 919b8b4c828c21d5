------------------------------ MODULE JudgeForms -----------------------------
(* Written types (C19), instances and member values (C20), forms (C21).      *)
EXTENDS Forms, JudgeLoop

Names0 == [None |-> Ty("none"), Any |-> Ty("any"), Self |-> Ty("self"),
  G |-> [k |-> "origin", i |-> 1], H |-> [k |-> "origin", i |-> 2],
  T |-> [k |-> "tvar", n |-> "T"], P |-> [k |-> "pspec", n |-> "P"]]
Bares == [n \in {"list", "set", "dict", "frozenset", "tuple", "type", "Callable"} |-> [k |-> "bare", n |-> n]]
Builtins == [bool |-> Ty("bool"), int |-> Ty("int"), float |-> Ty("float"), str |-> Ty("str"), bytes |-> Ty("bytes"), object |-> Ty("object"),
  date |-> Ty("date"), datetime |-> Ty("datetime"), UUID |-> Ty("uuid"), Decimal |-> Ty("decimal")]
\* w.E.cls and w.E.enm: names of classes and enumerations; w.E.als: named aliases of this module
Classes(E) == [n \in DOMAIN E.cls |-> [k |-> "cls", n |-> n]] @@ [n \in DOMAIN E.enm |-> [k |-> "enum", n |-> n]] @@ Builtins @@ Bares
Marked(f) == [n \in {"X_" \o m : m \in DOMAIN f} |-> f[CHOOSE m \in DOMAIN f : "X_" \o m = n]]
\* E.dot: members of a namespace
Aliases(E) == [n \in DOMAIN E.als |-> Canon(E.als[n])] @@ [n \in DOMAIN E.dot |-> Canon(E.dot[n])]
Scope(E, transformed) ==
  (IF transformed THEN Marked(Classes(E)) ELSE Classes(E)) @@ Names0 @@ Aux @@ Aliases(E) @@ Bares

RECURSIVE Refs(_)
Refs(T) == (IF T.k = "ref" THEN {T.n} ELSE {}) \cup (IF Has(T, "a") THEN UNION {Refs(T.a[i]) : i \in 1..Len(T.a)} ELSE {})
\* references by text other than a name cannot be told without a module
RECURSIVE NeedsModule(_, _)
NeedsModule(T, E) == (T.k = "ref" /\ T.w = "str" /\ ~(Has(Classes(E), T.n) \/ Has(E.als, T.n))) \/ (Has(T, "a") /\ \E i \in 1..Len(T.a) : NeedsModule(T.a[i], E))

VStr(w, ev) ==
  LET C == Canon(ev.T)
      ref == Refs(ev.T) # {} /\ ~ev.ctx
      S == IF ref THEN Scope(w.E, FALSE) @@ Scope(w.E, ev.tt) ELSE Scope(w.E, ev.tt)
      O == [bar |-> ev.pep \/ ref, names |-> ~ev.pep \/ ref, val |-> ev.vt]
      R == Denote(ev.tree, S, O)
      bad(s) == "bad:" \o s
  IN IF ~ev.ctx /\ NeedsModule(ev.T, w.E) THEN (IF ev.o.ok THEN bad("a reference was evaluated without module") ELSE "ok:needs module")
     ELSE IF ~ev.o.ok THEN bad("writing the type failed with " \o ev.o.e)
     ELSE IF ~TEq(R, C) THEN bad("the text denotes another type: " \o ev.o.s)
     ELSE IF ~(ref \/ Aliased(ev.tree)) THEN bad("a fixed-width alias is spelled out: " \o ev.o.s)
     ELSE IF ~(ev.tt \/ ev.vt) /\ ~(ev.back # <<>> /\ TEq(Canon(ev.back[1]), C)) THEN bad("the text evaluates to another type: " \o ev.o.s)
     ELSE "ok:written"
VIdent(w, ev) ==
  LET n == NameOf(Canon(ev.T), ev.force) IN
  IF n = NoName THEN (IF ev.o.ok THEN "bad:a type without simple name is called " \o ev.o.s ELSE IF ev.o.e # "TypeError" THEN "bad:refused with " \o ev.o.e ELSE "ok:refused")
  ELSE IF ~ev.o.ok THEN "bad:not named"
  ELSE IF ev.o.s # n[1] THEN "bad:called " \o ev.o.s \o " rather than " \o n[1] ELSE "ok:named"
VName(w, ev) == IF ev.op = "str" THEN VStr(w, ev) ELSE VIdent(w, ev)

-------------------------------------------------------------------------------
RECURSIVE HasKind(_, _)
HasKind(T, ks) == T.k \in ks \/ (Has(T, "a") /\ \E i \in 1..Len(T.a) : HasKind(T.a[i], ks))
VIsInst(w, ev) ==
  LET r == IsInst(ev.V, ev.T, w.E) IN
  IF ~ev.o.ok THEN "bad:checking an instance failed with " \o ev.o.e
  ELSE IF ev.o.r # r THEN (IF r THEN "bad:an instance is not recognized" ELSE "bad:an object is taken for an instance")
  ELSE IF r THEN "ok:instance" ELSE "ok:no instance"
VLeaves(w, ev) ==
  LET ls == TLCEval(Leaves(ev.T, ev.V, w.E))
      calls == TLCEval([i \in 1..Len(ev.calls) |-> [t |-> Strip(ev.calls[i].t, w.E), v |-> ev.calls[i].v]]) IN
  IF ~ev.o.ok THEN "bad:the recursive check failed with " \o ev.o.e
  ELSE IF ~SameBag(ls, calls) THEN "bad:the predicate saw other member values"
  ELSE IF ~ev.o.r THEN "bad:the predicate held for all members but the check failed"
  ELSE IF ~(ev.free.ok /\ ev.free.r) THEN "bad:the check failed without a predicate"
  ELSE "ok:members"
VDeny(w, ev) ==
  LET ls == TLCEval(Leaves(ev.T, ev.V, w.E))
      deny == TLCEval([t |-> Strip(ev.deny.t, w.E), v |-> ev.deny.v])
      hit(x) == CASE ev.how = "value" -> SameValue(x.v, deny.v)
                  [] ev.how = "pred" -> SameLeaf(x, deny)
                  [] ev.how = "both" -> TEq(x.t, deny.t) /\ SameValue(x.v, deny.v)
                  [] ev.how = "type" -> TEq(x.t, deny.t)
      r == ~\E i \in 1..Len(ls) : hit(ls[i])
  IN IF ~ev.o.ok THEN "bad:the recursive check failed with " \o ev.o.e
     ELSE IF ev.o.r # r THEN (IF r THEN "bad:the check failed though the predicate holds for all members" ELSE "bad:a member that fails the predicate was overlooked")
     ELSE IF r THEN "ok:holds" ELSE "ok:fails"
VRefuse(w, ev) == IF ev.o.ok THEN "bad:contradicting predicates were accepted" ELSE IF ev.o.e # "TypeError" THEN "bad:refused with " \o ev.o.e ELSE "ok:refused"
VInst(w, ev) == CASE ev.op = "inst" -> VIsInst(w, ev) [] ev.op = "leaves" -> VLeaves(w, ev) [] ev.op = "deny" -> VDeny(w, ev) [] OTHER -> VRefuse(w, ev)

-------------------------------------------------------------------------------
ClassFields == {"optional", "strict", "union", "literal", "list", "set", "dict", "enum", "dataclass", "namedtuple", "annotated"}
VClass(w, ev) ==
  LET c == Class(Form(ev.T), w.E.kinds)
      wrong == {f \in ClassFields : ev.c[f] # (IF c[f] THEN "True" ELSE "False")}
  IN IF wrong = {} THEN "ok:classified" ELSE "bad:wrong about " \o ToString(wrong)
VApart(w, ev) ==
  LET r == Apart(ev.f, Form(ev.T)) IN
  IF r = <<>> THEN "skip"
  ELSE IF r[1].ok # ev.o.ok THEN (IF ev.o.ok THEN "bad:taken apart though it is not of that form: " \o ev.f ELSE "bad:not taken apart: " \o ev.f \o " " \o ev.o.e)
  ELSE IF ~r[1].ok THEN (IF ev.o.e = "TypeError" THEN "ok:refused" ELSE "bad:refused with " \o ev.o.e)
  ELSE IF Len(r[1].t) # Len(ev.parts) THEN "bad:wrong number of parts: " \o ev.f
  ELSE IF ev.T.k = "lit" /\ ev.f = "literal-values" /\ r[1].t # ev.parts THEN "bad:literal values in another order"
  ELSE IF \A i \in 1..Len(ev.parts) : TEq(r[1].t[i], Form(ev.parts[i])) THEN "ok:" \o ev.f ELSE "bad:wrong part: " \o ev.f
VMark(w, ev) ==
  LET m == FirstMark(Form(ev.T), ev.mk) IN
  IF ~ev.o.ok THEN "bad:looking for an annotation failed"
  ELSE IF m = ev.m THEN "ok:annotation" ELSE "bad:another annotation was found"
\* members of classes: ev.f the listed [n, t, d], ev.by the same looked up by name
RECURSIVE Named(_, _)
Named(T, E) ==
  CASE T.k = "ref" -> IF Has(E.cls, T.n) THEN [k |-> "cls", n |-> T.n] ELSE IF Has(E.enm, T.n) THEN [k |-> "enum", n |-> T.n]
                      ELSE IF Has(E.als, T.n) THEN [k |-> "ref", n |-> T.n] ELSE Named(T.a[1], E)
    [] T.k = "ann" -> MkAnn(Named(T.a[1], E), T.m)
    [] T.k = "union" -> MkUnion(TLCEval([i \in 1..Len(T.a) |-> Named(T.a[i], E)]))
    [] Has(T, "a") -> [T EXCEPT !.a = TLCEval([i \in 1..Len(T.a) |-> Named(T.a[i], E)])]
    [] OTHER -> T
VFields(w, ev) ==
  LET c == w.D.cls[ev.n]
      resolved(t) == ev.how # "fields" \/ t.k # "ref"
      same(x, f) == x.n = f.n /\ resolved(x.t) /\ TEq(Named(x.t, w.D), Named(f.t, w.D))
      defs(x, f) == (ev.how # "fields" \/ x.d = (IF f.d.k = "val" THEN f.d.v ELSE <<>>))
  IN IF ~ev.o.ok THEN "bad:listing members failed with " \o ev.o.e
     ELSE IF Len(ev.f) # Len(c.f) THEN "bad:wrong number of members"
     ELSE IF ~\A i \in 1..Len(c.f) : same(ev.f[i], c.f[i]) THEN "bad:wrong member"
     ELSE IF ~\A i \in 1..Len(c.f) : defs(ev.f[i], c.f[i]) THEN "bad:wrong default"
     ELSE IF ev.by # ev.f THEN "bad:a member looked up by name differs from the one listed"
     ELSE "ok:members"
VForm(w, ev) == CASE ev.op = "class" -> VClass(w, ev) [] ev.op = "apart" -> VApart(w, ev) [] ev.op = "mark" -> VMark(w, ev) [] OTHER -> VFields(w, ev)
=============================================================================
