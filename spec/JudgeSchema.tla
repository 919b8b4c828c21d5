----------------------------- MODULE JudgeSchema ----------------------------
(* Verdicts on recorded schemas.                                             *)
(*   op "sg": schema s of type T with options O; force: written in place     *)
(*   op "sv": schemas S (one for each draft) of type T, and values V, each   *)
(*            with its serialization s and the outcome a of validation       *)
(*   op "sd": schema s of type T, and documents D, each with outcome d of    *)
(*            deserialization and outcome a of validation                    *)
EXTENDS SchemaDiff, JudgeLoop

(* C09: the schema carries what the declaration states, and nothing else *)
VGenerated(w, ev) ==
  IF ~ev.s.ok THEN "bad:schema generation failed with " \o ev.s.e
  ELSE IF ev.force /\ Explicit(ev.T, w.E) THEN "skip:explicit schema overridden"
  ELSE LET x == IF ev.force THEN Forced(ev.T, w.E, ev.O) ELSE Document(ev.T, w.E, ev.O) IN
       LET f == Fold(x, ev.O)  g == Fold(ev.s.j, ev.O) IN IF SameSchema(f, g) THEN "ok" ELSE Report(f, g)

-------------------------------------------------------------------------------
Plain == [path |-> "#/definitions/", desc |-> TRUE, ex |-> TRUE, fun |-> FALSE]
Meaning(root, shape, rx) == [root |-> root, shape |-> shape, rx |-> rx]

RECURSIVE HasFraction(_)
HasFraction(X) ==         \* multiples of a fraction are beyond exact validation by the library
  IF X.k = "map" THEN \E i \in 1..Len(X.m) : (X.m[i].n = "multipleOf" /\ X.m[i].j.k = "float") \/ HasFraction(X.m[i].j)
  ELSE X.k = "arr" /\ \E i \in 1..Len(X.a) : HasFraction(X.a[i])
RECURSIVE HasFormat(_)
HasFormat(X) ==
  IF X.k = "map" THEN \E i \in 1..Len(X.m) : X.m[i].n = "format" \/ HasFormat(X.m[i].j)
  ELSE X.k = "arr" /\ \E i \in 1..Len(X.a) : HasFormat(X.a[i])

(* C07: what is written validates *)
VValue(w, S_, frac, doc, v) ==
  IF ~Conforms(v.V, v.T, w.E) \/ Unwritable(v.V, w.E) THEN "skip:value does not conform"
  ELSE IF ~Valid(doc, Ser(v.V, w.E), Meaning(doc, FALSE, v.rx)) THEN "skip:value is outside of the declared constraints"
  ELSE IF ~v.s.ok THEN "bad:serialization failed with " \o v.s.e
  ELSE IF NotJson(v.s.j) THEN "bad:not a JSON document"
  ELSE IF ~Valid(S_, v.s.j, Meaning(S_, FALSE, v.rx)) THEN "bad:serialized value does not validate against the schema"
  ELSE IF ~frac /\ ~v.a.ok THEN "bad:serialized value is not accepted by validate_object, " \o v.a.e
  ELSE "ok"
VSchemaValues(w, ev) ==
  IF \E i \in 1..Len(ev.S) : ~ev.S[i].ok THEN
    LET i == CHOOSE i \in 1..Len(ev.S) : ~ev.S[i].ok IN "bad:schema generation failed for " \o ev.S[i].draft \o ", " \o ev.S[i].e
  ELSE IF \E i \in 1..Len(ev.S) : ~AllDefined(ev.S[i].j) THEN "bad:a reference is not defined"
  ELSE IF \E i \in 1..Len(ev.S) : ev.S[i].id # ev.S[i].uri THEN "bad:schema does not state its draft"
  ELSE IF \E i \in 2..Len(ev.S) : ev.S[i].path = ev.S[1].path /\ ~SameSchema(ev.S[i].j, ev.S[1].j) THEN "bad:schema depends on the draft"
  ELSE LET doc == TLCEval(Document(ev.T, w.E, Plain))
           frac == HasFraction(doc)
           vs == TLCEval([i \in 1..Len(ev.V) |-> VValue(w, ev.S[1].j, frac, doc, ev.V[i])])
           bad == {i \in 1..Len(vs) : StartsWith(vs[i], "bad")}
       IN IF bad # {} THEN vs[CHOOSE i \in bad : \A j \in bad : i <= j]
          ELSE IF \E i \in 1..Len(vs) : vs[i] = "ok" THEN "ok" ELSE "skip:no value"

-------------------------------------------------------------------------------
(* C08: schema and deserializer *)
RECURSIVE LenientType(_, _)
LenientType(T, E) ==
  IF T.k \in TextKinds \/ (T.k \in {"cls", "ref"} /\ Has(E.cls, T.n) /\ E.cls[T.n].kind = "custom") THEN [k |-> "str"]
  ELSE IF T.k \in {"list", "set", "dict", "tuple", "union", "ann"} THEN [T EXCEPT !.a = [i \in 1..Len(T.a) |-> LenientType(T.a[i], E)]]
  ELSE T
LenientEnv(E) ==
  [E EXCEPT !.cls = [n \in DOMAIN E.cls |-> [E.cls[n] EXCEPT !.f = [i \in 1..Len(E.cls[n].f) |->
                       [E.cls[n].f[i] EXCEPT !.t = LenientType(E.cls[n].f[i].t, E)]]]]]
RECURSIVE Integers(_)
Integers(J) ==           \* integral numbers without fraction
  CASE J.k = "float" -> LET n == Norm(J.v) IN IF EndsWith(J.v, ".0") /\ n.s # 0 THEN [k |-> "int", v |-> SubSeq(J.v, 1, Len(J.v) - 2)]
                                              ELSE IF n.s = 0 THEN [k |-> "int", v |-> "0"] ELSE J
    [] J.k = "arr" -> [J EXCEPT !.a = [i \in 1..Len(J.a) |-> Integers(J.a[i])]]
    [] J.k = "map" -> [J EXCEPT !.m = [i \in 1..Len(J.m) |-> [n |-> J.m[i].n, j |-> Integers(J.m[i].j)]]]
    [] OTHER -> J

VDocument(w, L, X, frac, fmt, T, d) ==
  LET valid == TLCEval(Valid(X, d.J, Meaning(X, FALSE, d.rx)))
      shape == valid \/ Valid(X, d.J, Meaning(X, TRUE, d.rx)) IN
  IF ~shape /\ d.d.ok THEN "bad:accepted a document whose shape the schema rejects"
  ELSE IF d.a.ok /\ ~frac /\ ~(IF fmt THEN shape ELSE valid) THEN "bad:validate_object accepts what the schema rejects"
  ELSE IF ~d.a.ok /\ valid /\ ~frac /\ ~fmt THEN "bad:validate_object rejects what the schema accepts"
  ELSE IF ~valid THEN (IF shape THEN "ok:rejected by constraints" ELSE "ok:rejected by both")
  ELSE IF d.d.ok THEN "ok:accepted by both"
  ELSE LET r == TLCEval(D(T, d.J, FALSE, w.E)) IN
       IF r.a = "yes" THEN "bad:refused a document that the schema accepts, with " \o d.d.e
       ELSE IF r.a = "any" THEN "skip:not determined"
       ELSE LET q == D(LenientType(T, w.E), Integers(d.J), FALSE, L) IN
            IF q.a = "yes" THEN "ok:refused text or number" ELSE IF q.a = "any" THEN "skip:not determined"
            ELSE "bad:the schema accepts a document that is not of the type"
VSchemaDocs(w, ev) ==
  IF ~ev.s.ok THEN "bad:schema generation failed with " \o ev.s.e
  ELSE LET L == LenientEnv(w.E)
           frac == HasFraction(ev.s.j)
           fmt == HasFormat(ev.s.j)
           vs == TLCEval([i \in 1..Len(ev.D) |-> VDocument(w, L, ev.s.j, frac, fmt, ev.T, ev.D[i])])
           bad == {i \in 1..Len(vs) : StartsWith(vs[i], "bad")}
       IN IF bad # {} THEN vs[CHOOSE i \in bad : \A j \in bad : i <= j] \o " (document " \o ToString(CHOOSE i \in bad : \A j \in bad : i <= j) \o ")"
          ELSE IF \E i \in 1..Len(vs) : vs[i] = "ok:accepted by both" THEN "ok:accepted by both"
          ELSE IF vs = <<>> THEN "skip:no document" ELSE vs[1]
=============================================================================
