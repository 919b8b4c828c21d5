------------------------------ MODULE MC_Model ------------------------------
(* The converter as a machine over a small universe: every type of the grid, *)
(* every value of it, and every document of the grid.  A value is written    *)
(* and read back; a document is read and, when accepted, written again.      *)
(* The same cases are dumped for replay against the real code.               *)
EXTENDS Grid

VARIABLES pc, typ, val, doc, skip
vars == <<pc, typ, val, doc, skip>>

InitValue == \E t \in AllTypes \cup OpenTypes : \E v \in Vals_(t) : pc = "value" /\ typ = t /\ val = <<v>> /\ doc = Null /\ skip = FALSE
InitDoc == \E t \in AllTypes \cup OpenTypes, j \in Docs, s \in (IF Deep THEN BOOLEAN ELSE {FALSE}) : pc = "document" /\ typ = t /\ val = <<>> /\ doc = j /\ skip = s
Init == InitValue \/ InitDoc

Write == pc = "value" /\ pc' = "written" /\ doc' = Ser(val[1], Env) /\ UNCHANGED <<typ, val, skip>>
Reread == pc = "written" /\ LET r == D(typ, doc, skip, Env) IN
            /\ pc' = (IF r.a = "any" THEN "free" ELSE IF r.a # "yes" THEN "lost" ELSE IF VEq(r.v[1], val[1]) THEN "same" ELSE "overlap")
            /\ UNCHANGED <<typ, val, doc, skip>>
Read == pc = "document" /\ LET r == D(typ, doc, skip, Env) IN
            /\ pc' = (CASE r.a = "yes" -> "accepted" [] r.a = "no" -> "refused" [] OTHER -> "free")
            /\ val' = r.v
            /\ UNCHANGED <<typ, doc, skip>>
Rewrite == pc = "accepted" /\ LET r == D(typ, Ser(val[1], Env), FALSE, Env) IN
            /\ pc' = (IF r.a = "any" THEN "free" ELSE IF r.a # "yes" THEN "lost" ELSE IF VEq(r.v[1], val[1]) THEN "stable" ELSE "overlap")
            /\ UNCHANGED <<typ, val, doc, skip>>
Next == Write \/ Reread \/ Read \/ Rewrite
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE HasUnion(_)
HasUnion(t) == t.k = "union" \/ (Has(t, "a") /\ \E i \in 1..Len(t.a) : HasUnion(t.a[i]))

\* values of the grid are values of their type
Typed == val # <<>> => Conforms(val[1], typ, Env)
\* a document is written that represents the value, and only that
Represents == pc = "written" => SerMatch(val[1], doc, Env)
\* what is written is never refused
NothingLost == pc # "lost"
\* it reads as another value only through a union, or where None stands for a declared default
OverlapOnlyByChoice == (pc = "overlap" /\ ~HasUnion(typ)) =>
                          \/ typ.k = "cls" /\ typ.n \in {"Q", "N"}
                          \/ Has(typ, "a") /\ \E i \in 1..Len(typ.a) : typ.a[i].k = "cls" /\ typ.a[i].n \in {"Q", "N"}
\* nothing is coerced
NoCoercion == pc = "accepted" =>
  CASE typ.k = "bool" -> doc.k = "bool" [] typ.k = "int" -> doc.k = "int" [] typ.k = "float" -> doc.k \in {"int", "float"}
    [] typ.k \in TextKinds \cup {"str"} -> doc.k = "str" [] typ.k \in {"list", "set", "tuple"} -> doc.k = "arr"
    [] typ.k = "dict" -> doc.k = "map" [] typ.k = "cls" -> doc.k = (IF typ.n = "X" THEN "str" ELSE "map") [] OTHER -> TRUE
\* an unknown property is accepted only if asked for
UnknownRefused == (pc = "accepted" /\ typ.k = "cls" /\ ~skip) =>
   typ.n = "X" \/ \A i \in 1..Len(doc.m) : \E j \in 1..Len(Env.cls[typ.n].f) :
        PropName(Env.cls[typ.n].f[j].n, Env.cls[typ.n].f[j].t) = doc.m[i].n
\* a union of untagged members returns what its first accepting member returns; a tagged union does not depend on the order
FirstMatch == (pc = "accepted" /\ typ.k = "union" /\ typ \notin Tagged) =>
   \E i \in 1..Len(typ.a) : /\ D(typ.a[i], doc, skip, Env) = Yes(val[1])
                            /\ \A j \in 1..(i - 1) : D(typ.a[j], doc, skip, Env).a = "no"
TagOrder == (pc \in {"accepted", "refused"} /\ typ \in Tagged) =>
   LET r == D(A("union", <<typ.a[2], typ.a[1]>>), doc, skip, Env) IN (r.a = "yes") = (pc = "accepted") /\ r.v = val

ASSUME "CASES" \in DOMAIN IOEnv => /\ ndJsonSerialize(IOEnv.CASES, CasesOf(AllTypes \cup OpenTypes))
                                   /\ ndJsonSerialize(IOEnv.CASES \o ".2", Sequenced(Docs))
                                   /\ JsonSerialize(IOEnv.CASES \o ".3", <<Env>>)
=============================================================================
