------------------------------- MODULE MC_Inst -------------------------------
(* Instance checks and member values over the grid of types and values.      *)
EXTENDS Grid, Forms

Min2(a, b) == IF a < b THEN a ELSE b
VARIABLES pc, typ, val
vars == <<pc, typ, val>>
\* values of other types to try: a few of each
Few == UNION {LET s == SetToSeq(Vals_(t)) IN {s[i] : i \in 1..(IF Deep THEN Min2(Len(s), 6) ELSE Min2(Len(s), 2))} : t \in {t \in AllTypes : t.k # "union"}}
Init == typ \in {t \in AllTypes : t.k # "lit"} /\ pc = "type" /\ val = None
Own == pc = "type" /\ pc' = "own" /\ typ' = typ /\ val' \in Vals_(typ)
Other == pc = "type" /\ pc' = "other" /\ typ' = typ /\ val' \in Few
Next == Own \/ Other
Spec == Init /\ [][Next]_vars
RECURSIVE HasLit(_)
HasLit(t) == t.k = "lit" \/ (Has(t, "a") /\ \E i \in 1..Len(t.a) : HasLit(t.a[i]))
Judged == ~HasLit(typ)
OwnAccepted == (pc = "own" /\ Judged) => IsInst(val, typ, Env)
\* conforming is stricter than being an instance: booleans are not integers, members of objects count
Conforming == (pc # "type" /\ Judged) => (Conforms(val, typ, Env) => IsInst(val, typ, Env))
UnionIsAny == (pc # "type" /\ Judged /\ typ.k = "union") => (IsInst(val, typ, Env) <=> \E i \in 1..Len(typ.a) : IsInst(val, typ.a[i], Env))
RECURSIVE LeavesTyped(_)
LeavesTyped(ls) == \A i \in 1..Len(ls) : HasLit(ls[i].t) \/ IsInst(ls[i].v, ls[i].t, Env)
Members_ == pc = "own" => LeavesTyped(Leaves(typ, val, Env))
\* nothing is left out: a value without containers and objects is its own leaf
Atomic == LET S == Strip(typ, Env) IN (pc = "own" /\ ~Has(S, "a") /\ S.k # "cls") => Len(Leaves(typ, val, Env)) = 1
=============================================================================
