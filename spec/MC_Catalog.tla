------------------------------ MODULE MC_Catalog -----------------------------
(* The catalog over a small universe of classes that refer to each other:    *)
(* every registry that registrations can lead to, and the schema of every    *)
(* type under it.                                                            *)
EXTENDS Catalog, Json, IOUtils, SequencesExt, FiniteSetsExt

Deep == "DEEP" \in DOMAIN IOEnv
K(k) == [k |-> k]
A(k, a) == [k |-> k, a |-> a]
Cls(n) == [k |-> "cls", n |-> n]
Ref(n) == [k |-> "ref", n |-> n]
Opt(t) == A("union", <<t, K("none")>>)
NoDef == [k |-> "no", v |-> <<>>]
Fld(n, t) == [n |-> n, t |-> t, d |-> NoDef]
Class(fs) == [kind |-> "dc", f |-> fs, opts |-> [frozen |-> FALSE]]

\* every class has a member of its own by which it is recognized
Classes == [
  CA |-> Class(<<Fld("mCA", K("int"))>>),
  CB |-> Class(<<Fld("mCB", K("int")), Fld("a", Cls("CA")), Fld("l", A("list", <<Cls("CA")>>))>>),
  CR |-> Class(<<Fld("mCR", K("int")), Fld("next", Opt(Ref("CR")))>>),
  CS |-> Class(<<Fld("mCS", K("int")), Fld("t", A("list", <<Ref("CT")>>))>>),
  CT |-> Class(<<Fld("mCT", K("int")), Fld("s", A("dict", <<K("str"), Ref("CS")>>)), Fld("r", Cls("CR"))>>),
  CM |-> Class(<<Fld("mCM", K("int")), Fld("b", Opt(Cls("CB"))), Fld("e", [k |-> "enum", n |-> "EE"]), Fld("u", A("union", <<Cls("CS"), K("str")>>))>>)]
Env == [cls |-> Classes, enm |-> [EE |-> <<[n |-> "A", v |-> [k |-> "str", v |-> "mEE"]]>>], als |-> <<>>,
        doc |-> [CA |-> [s |-> <<"A.">>, l |-> <<>>, p |-> <<>>]], base |-> [CA |-> ""], reg |-> <<>>]
AllNames == DOMAIN Classes \cup {"EE"}
TypeNamed(n) == IF n = "EE" THEN [k |-> "enum", n |-> n] ELSE Cls(n)
Queries == {TypeNamed(n) : n \in AllNames} \cup {A("list", <<Cls("CM")>>), A("dict", <<K("str"), Cls("CT")>>), A("tuple", <<Cls("CB"), Cls("CR")>>)}
O == [path |-> "#/definitions/", desc |-> TRUE, ex |-> TRUE, fun |-> FALSE]

Ids(n) == IF n \in {"CA", "CR", "CM"} THEN {n, "Shared", "CS"} ELSE {n, "Shared"}
Registration(n, id) == [id |-> id, s |-> IF n = "EE" /\ id # n THEN <<JMap(<<Kw("type", "string")>>)>> ELSE <<>>, x |-> IF n = "CB" THEN <<JArr(<<JInt("1")>>)>> ELSE <<>>]

VARIABLES reg, was, docs
vars == <<reg, was, docs>>
Docs(r) == TLCEval([T \in Queries |-> Wrote(T, FALSE, r, Env, O)])
Init == reg = <<>> /\ was = "" /\ docs = Docs(<<>>)
Register(n) == /\ CanRegister(reg, n) /\ \E id \in Ids(n) : reg' = WithRegistration(reg, n, Registration(n, id))
               /\ was' = n /\ docs' = Docs(reg')
Again(n) == ~CanRegister(reg, n) /\ UNCHANGED <<reg, docs>> /\ was' = ""
Next == \E n \in AllNames : Register(n) \/ Again(n)
Spec == Init /\ [][Next]_vars
Small == Cardinality(DOMAIN reg) <= (IF Deep THEN 4 ELSE 2)

-------------------------------------------------------------------------------
\* what refers to what, read off the declarations
RECURSIVE Mentioned(_)
Mentioned(T) == IF T.k \in {"cls", "enum", "ref"} THEN {T.n} ELSE IF "a" \in DOMAIN T THEN UNION {Mentioned(T.a[i]) : i \in 1..Len(T.a)} ELSE {}
Edges == [n \in AllNames |-> IF n = "EE" THEN {} ELSE UNION {Mentioned(Classes[n].f[i].t) : i \in 1..Len(Classes[n].f)}]
RECURSIVE Closure(_, _, _)
Closure(todo, done, stop) ==      \* what is reached from todo without passing through stop
  LET new == todo \ done IN
  IF new = {} THEN done ELSE Closure(UNION {Edges[n] : n \in new \ stop}, done \cup new, stop)
Reached(T) == Closure(Mentioned(T), {}, {})
\* a type that meets itself again before a registered type is met
Recursive(n, r) == n \notin DOMAIN r /\ n \in Closure(Edges[n], {}, DOMAIN r)
Expected(T, r) == {n \in Reached(T) : n \in DOMAIN r \/ Recursive(n, r)}

Doc(T) == docs[T]
\* definitions are the registered types that are reached, and recursive types, and all of them are referred to
Exact == \A T \in Queries : LET d == Doc(T) IN
  /\ Names(d) \subseteq Expected(T, reg)
  /\ Reached(T) \cap DOMAIN reg \subseteq Names(d)
  /\ Names(d) = RefIds(d, O)
\* every reference has its definition, also under the final identifiers
Closed == \A T \in Queries : LET d == Doc(T) IN AllDefined(d) /\ (~Conflict(Names(d), reg) => AllDefined(Served(d, reg, O)))
\* one definition for one type
OneEach == \A T \in Queries : LET d == Doc(T)  s == Served(d, reg, O) IN
             Conflict(Names(d), reg) \/ Cardinality(Names(s)) = Cardinality(Names(d))
\* a registered type appears within its own definition only, an unregistered type wherever it is mentioned
RECURSIVE Marked(_, _)
Marked(J, m) == IF J.k = "map" THEN \E i \in 1..Len(J.m) : J.m[i].n = m \/ Marked(J.m[i].j, m)
                ELSE IF J.k = "arr" THEN \E i \in 1..Len(J.a) : Marked(J.a[i], m) ELSE J.k = "str" /\ J.v = m
WithoutDef(d, n) == IF ~HasMember(d, "definitions") THEN d ELSE Put(d, "definitions", DropMember(Member(d, "definitions"), n))
OnlyReferred == \A T \in Queries : \A n \in DOMAIN reg : ~Marked(WithoutDef(Doc(T), n), "m" \o n)
Present == \A T \in Queries : \A n \in Reached(T) : Marked(Doc(T), "m" \o n) \/ (n \in DOMAIN reg /\ reg[n].s # <<>>)
\* a registration changes only the schemas that reach the type
Untouched == [][was' # "" => \A T \in Queries : was' \notin Reached(T) => docs'[T] = docs[T]]_vars

\* histories for replay: all sequences of registrations, also of the same type again
Regs == UNION {{[n |-> n, id |-> id, s |-> Registration(n, id).s, x |-> Registration(n, id).x] : id \in Ids(n)} : n \in AllNames}
RegsSeq == TLCEval(SetToSeq(Regs))
ASSUME "CASES" \in DOMAIN IOEnv => /\ JsonSerialize(IOEnv.CASES, <<Env>>)
                                   /\ ndJsonSerialize(IOEnv.CASES \o ".2", RegsSeq)
                                   /\ ndJsonSerialize(IOEnv.CASES \o ".3", TLCEval(SetToSeq(Queries)))
=============================================================================
