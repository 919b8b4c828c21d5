----------------------------- MODULE MC_History ------------------------------
(* A cache of resolved classes, as an implementation may keep one: filled     *)
(* when a class and everything it refers to was available, and asked by       *)
(* identity and option.  Whatever it answers is permitted, and what cannot    *)
(* be resolved leaves nothing behind.  Histories are dumped for replay.       *)
EXTENDS History, Json, IOUtils, CSV, SequencesExt

Deep == "DEEP" \in DOMAIN IOEnv
L == IF Deep THEN 7 ELSE 6
K(k) == [k |-> k]
NoDef == [k |-> "no", v |-> <<>>]
Fld(n, t) == [n |-> n, t |-> t, d |-> NoDef, m |-> "a"]
Ref(n) == [k |-> "ref", n |-> n]
List(t) == [k |-> "list", a |-> <<t>>]
Decl(name, fs) == [kind |-> "dc", mod |-> "a", name |-> name, f |-> fs, ms |-> <<>>]
Defs == [D1 |-> Decl("A", <<Fld("v", K("int"))>>), D2 |-> Decl("A", <<Fld("v", K("str"))>>),
         D3 |-> Decl("B", <<Fld("x", List(Ref("A")))>>), D4 |-> Decl("C", <<Fld("b", [k |-> "cls", n |-> "D3"]), Fld("a", [k |-> "union", a |-> <<Ref("A"), K("none")>>])>>)]
JI == [k |-> "int", v |-> "1"]
JS == JStr("s")
Obj(n, j) == [k |-> "map", m |-> <<[n |-> n, j |-> j]>>]
Arr(j) == [k |-> "arr", a |-> <<j>>]
More(J) == [J EXCEPT !.m = Append(@, [n |-> "z", j |-> JI])]
Docs == [D1 |-> {Obj("v", JI), More(Obj("v", JI))}, D2 |-> {Obj("v", JS)},
         D3 |-> {Obj("x", Arr(Obj("v", JI))), Obj("x", Arr(Obj("v", JS))), Obj("x", Arr(More(Obj("v", JI))))},
         D4 |-> {Obj("b", Obj("x", Arr(Obj("v", JI)))), [k |-> "map", m |-> <<[n |-> "b", j |-> Obj("x", Arr(Obj("v", JS)))], [n |-> "a", j |-> Obj("v", JI)]>>]}]
Skips(J) == IF Len(J.m) = 2 \/ (J.m[1].n = "x" /\ Len(J.m[1].j.a[1].m) = 2) THEN {TRUE, FALSE} ELSE {FALSE}

VARIABLES s, cache, made, hist, out
vars == <<s, cache, made, hist, out>>
Init == s = Start0({"a"}) /\ cache = Empty /\ made = {} /\ hist = <<>> /\ out = "ok"
Step(ev, rec) == LET r == TLCEval(HStep(Defs, s, rec)) IN s' = r.s /\ out' = r.v /\ hist' = Append(hist, ev)
Declare(id) ==
  /\ id \notin made /\ (id = "D4" => "D3" \in made) /\ made' = made \cup {id} /\ UNCHANGED cache
  /\ LET ev == [op |-> "def", id |-> id, bind |-> TRUE] IN Step(ev, ev @@ [o |-> [ok |-> TRUE, e |-> ""]])
Unbind == /\ Has(s.bind.a, "A") /\ UNCHANGED <<cache, made>> /\ LET ev == [op |-> "unbind", mod |-> "a", name |-> "A"] IN Step(ev, ev)

\* what the cache gives: classes in the cache stay as they are, the others are resolved now
Got(id, skip) == IF Has(cache, <<id, skip>>) THEN cache[<<id, skip>>] ELSE Now(id, s, Defs)
RECURSIVE Build(_, _, _)
Build(todo, done, skip) == LET new == todo \ DOMAIN done IN
  IF new = {} THEN done
  ELSE LET more == TLCEval([id \in new |-> Got(id, skip)]) IN Build(UNION {IdsOf(more[id]) : id \in new}, more @@ done, skip)
Read(id, J, skip) ==
  LET T == [k |-> "cls", n |-> id]
      c == TLCEval(Build({id}, Empty, skip))
      lost == Loses(T, c)
      r == TLCEval(D(T, J, skip, EnvOf(c, Defs)))
      d == IF lost THEN [ok |-> FALSE, e |-> "X:NameError"] ELSE IF r.a = "yes" THEN [ok |-> TRUE, e |-> "", v |-> r.v[1]] ELSE [ok |-> FALSE, e |-> CHOOSE e \in r.e : TRUE]
      ev == [op |-> "read", T |-> T, mod |-> "", J |-> J, skip |-> skip]
  IN /\ id \in made /\ UNCHANGED made
     /\ cache' = IF lost THEN cache ELSE TLCEval([x \in {<<y, skip>> : y \in DOMAIN c} |-> c[x[1]]]) @@ cache
     /\ Step(ev, ev @@ [d |-> d])
Next == Len(hist) < L /\ (Unbind \/ \E id \in DOMAIN Defs : Declare(id) \/ \E J \in Docs[id] : \E skip \in Skips(J) : Read(id, J, skip))
Spec == Init /\ [][Next]_vars

\* whatever a cache answers is permitted
Sound == out \in {"ok", "ok:declared", "ok:unbound", "ok:read", "ok:refused", "ok:not available"}
\* while no name has been bound anew there is one outcome
Bound(n) == Cardinality({i \in 1..Len(hist) : hist[i].op = "def" /\ Defs[hist[i].id].name = n}) + Cardinality({i \in 1..Len(hist) : hist[i].op = "unbind"})
Determined == Bound("A") <= 1 => \A id \in made : Cardinality(ChoicesFor([k |-> "cls", n |-> id], s, s.snaps, Defs)) = 1
\* a read that lacks a name leaves nothing behind
NoTrace == [][out' = "ok:not available" => cache' = cache]_vars
\* the last event is a read: histories that say something
Dump == (Len(hist) = L /\ hist[L].op = "read" /\ "CASES" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.CASES)
ASSUME "CASES" \in DOMAIN IOEnv => JsonSerialize(IOEnv.CASES \o ".2", <<Defs>>)
=============================================================================
