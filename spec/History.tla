-------------------------------- MODULE History --------------------------------
(* Deserialization while classes are declared, names bound anew and unbound, *)
(* and modules replaced.                                                     *)
(*                                                                           *)
(* D[id]: declared classes [kind, mod, name, f, ms], fields [n, t, d, m] with *)
(* m the module in which the field is declared; field types refer to classes *)
(* by identity ([k |-> "cls"/"enum", n |-> id]) or by name ("ref").          *)
(* State: bind[module][name] the class a name is bound to; snaps[id] what    *)
(* the fields of a class resolved to when it was used (the class may keep    *)
(* that); par[p] a parser that was created earlier.                          *)
EXTENDS Model

TypeOf(Ds, id) == IF Ds[id].kind = "enum" THEN [k |-> "enum", n |-> id] ELSE [k |-> "cls", n |-> id]
Empty == <<>>
Start0(mods) == [bind |-> [m \in mods |-> Empty], snaps |-> Empty, par |-> Empty]

RECURSIVE Resolved(_, _, _)
Resolved(T, B, Ds) ==
  CASE T.k = "ref" -> IF Has(B, T.n) THEN TypeOf(Ds, B[T.n]) ELSE [k |-> "lost"]
    [] Has(T, "a") -> [T EXCEPT !.a = TLCEval([i \in 1..Len(T.a) |-> Resolved(T.a[i], B, Ds)])]
    [] OTHER -> T
Now(id, s, Ds) == TLCEval([i \in 1..Len(Ds[id].f) |-> Resolved(Ds[id].f[i].t, s.bind[Ds[id].f[i].m], Ds)])

RECURSIVE Ids(_)
Ids(T) == IF T.k \in {"cls", "enum"} THEN {T.n} ELSE IF Has(T, "a") THEN UNION {Ids(T.a[i]) : i \in 1..Len(T.a)} ELSE {}
RECURSIVE HasLost(_)
HasLost(T) == T.k = "lost" \/ (Has(T, "a") /\ \E i \in 1..Len(T.a) : HasLost(T.a[i]))
IdsOf(fs) == UNION {Ids(fs[i]) : i \in 1..Len(fs)}

\* what the fields of a class may stand for
Snaps(snaps, id) == IF Has(snaps, id) THEN snaps[id] ELSE {}
Alts(id, s, snaps, Ds) == Snaps(snaps, id) \cup {Now(id, s, Ds)}
RECURSIVE Reach(_, _, _, _, _)
Reach(todo, done, s, snaps, Ds) ==
  LET new == todo \ done IN
  IF new = {} THEN done
  ELSE Reach(UNION {UNION {IdsOf(fs) : fs \in Alts(id, s, snaps, Ds)} : id \in new}, done \cup new, s, snaps, Ds)
RECURSIVE Choices(_, _)
Choices(R, alts) ==      \* one alternative for each class
  IF R = {} THEN {Empty}
  ELSE LET id == CHOOSE x \in R : TRUE  rest == TLCEval(Choices(R \ {id}, alts)) IN
       UNION {{(id :> fs) @@ c : c \in rest} : fs \in alts[id]}
RECURSIVE Closed(_, _, _)
Closed(todo, done, c) == LET new == todo \ done IN IF new = {} THEN done ELSE Closed(UNION {IdsOf(c[id]) : id \in new}, done \cup new, c)
Loses(T, c) == HasLost(T) \/ \E id \in Closed(Ids(T), {}, c) : \E i \in 1..Len(c[id]) : HasLost(c[id][i])
EnvOf(c, Ds) ==
  LET rec == {id \in DOMAIN c : Ds[id].kind # "enum"} IN
  [cls |-> TLCEval([id \in rec |-> [kind |-> Ds[id].kind, opts |-> [frozen |-> FALSE],
                                    f |-> [i \in 1..Len(c[id]) |-> [n |-> Ds[id].f[i].n, t |-> c[id][i], d |-> Ds[id].f[i].d]]]]),
   enm |-> [id \in DOMAIN c \ rec |-> Ds[id].ms], als |-> <<>>]

\* permitted outcomes of reading J as T: of D under every choice; an outcome of an unresolved name is free but for success
ChoicesFor(T, s, snaps, Ds) ==
  LET R == TLCEval(Reach(Ids(T), {}, s, snaps, Ds)) IN TLCEval(Choices(R, TLCEval([id \in R |-> Alts(id, s, snaps, Ds)])))
VOutcome(T, J, skip, R, s, snaps, Ds) ==
  LET cs == TLCEval(ChoicesFor(T, s, snaps, Ds))
      good == {c \in cs : ~Loses(T, c)}
      fits(c) == LET E == EnvOf(c, Ds) IN Admits(TLCEval(D(T, J, skip, E)), T, R, E)
  IN IF ~R.ok /\ R.e = "X:Timeout" THEN "bad:deserialization did not end"
     ELSE IF \E c \in good : fits(c) THEN (IF R.ok THEN "ok:read" ELSE "ok:refused")
     ELSE IF good # cs THEN (IF R.ok THEN "skip:not all names were needed" ELSE "ok:not available")
     ELSE IF R.ok THEN "bad:accepted with another result than on its own"
     ELSE "bad:refused with another result than on its own: " \o R.e

\* classes that are used may keep what they resolve to
Used(T, s, snaps, Ds) ==
  LET R == TLCEval(Reach(Ids(T), {}, s, snaps, Ds))
      now == TLCEval([id \in R |-> Now(id, s, Ds)])
      keeps == {id \in R : ~\E x \in Closed({id}, {}, now) : \E i \in 1..Len(now[x]) : HasLost(now[x][i])}
  IN [id \in keeps |-> Snaps(snaps, id) \cup {now[id]}] @@ snaps

Top(ev, s, Ds) == Resolved(ev.T, IF Has(s.bind, ev.mod) THEN s.bind[ev.mod] ELSE Empty, Ds)
HRead(Ds, s, ev) ==
  LET T == TLCEval(Top(ev, s, Ds)) IN
  [v |-> VOutcome(T, ev.J, ev.skip, ev.d, s, s.snaps, Ds), s |-> [s EXCEPT !.snaps = TLCEval(Used(T, s, s.snaps, Ds))]]
\* a parser: creation fails only if a name is not available
HMake(Ds, s, ev) ==
  LET T == TLCEval(Top(ev, s, Ds))
      lost == \E c \in ChoicesFor(T, s, s.snaps, Ds) : Loses(T, c)
      used == TLCEval(Used(T, s, s.snaps, Ds))
      snaps == IF lost THEN s.snaps ELSE used
      par == [T |-> T, skip |-> ev.skip, snaps |-> used, ok |-> ev.d.ok]
  IN [v |-> IF ev.d.ok THEN "ok:parser" ELSE IF lost THEN "ok:not available" ELSE "bad:a parser could not be created: " \o ev.d.e,
      s |-> [s EXCEPT !.snaps = snaps, !.par = (ev.p :> par) @@ s.par]]
Both(x, y) == [id \in DOMAIN x \cup DOMAIN y |-> Snaps(x, id) \cup Snaps(y, id)]
HParse(Ds, s, ev) ==
  IF ~Has(s.par, ev.p) \/ ~s.par[ev.p].ok THEN [v |-> "skip:no parser", s |-> s]
  ELSE LET p == s.par[ev.p] IN [v |-> VOutcome(p.T, ev.J, p.skip, ev.d, s, TLCEval(Both(p.snaps, s.snaps)), Ds), s |-> s]
\* an object that was read is written again; judged when no class on the way has kept anything
RECURSIVE ObjIds(_)
ObjIds(V) == CASE V.k = "obj" -> {V.n} \cup UNION {ObjIds(V.m[i].x) : i \in 1..Len(V.m)}
               [] V.k = "enum" -> {V.n}
               [] V.k \in {"list", "tuple", "set"} -> UNION {ObjIds(V.a[i]) : i \in 1..Len(V.a)}
               [] V.k = "dict" -> UNION {ObjIds(V.p[i].val) : i \in 1..Len(V.p)}
               [] OTHER -> {}
HWrite(Ds, s, ev) ==
  LET ids == ObjIds(ev.V)  R == TLCEval(Reach(ids, {}, s, s.snaps, Ds))
      alts == TLCEval([id \in R |-> Alts(id, s, s.snaps, Ds)]) IN
  [v |-> IF \E id \in R : Cardinality(alts[id]) # 1 THEN "skip:kept"
         ELSE LET c == CHOOSE c \in Choices(R, alts) : TRUE IN
              IF \E id \in R : \E i \in 1..Len(c[id]) : HasLost(c[id][i]) THEN "skip:not available"
              ELSE IF ~ev.s.ok THEN "bad:could not be written: " \o ev.s.e
              ELSE IF SerMatch(ev.V, ev.s.j, EnvOf(c, Ds)) THEN "ok:written" ELSE "bad:written in another way than on its own",
   s |-> s]

HStep(Ds, s, ev) ==
  CASE ev.op = "def" -> [v |-> IF ev.o.ok THEN "ok:declared" ELSE "bad:" \o ev.o.e,
                         s |-> IF ev.bind THEN [s EXCEPT !.bind[Ds[ev.id].mod] = (Ds[ev.id].name :> ev.id) @@ @] ELSE s]
    [] ev.op = "unbind" -> [v |-> "ok:unbound", s |-> [s EXCEPT !.bind[ev.mod] = [n \in DOMAIN @ \ {ev.name} |-> @[n]]]]
    [] ev.op = "reload" -> [v |-> "ok:replaced", s |-> [s EXCEPT !.bind[ev.mod] = Empty]]
    [] ev.op = "read" -> HRead(Ds, s, ev)
    [] ev.op = "make" -> HMake(Ds, s, ev)
    [] ev.op = "parse" -> HParse(Ds, s, ev)
    [] ev.op = "write" -> HWrite(Ds, s, ev)
=============================================================================
