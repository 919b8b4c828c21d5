---------------------------- MODULE JudgeDynamic ------------------------------
(* xe: enumeration chain[1] extended by the others in turn; R: per extension  *)
(*     [ok, e, m, named, doc, bound, kept, fresh]                             *)
(* mk: modules made and dropped; R: per step [ok, e, named, reg, empty, old]  *)
(* an: annotation objects x, y of classes cx, cy; R: outcomes of operators    *)
(* ml: members ms of a module; R: [c, f] the classes and functions listed     *)
(* cd: a data class with fields f; R: [ok, e, n, f, slots, init, eq]          *)
(* co: an object made of a class; R: [ok, e, exact, bare]                     *)
EXTENDS Dynamic, JudgeLoop

RECURSIVE Chain(_, _, _, _)
Chain(cur, xs, rs, refused) ==
  IF xs = <<>> THEN (IF refused THEN "ok:refused" ELSE "ok")
  ELSE LET X == Head(xs)  r == Head(rs) IN
  IF ~r.kept THEN "bad:what was there before changed"
  ELSE IF Clash(cur, X) THEN (IF r.ok THEN "bad:members that conflict were accepted" ELSE IF r.e \notin {"ValueError", "TypeError"} THEN "bad:refused with " \o r.e ELSE Chain(cur, Tail(xs), Tail(rs), TRUE))
  ELSE IF ~r.ok /\ Twice(cur, X) THEN Chain(cur, Tail(xs), Tail(rs), TRUE)
  ELSE IF ~r.ok THEN "bad:refused with " \o r.e
  ELSE IF ~IsExtended(r.m, cur, X) THEN "bad:not the members of both"
  ELSE IF ~r.named THEN "bad:not the name or module of the extension"
  ELSE IF ~r.doc THEN "bad:not the documentation of the extension"
  ELSE IF ~r.bound THEN "bad:not found in the module"
  ELSE IF ~r.fresh THEN "bad:not a new enumeration"
  ELSE Chain(r.m, Tail(xs), Tail(rs), refused)

RECURSIVE Steps(_, _, _)
Steps(used, log, rs) ==
  IF log = <<>> THEN "ok"
  ELSE LET x == Head(log)  r == Head(rs) IN
  IF x.op = "drop" THEN Steps(Remove(used, x.n), Tail(log), Tail(rs))
  ELSE LET want == CreateIn(used, x.n) IN
  IF want.ok # r.ok THEN (IF r.ok THEN "bad:a name in use was given again" ELSE "bad:refused with " \o r.e)
  ELSE IF ~r.ok THEN (IF r.e # "KeyError" THEN "bad:refused with " \o r.e ELSE IF ~r.old THEN "bad:the module in use was replaced" ELSE Steps(used, Tail(log), Tail(rs)))
  ELSE IF ~r.named \/ ~r.reg THEN "bad:not the module of that name" ELSE IF ~r.empty THEN "bad:the module is not empty"
  ELSE Steps(want.used, Tail(log), Tail(rs))

Bool(b) == IF b THEN "T" ELSE "F"
VAnnotation(ev) ==
  LET same == IF ev.same THEN TRUE ELSE Same(ev.x, ev.y, ev.cx)
      same2 == IF ev.same THEN TRUE ELSE IF ev.cx.eq = ev.cy.eq THEN same ELSE FALSE IN
  IF ev.R.eq # Bool(same2) THEN "bad:equality" ELSE IF ev.R.ne # Bool(~same2) THEN "bad:inequality"
  ELSE IF same2 /\ ev.cx.hash /\ ev.cy.hash /\ ev.R.hash # "T" THEN "bad:equal objects have different hashes"
  ELSE IF ev.cx.hash /\ ev.cy.hash /\ ev.R.hash \notin {"T", "F"} THEN "bad:no hash"
  ELSE IF \E op \in {"lt", "le", "gt", "ge"} : ev.R[op] # Less(op, ev.x, ev.y, [order |-> ev.cx.order /\ ev.cy.order]) THEN "bad:order"
  ELSE IF ev.R.repr # PrintedAs(ev.x) THEN "bad:printed as " \o ev.R.repr
  ELSE IF ev.cx.frozen /\ ~ev.R.frozen THEN "bad:can be changed"
  ELSE "ok"

VListing(ev) ==
  IF {ev.R.c[i] : i \in 1..Len(ev.R.c)} # OwnOf(ev.ms, "class", "here") THEN "bad:not the classes of the module"
  ELSE IF {ev.R.f[i] : i \in 1..Len(ev.R.f)} # OwnOf(ev.ms, "func", "here") THEN "bad:not the functions of the module" ELSE "ok"

VData(ev) ==
  LET dup == \E i, j \in 1..Len(ev.f) : i < j /\ ev.f[i].n = ev.f[j].n
      odd == \E i \in 1..Len(ev.f) : ev.f[i].n \in {"class", "from", "1a", "a b", ""} IN
  IF dup \/ odd THEN (IF ev.R.ok THEN "bad:fields that cannot be were accepted" ELSE "ok:refused")
  ELSE IF ~ev.R.ok THEN "bad:refused with " \o ev.R.e
  ELSE IF ev.R.n # ev.n THEN "bad:not the name" ELSE IF ev.R.f # ev.f THEN "bad:not the fields" ELSE IF ~ev.R.slots THEN "bad:accepts other attributes"
  ELSE IF ~ev.R.init \/ ~ev.R.eq THEN "bad:objects do not hold what they are given" ELSE "ok"

VDynamic(w, ev) ==
  CASE ev.op = "xe" -> Chain(ev.chain[1], Tail(ev.chain), ev.R, FALSE)
    [] ev.op = "mk" -> Steps({}, ev.log, ev.R)
    [] ev.op = "an" -> VAnnotation(ev)
    [] ev.op = "ml" -> VListing(ev)
    [] ev.op = "cd" -> VData(ev)
    [] ev.op = "co" -> IF ~ev.R.ok THEN "bad:refused with " \o ev.R.e ELSE IF ~ev.R.exact THEN "bad:not an object of the class" ELSE IF ~ev.R.bare THEN "bad:its initializer ran" ELSE "ok"
===============================================================================
