----------------------------- MODULE JudgeImport ------------------------------
(* op "im": the schema J (generated from type T = <<T>> of w.E unless <<>>)   *)
(* is imported.  R: [ok, e, T, E, named, out]; T, E describe the type created, *)
(* named: it is in the module under its name; out: the schema generated from  *)
(* it.  J2: the schema that was passed in, afterwards.                        *)
EXTENDS Import, JudgeLoop

VImport(w, ev) ==
  LET J == ev.J  ok == TLCEval(Accepted(J)) IN
  IF J.k # "map" THEN "skip:no schema"
  ELSE IF ev.J2 # J THEN "bad:the schema passed in was modified"
  ELSE IF ~ok THEN (IF NullWord(J) THEN "skip:null" ELSE IF ev.R.ok THEN "bad:accepted a schema that it cannot represent" ELSE "ok:refused")
  ELSE IF \E i \in 1..Len(Props(J)) : OddName(Props(J)[i].n) THEN "skip:field name"
  ELSE IF ~ev.R.ok THEN (IF OpenDefault(TopObject(J)) \/ \E i \in 1..Len(Definitions(J)) : OpenDefault(Definitions(J)[i].j) THEN "skip:default that may be refused"
                         ELSE "bad:refused with " \o ev.R.e)
  ELSE LET want == TLCEval(SchemaShape(J))  have == TLCEval(ShapeOf(ev.R.T, ev.R.E)) IN
  IF ~TEq(want, have) THEN "bad:not the type that the schema describes" \o TDiff(want, have)
  ELSE IF ~ev.R.named THEN "bad:not created in the module under its name"
  ELSE IF ev.T # <<>> /\ ~TEq(ShapeOf(ev.T[1], w.E), have) THEN "bad:not the type that the schema was generated from" \o TDiff(ShapeOf(ev.T[1], w.E), have)
  ELSE IF ~Regenerates(J) THEN (IF ev.T # <<>> THEN "ok:shape of class" ELSE "ok:shape")
  ELSE IF ~ev.R.out.ok THEN "bad:no schema from the type created: " \o ev.R.out.e
  ELSE LET x == TLCEval(Rounded(Regenerated(J)))  y == TLCEval(Rounded(TopObject(ev.R.out.j))) IN
       IF SameSchema(x, y) THEN (IF ev.T # <<>> THEN "ok:whole of class" ELSE "ok:whole") ELSE "bad:not the same schema again, at " \o Diff(x, y)
===============================================================================
