----------------------------- MODULE JudgeFlatten -----------------------------
(* op "fl": schema J flattened with options q, rec gives R; J2: the schema    *)
(* that was passed in, afterwards                                             *)
EXTENDS Flatten, SchemaDiff, JudgeLoop

VFlatten(w, ev) ==
  IF Collides(ev.J, ev.q, ev.rec) THEN "skip:names collide"
  ELSE IF ev.J2 # ev.J THEN "bad:the schema passed in was modified"
  ELSE IF ~ev.R.ok THEN "bad:flattening failed with " \o ev.R.e
  ELSE LET x == TLCEval(Rounded(Flattened(ev.J, ev.q, ev.rec)))  y == TLCEval(Rounded(ev.R.j)) IN
       IF y.k = "map" /\ SameSchema(x, y) THEN "ok" ELSE "bad:not the flattened schema, at " \o Diff(x, y)
===============================================================================
