---------------------------- MODULE JudgeCatalog ----------------------------
(* Histories of the catalog (C10).  Events: "reg" registers class n with     *)
(* identifier id, schema s, examples x; "sch" generates a schema; "ident"    *)
(* asks for the identifier; "spoil" changes results and arguments of earlier *)
(* calls, which nothing may depend on.                                       *)
EXTENDS Catalog, JudgeHist

CatalogInit(w) == w.E.reg

VReg(reg, ev) ==
  IF CanRegister(reg, ev.n) THEN (IF ev.o.ok THEN "ok:registered" ELSE "bad:registration was refused with " \o ev.o.e)
  ELSE IF ev.o.ok THEN "bad:a registered type was registered again"
  ELSE IF ev.o.e # "ValueError" THEN "bad:registering twice raised " \o ev.o.e ELSE "ok:refused"
VSch(w, reg, ev) ==
  LET E == Under(w.E, reg) IN
  IF ev.force /\ Explicit(ev.T, E) THEN "skip:explicit schema overridden"
  ELSE LET doc == TLCEval(Wrote(ev.T, ev.force, reg, w.E, ev.O)) IN
       IF Conflict(Names(doc), reg) THEN (IF ev.o.ok THEN "bad:two types are served under one definition" ELSE "ok:refused for a conflict")
       ELSE IF ~ev.o.ok THEN "bad:schema generation failed with " \o ev.o.e
       ELSE LET x == Fold(Served(doc, reg, ev.O), ev.O)  y == Fold(ev.o.j, ev.O) IN
            IF SameSchema(x, y) THEN "ok:schema" ELSE Report(x, y)
VIdent(reg, ev) ==
  IF ~ev.o.ok THEN "bad:asking for an identifier failed with " \o ev.o.e
  ELSE IF ev.o.j = (IF ev.n \in DOMAIN reg THEN JStr(reg[ev.n].id) ELSE Null) THEN "ok:identifier" ELSE "bad:wrong identifier"

CatalogStep(w, reg, ev) ==
  CASE ev.op = "reg" -> [v |-> VReg(reg, ev), s |-> IF CanRegister(reg, ev.n) THEN WithRegistration(reg, ev.n, [id |-> ev.id, s |-> ev.s, x |-> ev.x]) ELSE reg]
    [] ev.op = "sch" -> [v |-> VSch(w, reg, ev), s |-> reg]
    [] ev.op = "ident" -> [v |-> VIdent(reg, ev), s |-> reg]
    [] ev.op = "spoil" -> [v |-> "ok:spoiled", s |-> reg]
=============================================================================
