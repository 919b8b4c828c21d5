--------------------------- MODULE JudgeSignature -----------------------------
(* op "sg": subject s with docstring of lines L; w.X, w.B: exceptions.        *)
(* R: [ok, e, params, ret, raises] from parse_type; C, S: outcomes [ok, e] of *)
(* checking the parsed text, plainly and strictly; H: [has, dflt]; given:     *)
(* whether a docstring was written.                                           *)
EXTENDS Signature, JudgeLoop

\* text within a postponed annotation may stay text
TypeMatches(w, want, got) == got = want \/ (want = "fwd" /\ got = "cls") \/ (want = "fwd" /\ w.late /\ got = "text")
\* a text annotation of a data class member may stay text
MemberMatches(w, s, want, got) == TypeMatches(w, want, got) \/ (s.kind = "dc" /\ (w.late \/ want = "fwd") /\ got = "text")
VSignature(w, ev) ==
  LET s == ev.s  D == TLCEval(IF ev.given THEN Parse(ev.L) ELSE Parse(<<>>)) IN
  IF ~ev.given /\ (ev.H.has \/ ev.H.text) THEN "bad:a docstring that nobody wrote"
  ELSE IF ~ev.given /\ ev.H.auto /\ ~ev.H.dflt THEN "bad:an automatic docstring was not recognized"
  ELSE IF ev.given /\ ev.L # <<"">> /\ (~ev.H.has \/ ev.H.dflt \/ ~ev.H.text) THEN "bad:a docstring was not recognized"
  ELSE IF ev.given /\ Unclear(ev.L) THEN "skip:header"
  ELSE IF Misfit(s, D) \/ Unknown(D, w.X, w.B) THEN
    (IF ev.R.ok THEN "bad:documentation of what does not exist was accepted" ELSE IF ev.R.e # "TypeError" THEN "bad:refused with " \o ev.R.e
     ELSE IF Misfit(s, D) = ev.C.ok THEN "bad:check_docstring disagrees" ELSE "ok:refused")
  ELSE IF ~ev.R.ok THEN "bad:refused with " \o ev.R.e
  ELSE IF ~ev.C.ok THEN "bad:check_docstring refused"
  ELSE IF Len(ev.R.params) # Len(D.params) \/ \E i \in 1..Len(D.params) : D.params[i].n # ev.R.params[i].n THEN "bad:parameters lost"
  ELSE IF s.kind # "cls" /\ \E i \in 1..Len(D.params) : ~MemberMatches(w, s, At(s.o, D.params[i].n).t, ev.R.params[i].t) THEN "bad:a parameter has not the type of the member"
  ELSE IF s.kind = "fn" /\ D.returns # <<>> /\ ~TypeMatches(w, s.ret, ev.R.ret) THEN "bad:the return value has not the type that is declared"
  ELSE IF Len(ev.R.raises) # Len(D.raises) \/ \E i \in 1..Len(D.raises) : D.raises[i].n # ev.R.raises[i].n THEN "bad:exceptions lost"
  ELSE IF \E i \in 1..Len(D.raises) : Exception(w.X, w.B, D.raises[i].n).m # ev.R.raises[i].m THEN "bad:not the exception that is visible"
  ELSE IF Lax(s, D) THEN "ok:not strict"
  ELSE IF Silent(s, D) THEN (IF ev.S.ok THEN "bad:strict checking accepted what is not documented" ELSE IF ev.S.e # "TypeError" THEN "bad:strict checking failed with " \o ev.S.e ELSE "ok:strictly refused")
  ELSE IF ev.S.ok THEN "ok" ELSE "bad:strict checking refused what is documented"
===============================================================================
