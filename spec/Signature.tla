------------------------------- MODULE Signature ------------------------------
(* Docstrings against what they document (C18).                               *)
(* A subject: kind "dc" with own and inherited members, "fn" with parameters  *)
(* and return annotation, or "cls"; o: own members or parameters [n, t, pk],  *)
(* b: inherited members; ret: type of the return value, "" if not given.      *)
(* Its documentation d: names of parameters, whether the return value is      *)
(* documented, names of exceptions.  X: exceptions that the defining module   *)
(* sees [n, m] with the module that declares them; B: built-in ones.          *)
EXTENDS Docstring

NamesIn(s) == {s[i].n : i \in 1..Len(s)}
At(s, n) == s[CHOOSE i \in 1..Len(s) : s[i].n = n]
ParamOk(s, n) == s.kind = "cls" \/ n \in NamesIn(s.o)
Visible(X, B, n) == n \in NamesIn(X) \/ n \in NamesIn(B)
Exception(X, B, n) == IF n \in NamesIn(X) THEN At(X, n) ELSE At(B, n)
Misfit(s, D) == (\E i \in 1..Len(D.params) : ~ParamOk(s, D.params[i].n)) \/ (s.kind = "fn" /\ D.returns # <<>> /\ s.ret = "")
Unknown(D, X, B) == \E i \in 1..Len(D.raises) : ~Visible(X, B, D.raises[i].n)
\* what strict checking wants documented
IsSelf(p) == p.n = "self" /\ p.pk \in {"pos", "only"}
Wanted(s) == CASE s.kind = "dc" -> NamesIn(s.o) \ NamesIn(s.b) [] s.kind = "fn" -> {s.o[i].n : i \in {i \in 1..Len(s.o) : ~IsSelf(s.o[i])}} [] OTHER -> {}
Silent(s, D) == Wanted(s) \ {D.params[i].n : i \in 1..Len(D.params)} # {} \/ (s.kind = "fn" /\ s.ret # "" /\ D.returns = <<>>)
\* left open: members declared anew, functions that return nothing
Lax(s, D) == (s.kind = "dc" /\ \E n \in NamesIn(s.o) \cap NamesIn(s.b) : \A i \in 1..Len(D.params) : D.params[i].n # n) \/ (s.kind = "fn" /\ s.ret = "None" /\ D.returns = <<>>)
===============================================================================
