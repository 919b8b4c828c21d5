---------------------------- MODULE MC_Signature ------------------------------
(* A checker that goes through the documented names one at a time, then       *)
(* through the members, against the relation.                                 *)
EXTENDS Signature, TLC, Json, IOUtils, CSV

M(n, t) == [n |-> n, t |-> t, pk |-> "pos"]
Seqs(ns, t) == LET pick(n) == IF n \in ns THEN <<M(n, t[n])>> ELSE <<>> IN pick("a") \o pick("b") \o pick("c")
Own == [a |-> "int", b |-> "str", c |-> "ints"]
Inherited == [a |-> "str", b |-> "opt", c |-> "any"]
Entries0(ns) == LET pick(n) == IF n \in ns THEN <<[n |-> n, d |-> "about " \o n]>> ELSE <<>> IN pick("a") \o pick("b") \o pick("c") \o pick("z")
Raised(ns) == LET pick(n) == IF n \in ns THEN <<[n |-> n, d |-> "if"]>> ELSE <<>> IN pick("ValueError") \o pick("Mine") \o pick("Nope")
Docs == {[short |-> "Text.", long |-> <<>>, params |-> Entries0(ps), returns |-> r, raises |-> Raised(xs), see |-> <<>>] :
         ps \in SUBSET {"a", "b", "c", "z"}, r \in {<<>>, <<"it">>}, xs \in {{}, {"ValueError"}, {"Mine"}, {"Nope"}, {"Mine", "Nope"}}}
Subjects == {[kind |-> "dc", o |-> Seqs(x, Own), b |-> Seqs(y, Inherited), ret |-> ""] : x \in SUBSET {"a", "b"}, y \in SUBSET {"a", "c"}}
  \cup {[kind |-> "fn", o |-> Seqs(x, Own), b |-> <<>>, ret |-> r] : x \in SUBSET {"a", "b", "c"}, r \in {"", "int", "None"}}
X == <<[n |-> "Mine", m |-> "here"]>>
B == <<[n |-> "ValueError", m |-> "builtins"]>>

VARIABLES s, d, strict, at, err
vars == <<s, d, strict, at, err>>
Init == s \in Subjects /\ d \in Docs /\ strict \in BOOLEAN /\ at = [step |-> "params", i |-> 1] /\ err = FALSE
Go(step) == at' = [step |-> step, i |-> 1]
CheckParam == at.step = "params" /\ IF at.i > Len(d.params) THEN Go("returns") /\ UNCHANGED err
                                    ELSE err' = (err \/ ~ParamOk(s, d.params[at.i].n)) /\ at' = [at EXCEPT !.i = @ + 1]
CheckReturns == at.step = "returns" /\ err' = (err \/ (s.kind = "fn" /\ d.returns # <<>> /\ s.ret = "")) /\ Go(IF strict THEN "members" ELSE "end")
CheckMember == at.step = "members" /\ IF at.i > Len(s.o) THEN Go("end") /\ err' = (err \/ (s.kind = "fn" /\ s.ret # "" /\ d.returns = <<>>))
                                      ELSE err' = (err \/ (s.o[at.i].n \notin NamesIn(d.params) /\ (s.kind = "dc" => s.o[at.i].n \notin NamesIn(s.b)))) /\ at' = [at EXCEPT !.i = @ + 1]
Next == (CheckParam \/ CheckReturns \/ CheckMember) /\ UNCHANGED <<s, d, strict>>
Spec == Init /\ [][Next]_vars
AsSaid == at.step = "end" => (err <=> (Misfit(s, d) \/ (strict /\ Silent(s, d))))
Dump == (at = [step |-> "params", i |-> 1] /\ strict /\ "CASES" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson([s |-> s, d |-> d])>>, IOEnv.CASES)
===============================================================================
