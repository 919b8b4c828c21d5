------------------------------ MODULE JudgeHeap -------------------------------
(* One event is a history: log of steps                                       *)
(*   [op, f, o, r, ok, key, d, m, p]: op "new", "call" or "spoil"; f: what    *)
(*   was called; o: the owner it was called with; r: owner of the result or   *)
(*   "" ; ok: whether it returned; key: the call (what was called with what   *)
(*   value); d: value of every owner [o, d] afterwards; m: what can be        *)
(*   changed in the result (or in what the caller changed), as often as it is *)
(*   reached; p: whether what is read must be apart within itself.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, JudgeLoop

ValueOf(d, o) == LET i == CHOOSE i \in 1..Len(d) : d[i].o = o IN d[i].d
SetOf(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Fold(_, _, _, _)
\* d: values; mut: [o, m] what of each owner can be changed; memo: [key, ok, v]
Fold(log, d, mut, memo) ==
  IF log = <<>> THEN "ok"
  ELSE LET x == Head(log)
           spoiled == IF x.op = "spoil" THEN x.o ELSE "none"
           changed == {i \in 1..Len(d) : d[i].o # spoiled /\ ValueOf(x.d, d[i].o) # d[i].d}
           owner == IF x.op = "spoil" THEN x.o ELSE x.r
           common == {i \in 1..Len(mut) : mut[i].o # owner /\ mut[i].m \cap SetOf(x.m) # {}}
           v == IF x.ok /\ x.r # "" THEN ValueOf(x.d, x.r) ELSE ""
           again == {i \in 1..Len(memo) : memo[i].key = x.key}
           other == SelectSeq(mut, LAMBDA y : y.o # owner)
       IN
       IF changed # {} THEN "bad:" \o x.f \o " changed " \o d[CHOOSE i \in changed : TRUE].o
       ELSE IF owner # "" /\ common # {} THEN "bad:what " \o x.f \o " returned shares with " \o mut[CHOOSE i \in common : TRUE].o
       ELSE IF x.p /\ Cardinality(SetOf(x.m)) # Len(x.m) THEN "bad:what " \o x.f \o " returned shares within itself"
       ELSE IF x.op = "call" /\ \E i \in again : memo[i].ok # x.ok \/ memo[i].v # v THEN "bad:" \o x.f \o " returned something else than before"
       ELSE Fold(Tail(log), x.d, IF owner = "" THEN mut ELSE Append(other, [o |-> owner, m |-> SetOf(x.m)]),
                 IF x.op = "call" THEN Append(memo, [key |-> x.key, ok |-> x.ok, v |-> v]) ELSE memo)

VHeap(w, ev) == Fold(ev.log, <<>>, <<>>, <<>>)
===============================================================================
