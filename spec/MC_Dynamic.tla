----------------------------- MODULE MC_Dynamic -------------------------------
(* Enumerations extended again and again, modules created and removed, and    *)
(* the order of annotation values.                                            *)
EXTENDS Dynamic, Json, IOUtils, CSV

Deep == "DEEP" \in DOMAIN IOEnv
I(n) == [k |-> "int", v |-> n]
S_(s) == [k |-> "str", v |-> s]
Bo(b) == [k |-> "bool", v |-> b]
SomeVals == {I("0"), I("1"), Bo("True"), S_("a"), [k |-> "float", v |-> "1.0"]}
Mem(n, v) == [n |-> n, v |-> v]
Sound(X) == ~Clash(X, <<>>)
Enums == {<<Mem(n, v)>> : n \in {"A", "B"}, v \in SomeVals} \cup {<<Mem("A", v), Mem("B", u)>> : v, u \in SomeVals}
Goods == {X \in Enums : Sound(X)}
Choice_ == {I("0"), I("1"), I("-1"), I("10"), Bo("False"), Bo("True"), S_(""), S_("a"), S_("B"), S_("ab")}
Tuples == {<<x, y>> : x, y \in Choice_}
Names == {"p", "p.q", "r"}

VARIABLES what, cur, chain, used, log
vars == <<what, cur, chain, used, log>>
Init == \/ what = "enum" /\ cur \in Goods /\ chain = <<cur>> /\ used = {} /\ log = <<>>
        \/ what = "mod" /\ cur = <<>> /\ chain = <<>> /\ used = {} /\ log = <<>>
        \/ what = "order" /\ cur \in Tuples /\ chain = <<>> /\ used = {} /\ log = <<>>
Extend(X) == what = "enum" /\ Len(chain) < (IF Deep THEN 4 ELSE 3) /\ chain' = Append(chain, X)
             /\ cur' = (IF Clash(cur, X) THEN cur ELSE TLCEval(Extended(cur, X))) /\ UNCHANGED <<what, used, log>>
Make(n) == what = "mod" /\ Len(log) < 5 /\ used' = CreateIn(used, n).used /\ log' = Append(log, [op |-> "make", n |-> n]) /\ UNCHANGED <<what, cur, chain>>
Drop_(n) == what = "mod" /\ Len(log) < 5 /\ n \in used /\ used' = Remove(used, n) /\ log' = Append(log, [op |-> "drop", n |-> n]) /\ UNCHANGED <<what, cur, chain>>
Small == {X \in Goods : Len(X) = 1} \cup {<<Mem("C", S_("c")), Mem("B", I("2"))>>}
Next == (\E X \in Small : Extend(X)) \/ (\E n \in Names : Make(n) \/ Drop_(n))
Spec == Init /\ [][Next]_vars

\* an extended enumeration begins with the one that it extends, and is one
Prefix == what = "enum" => Sound(cur) /\ Len(cur) >= Len(chain[1]) /\ SubSeq(cur, 1, Len(chain[1])) = chain[1]
Fresh == what = "mod" => \A n \in Names : CreateIn(used, n).ok <=> n \notin used
\* the order is total where there is one
Total == what = "order" => \A y \in Tuples : LET r == SeqCmp(cur, y) IN r # 2 => (r = -SeqCmp(y, cur) /\ ((r = 0) <=> SeqEq(cur, y)))
Transitive == (what = "order" /\ Deep) => \A y, z \in Tuples : (SeqCmp(cur, y) = -1 /\ SeqCmp(y, z) = -1 /\ SeqCmp(cur, z) # 2) => SeqCmp(cur, z) = -1

Row == CASE what = "enum" -> [what |-> what, chain |-> chain] [] what = "mod" -> [what |-> what, log |-> log] [] OTHER -> [what |-> what, a |-> cur]
Dump == ("CASES" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(Row)>>, IOEnv.CASES)
===============================================================================
