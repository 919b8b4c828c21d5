------------------------------ MODULE MC_Threads ------------------------------
(* All interleavings of first uses of types that refer to each other.         *)
EXTENDS Threads, Json, IOUtils, CSV

Deep == "DEEP" \in DOMAIN IOEnv
CONSTANTS Shared, Record
\* A pair of types that refer to each other, a type that refers to itself, and one that cannot be constructed
Graphs == [pair |-> <<<<2>>, <<1>>>>, own |-> <<<<1, 2>>, <<>>>>, fork |-> <<<<2, 3>>, <<3>>, <<1>>>>, lost |-> <<<<2, 3>>, <<1>>, <<>>>>]
Fails == [pair |-> {}, own |-> {}, fork |-> {}, lost |-> {3}]
Goals == [pair |-> {<<1, 2>>, <<1, 1>>} \cup (IF Deep THEN {<<1, 2, 1>>} ELSE {}), own |-> {<<1, 1>>, <<1, 2>>, <<1, 2, 2>>},
          fork |-> {<<1, 2>>, <<1, 3>>, <<2, 2>>}, lost |-> {<<1, 2>>, <<2, 2>>, <<2, 3>>}]

VARIABLES g, goal, s, turns
vars == <<g, goal, s, turns>>
Init == /\ g \in DOMAIN Graphs /\ goal \in Goals[g] /\ s = Start(goal) /\ turns = <<>>
Go(th) == /\ s.end[th] = "" /\ s' = TLCEval(Step(s, th, goal, Graphs[g], Fails[g], Shared))
          /\ turns' = (IF Record THEN Append(turns, th - 1) ELSE turns) /\ UNCHANGED <<g, goal>>
Over == \A th \in DOMAIN goal : s.end[th] # ""
Next == (\E th \in DOMAIN goal : Go(th)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A th \in 1..3 : WF_vars(th \in DOMAIN goal /\ Go(th))

\* each call gives what it gives alone
AsAlone == \A th \in DOMAIN goal : s.end[th] # "" => s.end[th] = Alone(Graphs[g], Fails[g], goal[th])
\* what is published is complete, and stays so
Published == Whole(s, Graphs[g], {s.cache[t] : t \in DOMAIN s.cache}, {})
Cached == \A t \in DOMAIN s.cache : Alone(Graphs[g], Fails[g], t) = "complete"
\* nothing is left behind
Tidy == \A th \in DOMAIN goal : s.end[th] # "" => s.pend[th] = <<>> /\ s.stack[th] = <<>>
Ends == <>Over
Dump == (Over /\ Record /\ "CASES" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson([g |-> g, goal |-> goal, turns |-> turns])>>, IOEnv.CASES)
=============================================================================
