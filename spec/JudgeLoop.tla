------------------------------ MODULE JudgeLoop ------------------------------
(* Consumes a recorded trace one step at a time.  A step is one world: an    *)
(* environment of declared types together with the events that the real code *)
(* went through in it.  The verdict on each event is total: "ok..." when the *)
(* specification permits it, "bad..." with the clause it violates, "skip..." *)
(* when the specification does not decide the event.                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CSV

CONSTANT VerdictOp(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, verdicts

Init == l = 0 /\ verdicts = <<>>

Next ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ verdicts' = LET w == Trace[l + 1] IN TLCEval([i \in 1..Len(w.ev) |-> VerdictOp(w, w.ev[i])])
  /\ CSVWrite("%1$s", <<ToJson(verdicts')>>, IOEnv.OUT)

Spec == Init /\ [][Next]_<<l, verdicts>>

\* every recorded step was consumed
TraceConsumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
