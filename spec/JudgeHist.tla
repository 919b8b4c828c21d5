------------------------------ MODULE JudgeHist ------------------------------
(* Consumes recorded histories.  Each event of a history is one step of the  *)
(* specification: StepOp gives the verdict v on the event and the state s    *)
(* that follows it; InitOp gives the state a history starts in.  Verdicts    *)
(* are as in JudgeLoop, and so is acceptance.                                *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CSV

CONSTANTS InitOp(_), StepOp(_, _, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr_w, tr_e, tr_state, tr_out
vars == <<tr_w, tr_e, tr_state, tr_out>>

Start(w) == IF w <= Len(Trace) THEN TLCEval(InitOp(Trace[w])) ELSE <<>>
Init == tr_w = 1 /\ tr_e = 0 /\ tr_out = <<>> /\ tr_state = Start(1)

Event ==
  /\ tr_w <= Len(Trace) /\ tr_e < Len(Trace[tr_w].ev)
  /\ tr_e' = tr_e + 1 /\ tr_w' = tr_w
  /\ LET r == TLCEval(StepOp(Trace[tr_w], tr_state, Trace[tr_w].ev[tr_e + 1])) IN
     tr_state' = r.s /\ tr_out' = Append(tr_out, r.v)
End ==
  /\ tr_w <= Len(Trace) /\ tr_e = Len(Trace[tr_w].ev)
  /\ CSVWrite("%1$s", <<ToJson(tr_out)>>, IOEnv.OUT)
  /\ tr_w' = tr_w + 1 /\ tr_e' = 0 /\ tr_out' = <<>> /\ tr_state' = Start(tr_w + 1)
Next == Event \/ End
Spec == Init /\ [][Next]_vars

RECURSIVE Steps(_)
Steps(i) == IF i = 0 THEN 0 ELSE Steps(i - 1) + Len(Trace[i].ev) + 1
\* every recorded step was consumed
TraceConsumed == TLCGet("stats").diameter = Steps(Len(Trace)) + 1
=============================================================================
