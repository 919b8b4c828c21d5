---------------------------- MODULE JudgeHistory ----------------------------
(* Histories of declarations and deserializations (C11).                     *)
EXTENDS History, JudgeHist

HistoryInit(w) == Start0({w.mods[i] : i \in 1..Len(w.mods)})
HistoryStep(w, s, ev) == HStep(w.D, s, ev)
=============================================================================
