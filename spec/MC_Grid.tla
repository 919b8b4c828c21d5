------------------------------- MODULE MC_Grid -------------------------------
(* Dumps the types, values and documents of the grid.                        *)
EXTENDS Grid
VARIABLE pc
Init == pc = "dumped"
Next == FALSE /\ UNCHANGED pc
Spec == Init /\ [][Next]_pc
ASSUME "CASES" \in DOMAIN IOEnv => /\ ndJsonSerialize(IOEnv.CASES, CasesV)
                                   /\ ndJsonSerialize(IOEnv.CASES \o ".2", Sequenced(Docs))
                                   /\ JsonSerialize(IOEnv.CASES \o ".3", <<Env>>)
=============================================================================
