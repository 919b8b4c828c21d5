------------------------------- MODULE MC_Heap --------------------------------
(* Histories of conversions and changes by the caller.  want[o] is the value  *)
(* that owner o would have if values were never in the same memory.           *)
EXTENDS Heap, Json, IOUtils, CSV

Deep == "DEEP" \in DOMAIN IOEnv
Cell(m, v, c) == [m |-> m, v |-> v, c |-> c]
\* a value: list(tuple(leaf, list()), tuple(leaf, leaf)); a document of like form
Forms == {"val", "doc"}
Steps == IF Deep THEN 6 ELSE 5

VARIABLES H, root, kind, want, log
vars == <<H, root, kind, want, log>>
Owners == DOMAIN root
N == Len(root)

Init == H = <<>> /\ root = <<>> /\ kind = <<>> /\ want = <<>> /\ log = <<>>
Tail_(s) == s[Len(s)]
Note(x) == log' = Append(log, x)
New(k) == LET n == Len(H)
              cells == <<Cell(FALSE, "1", <<>>), Cell(TRUE, "[", <<>>), Cell(k = "doc", "(", <<n + 1, n + 2>>), Cell(FALSE, "(", <<n + 1, n + 1>>), Cell(TRUE, "[", <<n + 3, n + 4>>)>>
          IN H' = H \o cells /\ root' = Append(root, n + 5) /\ kind' = Append(kind, k)
             /\ want' = Append(want, Unfold(H', n + 5)) /\ Note([op |-> "new", k |-> k, o |-> 0])
Convert(o, k, share) ==
  LET x == Copied(H, root[o], share) IN
  H' = x.h /\ root' = Append(root, x.a) /\ kind' = Append(kind, k) /\ want' = Append(want, want[o]) /\ Note([op |-> "call", k |-> k, o |-> o])
\* a result that depends on the type only (a schema, an object of defaults)
Make(k, share) ==
  LET a == Len(H) + 1 IN
  H' = H \o <<Cell(TRUE, "{", <<>>), Cell(TRUE, "{", <<a>>)>> /\ root' = Append(root, a + 1) /\ kind' = Append(kind, k)
  /\ want' = Append(want, Unfold(H', a + 1)) /\ Note([op |-> "call", k |-> k, o |-> 0])
\* a call without a result
Look(o) == UNCHANGED <<H, root, kind, want>> /\ Note([op |-> "look", k |-> kind[o], o |-> o])
RECURSIVE AddAt(_, _, _, _)
\* the tree t of the cell at a with z appended at every place of cell b
AddAt(h, a, b, z) == LET c == [i \in 1..Len(h[a].c) |-> AddAt(h, h[a].c[i], b, z)] IN [v |-> h[a].v, c |-> IF a = b THEN Append(c, z) ELSE c]
Spoil(o, b) == /\ Len(H) < 60
               /\ H' = Append(Change(H, b, Len(H) + 1), Cell(FALSE, "!", <<>>))
               /\ want' = [want EXCEPT ![o] = AddAt(H, root[o], b, [v |-> "!", c |-> <<>>])]
               /\ UNCHANGED <<root, kind>> /\ Note([op |-> "spoil", k |-> kind[o], o |-> o])
Next == /\ Len(log) < Steps
        /\ \/ N < 4 /\ \E k \in Forms : New(k)
           \/ N < 4 /\ \E o \in Owners : \E share \in BOOLEAN :
                         Convert(o, CASE kind[o] = "val" -> "doc" [] kind[o] = "doc" -> "val" [] OTHER -> "sch", share)
           \/ N < 4 /\ \E k \in {"sch", "val"} : Make(k, FALSE)
           \/ \E o \in Owners : Look(o)
           \/ \E o \in Owners : \E b \in Changeable(H, root[o]) : Spoil(o, b)
Spec == Init /\ [][Next]_vars

\* nobody can tell that values are in memory
Alone == \A o \in Owners : Unfold(H, root[o]) = want[o]
\* because no cell that can change is reached from two roots
Separate == \A o, p \in Owners : o # p => Changeable(H, root[o]) \cap Changeable(H, root[p]) = {}
OneEach == \A o \in Owners : Distinct(Places(H, root[o]))
\* and that is needed: were cell b reached from another root, a change to it would be seen there
Needed == \A o \in Owners : \A b \in Changeable(H, root[o]) :
            LET h == H \o <<Cell(FALSE, "!", <<>>), Cell(FALSE, "(", <<b>>)>> IN Unfold(Change(h, b, Len(H) + 1), Len(h)) # Unfold(h, Len(h))
Row == log
Dump == ("CASES" \in DOMAIN IOEnv) => (Len(log) < Steps \/ CSVWrite("%1$s", <<ToJson(Row)>>, IOEnv.CASES))
===============================================================================
