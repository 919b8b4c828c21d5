------------------------------- MODULE Threads -------------------------------
(* Converters of types that refer to each other, constructed in several      *)
(* threads at the same time.                                                  *)
(*                                                                            *)
(* graph[t]: the types that t refers to; fails: types that cannot be          *)
(* constructed.  A converter of t is made by a thread, and is given one       *)
(* converter for each type that t refers to.  Shared: who may find a          *)
(* converter while it is still being constructed: no other thread ("own"), or *)
(* every thread ("all"), which is unsound.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

RECURSIVE Closure(_, _, _)
Closure(graph, todo, done) ==
  LET new == todo \ done IN IF new = {} THEN done ELSE Closure(graph, UNION {{graph[t][i] : i \in 1..Len(graph[t])} : t \in new}, done \cup new)

(* What a call that needs the type t gives when it is the only one *)
Alone(graph, fails, t) == IF Closure(graph, {t}, {}) \cap fails # {} THEN "refused" ELSE "complete"

(* A state of the construction: conv[<<th, t>>] the children given so far to  *)
(* the converter of t that the thread th makes; cache[t] the published        *)
(* converter; pend[th][t] those under construction; stack[th] the types whose *)
(* construction th is in; got[th] the converter that the call uses.           *)
Start(goal) ==
  [conv |-> <<>>, cache |-> <<>>, pend |-> [th \in DOMAIN goal |-> <<>>], stack |-> [th \in DOMAIN goal |-> <<>>],
   got |-> [th \in DOMAIN goal |-> <<>>], end |-> [th \in DOMAIN goal |-> ""]]

Finds(s, th, t, shared) ==         \* converters of t that th may find
  (IF t \in DOMAIN s.cache THEN {s.cache[t]} ELSE {})
  \cup (IF shared = "own" THEN (IF t \in DOMAIN s.pend[th] THEN {s.pend[th][t]} ELSE {})
        ELSE UNION {IF t \in DOMAIN s.pend[o] THEN {s.pend[o][t]} ELSE {} : o \in DOMAIN s.pend})

\* th begins to construct a converter of t
Push(s, th, t) ==
  LET c == <<th, t>> IN
  [s EXCEPT !.conv = (c :> <<>>) @@ @, !.pend[th] = (t :> c) @@ @, !.stack[th] = Append(@, t)]
Abort(s, th) == [s EXCEPT !.pend[th] = <<>>, !.stack[th] = <<>>, !.end[th] = "refused"]
Top(s, th) == s.stack[th][Len(s.stack[th])]

RECURSIVE Whole(_, _, _, _)
Whole(s, graph, todo, done) ==     \* every converter that can be reached has all of its children
  LET new == todo \ done IN
  IF new = {} THEN TRUE
  ELSE /\ \A c \in new : Len(s.conv[c]) = Len(graph[c[2]])
       /\ Whole(s, graph, UNION {{s.conv[c][i] : i \in 1..Len(s.conv[c])} : c \in new}, done \cup new)

\* one step of the thread th, whose call needs goal[th]
Step(s, th, goal, graph, fails, shared) ==
  IF s.got[th] # <<>> THEN        \* use it
    [s EXCEPT !.end[th] = IF Whole(s, graph, {s.got[th]}, {}) THEN "complete" ELSE "incomplete"]
  ELSE IF s.stack[th] = <<>> THEN
    IF Finds(s, th, goal[th], shared) # {} THEN [s EXCEPT !.got[th] = CHOOSE c \in Finds(s, th, goal[th], shared) : TRUE]
    ELSE Push(s, th, goal[th])
  ELSE LET t == Top(s, th)  c == <<th, t>>  i == Len(s.conv[c]) + 1 IN
    IF t \in fails THEN Abort(s, th)
    ELSE IF i > Len(graph[t]) THEN
      IF Len(s.stack[th]) > 1 THEN
        LET up == <<th, s.stack[th][Len(s.stack[th]) - 1]>> IN [s EXCEPT !.stack[th] = SubSeq(@, 1, Len(@) - 1), !.conv[up] = Append(@, c)]
      ELSE [s EXCEPT !.stack[th] = <<>>, !.cache = @ @@ s.pend[th], !.pend[th] = <<>>, !.got[th] = c]    \* publish all at once
    ELSE LET d == graph[t][i]  found == Finds(s, th, d, shared) IN
      IF found # {} THEN [s EXCEPT !.conv[c] = Append(@, CHOOSE x \in found : TRUE)] ELSE Push(s, th, d)
=============================================================================
