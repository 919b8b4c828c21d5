----------------------------- MODULE JudgeThreads -----------------------------
(* Calls made in several threads (C12): each outcome that was seen under a    *)
(* schedule, or afterwards, is one that the call has on its own.              *)
EXTENDS JudgeCodec, JudgeSchema

RECURSIVE Mentioned(_)
Mentioned(T) == (IF T.k \in {"cls", "enum", "ref"} THEN {T.n} ELSE {}) \cup (IF Has(T, "a") THEN UNION {Mentioned(T.a[i]) : i \in 1..Len(T.a)} ELSE {})
RECURSIVE AllNames(_, _, _)
AllNames(todo, done, E) ==
  LET new == todo \ done IN
  IF new = {} THEN done
  ELSE AllNames(UNION {IF Has(E.cls, n) THEN UNION {Mentioned(E.cls[n].f[i].t) : i \in 1..Len(E.cls[n].f)} ELSE IF Has(E.als, n) THEN Mentioned(E.als[n]) ELSE {} : n \in new},
                done \cup new, E)
Lost(T, E) == \E n \in AllNames(Mentioned(T), {}, E) : ~(Has(E.cls, n) \/ Has(E.enm, n) \/ Has(E.als, n))

VCall(w, c, r) ==
  IF c.op # "wr" /\ Lost(c.T, w.E) THEN (IF r.ok THEN "skip:not all names were needed" ELSE "ok:not available")
  ELSE CASE c.op = "de" -> VRead(w, [T |-> c.T, J |-> c.J, skip |-> c.skip, d |-> r])
         [] c.op = "sg" -> VGenerated(w, [T |-> c.T, O |-> c.O, force |-> FALSE, s |-> r])
         [] c.op = "wr" -> IF Lost(c.T, w.E) THEN "skip:not all names are available"
                           ELSE IF ~Conforms(c.V, c.T, w.E) THEN "skip:value does not conform"
                           ELSE IF Unwritable(c.V, w.E) THEN (IF r.ok THEN "bad:wrote a value that has no JSON form" ELSE "ok:refused")
                           ELSE IF ~r.ok THEN "bad:serialization failed with " \o r.e
                           ELSE IF SerMatch(c.V, r.j, w.E) THEN "ok:written" ELSE "bad:written in another way"
VParallel(w, ev) ==
  LET vs == TLCEval(UNION {{<<VCall(w, ev.calls[i], ev.calls[i].o[k].r), ToString(ev.calls[i].o[k].plan)>> : k \in 1..Len(ev.calls[i].o)} : i \in 1..Len(ev.calls)})
      bad == {x \in vs : StartsWith(x[1], "bad")} IN
  IF ev.stuck # <<>> THEN "bad:calls did not end under " \o ToString(ev.stuck[1])
  ELSE IF bad # {} THEN LET x == CHOOSE x \in bad : TRUE IN x[1] \o " under " \o x[2]
  ELSE IF \E x \in vs : StartsWith(x[1], "ok") THEN "ok" ELSE "skip:nothing is determined"
===============================================================================
