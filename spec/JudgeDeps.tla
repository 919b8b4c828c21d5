------------------------------ MODULE JudgeDeps ------------------------------
(* Topological sorting (C15) and type dependencies (C16).                    *)
EXTENDS Deps, JudgeLoop

(* C15: ev.g is a sequence of adjacency lists, ev.o.v the listed nodes,      *)
(* ev.after the graph after the call.                                        *)
AsGraph(g) == TLCEval([n \in 1..Len(g) |-> Range(g[n])])
VSorted(w, ev) ==
  LET G == AsGraph(ev.g)
      bad(s) == "bad:" \o s
  IN IF ~ev.same THEN bad("the graph was modified")
     ELSE IF Cyclic(G) THEN (IF ev.o.ok THEN bad("a cycle was not reported") ELSE IF ev.o.e # "RuntimeError" THEN bad("a cycle was reported as " \o ev.o.e) ELSE "ok:cycle")
     ELSE IF ~ev.o.ok THEN bad("sorting a graph without cycle failed with " \o ev.o.e)
     ELSE IF Cardinality(Range(ev.o.v)) # Len(ev.o.v) THEN bad("a node is listed twice")
     ELSE IF Range(ev.o.v) # DOMAIN G THEN bad("nodes are missing or were added")
     ELSE IF ~IsRun(G, ev.o.v) THEN bad("a node is listed before one that it points to")
     ELSE "ok:sorted"

VRefs(w, ev) ==
  LET R == References(ev.T, w.E) IN
  IF ~ev.o.ok THEN "bad:collecting references failed with " \o ev.o.e
  ELSE IF Range(ev.o.v) = R THEN "ok:references"
  ELSE IF R \ Range(ev.o.v) # {} THEN "bad:not collected: " \o ToString(R \ Range(ev.o.v))
  ELSE "bad:collected without being referred to: " \o ToString(Range(ev.o.v) \ R)

VTypes(w, ev) ==
  LET G == Graph(ev.types, w.E, ev.extra)
      bad(s) == "bad:" \o s
  IN IF Cyclic(G) THEN (IF ev.o.ok THEN bad("mutually dependent types were not reported") ELSE IF ev.o.e # "RuntimeError" THEN bad("mutually dependent types were reported as " \o ev.o.e) ELSE "ok:cycle")
     ELSE IF ~ev.o.ok THEN bad("sorting types failed with " \o ev.o.e)
     ELSE IF Cardinality(Range(ev.o.v)) # Len(ev.o.v) THEN bad("a type is listed twice")
     ELSE IF Range(ev.o.v) # DOMAIN G THEN bad("types are missing or were added: " \o ToString((Range(ev.o.v) \ DOMAIN G) \union (DOMAIN G \ Range(ev.o.v))))
     ELSE IF ~IsRun(G, ev.o.v) THEN bad("a type is listed before one that it refers to")
     ELSE "ok:types sorted"
VDeps(w, ev) == IF ev.op = "refs" THEN VRefs(w, ev) ELSE VTypes(w, ev)
=============================================================================
