----------------------------- MODULE JudgeCodec -----------------------------
(* Verdicts on recorded serializations and deserializations.                 *)
(*   op "rt": value V of type T was serialized (s), its JSON put into text   *)
(*            (x, xf), deserialized from the object (d) and the text (d2)    *)
(*   op "de": document J was deserialized as T (d)                           *)
EXTENDS Model, JudgeLoop

-------------------------------------------------------------------------------
(* Compact JSON text *)
EscOf == ("\"" :> "\\\"") @@ ("\\" :> "\\\\") @@ ("\n" :> "\\n") @@ ("\t" :> "\\t") @@ ("\r" :> "\\r") @@ ("\f" :> "\\f")
Esc(c) == IF c \in DOMAIN EscOf THEN EscOf[c] ELSE c
Quote(s) == "\"" \o (IF CharSet(s) \cap DOMAIN EscOf = {} THEN s ELSE Cat([i \in 1..Len(s) |-> Esc(Ch(s, i))])) \o "\""
RECURSIVE JsonText(_)
JsonText(J) ==
  CASE J.k = "null" -> "null"
    [] J.k \in {"bool", "int", "float"} -> (IF J.v = "True" THEN "true" ELSE IF J.v = "False" THEN "false" ELSE J.v)
    [] J.k = "str" -> Quote(J.v)
    [] J.k = "arr" -> "[" \o JoinWith([i \in 1..Len(J.a) |-> JsonText(J.a[i])], ",") \o "]"
    [] J.k = "map" -> "{" \o JoinWith([i \in 1..Len(J.m) |-> Quote(J.m[i].n) \o ":" \o JsonText(J.m[i].j)], ",") \o "}"
    [] OTHER -> "?"

RECURSIVE JsonOnly(_)
JsonOnly(J) == CASE J.k = "arr" -> \A i \in 1..Len(J.a) : JsonOnly(J.a[i])
                 [] J.k = "map" -> \A i \in 1..Len(J.m) : JsonOnly(J.m[i].j)
                 [] OTHER -> J.k \in {"null", "bool", "int", "float", "str"}

-------------------------------------------------------------------------------
(* C01: serialize, then deserialize *)
VRoundTrip(w, ev) ==
  LET E == w.E  T == ev.T  V == ev.V IN
  IF ~Conforms(V, T, E) THEN "skip:value does not conform"
  ELSE IF Unwritable(V, E) THEN (IF ev.s.ok THEN "bad:wrote a value that has no JSON form" ELSE "ok:refused")
  ELSE IF ~ev.s.ok THEN "bad:serialization failed with " \o ev.s.e
  ELSE LET r == TLCEval(D(T, Ser(V, E), FALSE, E)) IN
    IF r.a # "yes" THEN "skip:not determined"
    ELSE IF ~VEq(r.v[1], V) THEN "skip:union or default overlaps"
    ELSE IF ~ev.d.ok THEN "bad:deserialization failed with " \o ev.d.e
    ELSE IF ~VEq(ev.d.v, V) THEN "bad:value differs after round-trip"
    ELSE IF ~ev.d2.ok THEN "bad:deserialization from JSON text failed with " \o ev.d2.e
    ELSE IF ~VEq(ev.d2.v, V) THEN "bad:value differs after round-trip through JSON text"
    ELSE "ok"

(* C02: the JSON representation *)
VWritten(w, ev) ==
  LET E == w.E IN
  IF ~Conforms(ev.V, ev.T, E) THEN "skip:value does not conform"
  ELSE IF Unwritable(ev.V, E) THEN
    (IF ev.s.ok THEN "bad:wrote a value that has no JSON form"
     ELSE IF ev.s.e # "V" THEN "bad:refused with " \o ev.s.e ELSE "ok:refused")
  ELSE IF ~ev.s.ok THEN "bad:serialization failed with " \o ev.s.e
  ELSE IF ~JsonOnly(ev.s.j) THEN "bad:result is not made of JSON types"
  ELSE IF ~SerMatch(ev.V, ev.s.j, E) THEN "bad:not the documented representation"
  ELSE IF ev.x # JsonText(ev.s.j) THEN "bad:text is not the compact form"
  ELSE IF ev.xf # ev.x \o "\n" THEN "bad:text written to file differs"
  ELSE IF ev.j2 # ev.s.j THEN "bad:text does not read back to the same JSON"
  ELSE "ok"

(* C03, C04, C05: which documents are accepted, and as what *)
VRead(w, ev) ==
  LET r == TLCEval(D(ev.T, ev.J, ev.skip, w.E)) IN
  IF Admits(r, ev.T, ev.d, w.E) THEN
    (IF r.a = "yes" THEN "ok:accepted" ELSE IF r.a = "no" THEN "ok:refused" ELSE "ok:free")
  ELSE IF ev.d.ok THEN
    (IF r.a = "no" THEN "bad:accepted a document that must be refused"
     ELSE IF r.a = "any" THEN "bad:accepted with a value that does not conform"
     ELSE "bad:accepted with another value")
  ELSE IF r.a = "yes" THEN "bad:refused a document that must be accepted, with " \o ev.d.e
  ELSE "bad:refused with an error of the wrong kind: " \o ev.d.e

(* C06: text forms of scalars.  op "wr": V written as s; then read back d.   *)
(* op "de": text J read as T.                                                *)
VText(w, ev) ==
  IF ev.op = "rt" THEN
    (IF ~HasText(ev.V) THEN (IF ev.s.ok THEN "bad:wrote a timestamp without UTC offset"
                             ELSE IF ev.s.e = "V" THEN "ok:refused" ELSE "bad:refused with " \o ev.s.e)
     ELSE IF ~ev.s.ok THEN "bad:could not be written, " \o ev.s.e
     ELSE IF ev.s.j # JStr(TextOf(ev.V)) THEN "bad:not the documented text form"
     ELSE IF ParseText(ev.V.k, TextOf(ev.V)).r # "ok" THEN "skip:reading is not determined"
     ELSE IF ~ev.d.ok THEN "bad:text written cannot be read, " \o ev.d.e
     ELSE IF ev.d.v # ev.V THEN "bad:text written reads as another value"
     ELSE "ok")
  ELSE VRead(w, ev)
=============================================================================
