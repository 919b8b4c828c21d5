---------------------------- MODULE MC_Docstring ------------------------------
(* Docstrings are read line by line, each line going to one part.             *)
EXTENDS Docstring, TLC, Json, IOUtils, CSV

Deep == "DEEP" \in DOMAIN IOEnv
Most == IF Deep THEN 5 ELSE 4
Lines == {"Ab c", "  de:", "", ":param x: fg", ":param y:", ":param x:  hi  j", ":returns: kl", ":raises E: mn", ":see: op:q", ":odd", "   :rs"}
  \cup (IF Deep THEN {":param s t: u", ":seealso:v", ":raise F:"} ELSE {})

VARIABLES text, mode, short, long, es     \* es: entries so far, as [kw, name, d] or raw
vars == <<text, mode, short, long, es>>
Init == text = <<>> /\ mode = "start" /\ short = <<>> /\ long = <<>> /\ es = <<>>
\* the reader
Read(s) ==
  /\ Len(text) < Most /\ text' = Append(text, s)
  /\ IF IsEntry(s) THEN mode' = "entry" /\ es' = Append(es, <<s>>) /\ UNCHANGED <<short, long>>
     ELSE IF mode = "entry" THEN es' = TLCEval([es EXCEPT ![Len(es)] = Append(@, s)]) /\ UNCHANGED <<mode, short, long>>
     ELSE IF mode = "long" THEN long' = Append(long, s) /\ UNCHANGED <<mode, short, es>>
     ELSE IF s = "" THEN mode' = (IF mode = "start" THEN "start" ELSE "long") /\ UNCHANGED <<short, long, es>>
     ELSE mode' = "short" /\ short' = Append(short, s) /\ UNCHANGED <<long, es>>
Next == \E s \in Lines : Read(s)
Spec == Init /\ [][Next]_vars

D == Parse(text)
Plain == Clean(text) = text
Parts == [short |-> Trim(JoinWith(short, " ")), long |-> TrimEnds(long), es |-> [i \in 1..Len(es) |-> EntryOf(es[i])]]
\* reading line by line gives the same parts
Online == Plain => LET d == D IN
  /\ d.short = Parts.short /\ d.long = Parts.long
  /\ d.params = Named(Parts.es, "param") /\ d.raises = Named(Parts.es, "raises")
\* what is printed is read back
RoundTrip == ~Colon(D) => Parse(Printed(D)) = D
\* indentation of the whole does not matter
Shifted(L, n) == [i \in 1..Len(L) |-> IF i = 1 \/ L[i] = "" THEN L[i] ELSE Rep(" ", n) \o L[i]]
Indifferent == Plain => (Parse(Shifted(text, 4)) = D /\ Parse(<<"">> \o Shifted(<<"">> \o text, 2) \o <<"    ">>) = D)
\* no text of one part in another: each word of the input is in one part
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Words(Head(ss)) \o Flat(Tail(ss))
Range(s) == {s[i] : i \in 1..Len(s)}
Apart == LET d == D  sw == Range(Words(d.short)) \cup Range(Flat(d.long)) IN
  \A w \in {"fg", "hi", "kl", "mn", "op:q"} : w \notin sw
KeptOnce == LET d == D IN Len(Words(d.short)) + Len(Flat(d.long)) = Len(Flat(Prose(Clean(text))))

Shift == IF Len(text) % 2 = 0 THEN text ELSE Shifted(text, 4)
Dump == ("CASES" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(Shift)>>, IOEnv.CASES)
===============================================================================
