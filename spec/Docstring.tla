------------------------------ MODULE Docstring -------------------------------
(* Docstrings (C17, C18).  A text is the sequence of its lines.               *)
EXTENDS Text, FiniteSets

Blank(s) == AllIn(s, {" "})
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF s # "" /\ Ch(s, 1) = " " THEN LTrim(Drop(s, 1)) ELSE s
RTrim(s) == IF s # "" /\ Ch(s, Len(s)) = " " THEN RTrim(Take(s, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))
RECURSIVE Words(_)
Words(s) == LET t == LTrim(s)  n == RunEnd(t, 1, {Ch(t, i) : i \in 1..Len(t)} \ {" "}) - 1 IN
            IF t = "" THEN <<>> ELSE <<Take(t, n)>> \o Words(Drop(t, n))
Squeezed(s) == JoinWith(Words(s), " ")

-------------------------------------------------------------------------------
(* Indentation: lines after the first lose what they share; blank lines at    *)
(* both ends are dropped                                                      *)
Indent(s) == Len(s) - Len(LTrim(s))
RECURSIVE Ahead(_), Behind(_)
Ahead(L) == IF L # <<>> /\ Head(L) = "" THEN Ahead(Tail(L)) ELSE L
Behind(L) == IF L # <<>> /\ L[Len(L)] = "" THEN Behind(SubSeq(L, 1, Len(L) - 1)) ELSE L
Clean(L) ==
  LET rest == {i \in 2..Len(L) : ~Blank(L[i])}
      margin == IF rest = {} THEN 0 ELSE LET i == CHOOSE i \in rest : \A j \in rest : Indent(L[i]) <= Indent(L[j]) IN Indent(L[i])
  IN TLCEval(Ahead(Behind([i \in 1..Len(L) |-> IF i = 1 THEN LTrim(L[1]) ELSE Drop(L[i], IF margin < Len(L[i]) THEN margin ELSE Len(L[i]))])))

IsEntry(s) == s # "" /\ Ch(s, 1) = ":"
\* lines before the first entry
RECURSIVE Prose(_), Entries(_)
Prose(L) == IF L = <<>> \/ IsEntry(Head(L)) THEN <<>> ELSE <<Head(L)>> \o Prose(Tail(L))
\* entries: each a line that starts with a colon and the lines that continue it
Entries(L) == IF L = <<>> THEN <<>>
              ELSE LET more == Prose(Tail(L)) IN <<<<Head(L)>> \o more>> \o Entries(SubSeq(L, 2 + Len(more), Len(L)))

\* the text of prose: the short description is one line, the long one keeps its lines
RECURSIVE Before(_), ToEnd(_)
Before(L) == IF L = <<>> \/ Head(L) = "" THEN <<>> ELSE <<Head(L)>> \o Before(Tail(L))
TrimEnds(L) ==    \* the text without whitespace at its ends
  LET M == TLCEval(ToEnd(L))  N == IF M = <<>> THEN <<>> ELSE <<LTrim(Head(M))>> \o Tail(M) IN
  IF N = <<>> THEN N ELSE SubSeq(N, 1, Len(N) - 1) \o <<RTrim(N[Len(N)])>>
ToEnd(L) == IF L # <<>> /\ Blank(Head(L)) THEN ToEnd(Tail(L))
            ELSE IF L # <<>> /\ Blank(L[Len(L)]) THEN ToEnd(SubSeq(L, 1, Len(L) - 1)) ELSE L
ShortOf(L) == Trim(JoinWith(Before(L), " "))
LongOf(L) == TrimEnds(SubSeq(L, Len(Before(L)) + 1, Len(L)))

\* one entry: [kw, name, d], kw = "" if it is not an entry after all
NoEntry == [kw |-> "", name |-> "", d |-> ""]
EntryOf(c) ==
  LET text == JoinWith(c, " ")   i == IndexFrom(text, ":", 2) IN
  IF i = 0 THEN NoEntry
  ELSE LET ws == Words(SubSeq(text, 2, i - 1))  d == Squeezed(Drop(text, i)) IN
       IF Len(ws) = 2 /\ ws[1] = "param" THEN [kw |-> "param", name |-> ws[2], d |-> d]
       ELSE IF Len(ws) = 2 /\ ws[1] \in {"raise", "raises"} THEN [kw |-> "raises", name |-> ws[2], d |-> d]
       ELSE IF Len(ws) = 1 /\ ws[1] \in {"return", "returns"} THEN [kw |-> "returns", name |-> "", d |-> d]
       ELSE IF Len(ws) = 1 /\ ws[1] \in {"see", "seealso"} THEN [kw |-> "see", name |-> "", d |-> d]
       ELSE NoEntry

\* named entries: each name once, at its first place, with its last text
Named(es, kw) ==
  LET of == SelectSeq(es, LAMBDA e : e.kw = kw)
      first == {i \in 1..Len(of) : \A j \in 1..(i - 1) : of[j].name # of[i].name}
      lastd(n) == of[CHOOSE i \in 1..Len(of) : of[i].name = n /\ \A j \in (i + 1)..Len(of) : of[j].name # n].d
      RECURSIVE pick(_)
      pick(i) == IF i > Len(of) THEN <<>> ELSE (IF i \in first THEN <<[n |-> of[i].name, d |-> lastd(of[i].name)]>> ELSE <<>>) \o pick(i + 1)
  IN pick(1)

Parse(L0) ==
  LET L == TLCEval(Clean(L0))  prose == TLCEval(Prose(L))
      es == TLCEval(LET cs == Entries(SubSeq(L, Len(prose) + 1, Len(L))) IN [i \in 1..Len(cs) |-> EntryOf(cs[i])])
      rets == SelectSeq(es, LAMBDA e : e.kw = "returns")
      sees == SelectSeq(es, LAMBDA e : e.kw = "see")
  IN [short |-> ShortOf(prose), long |-> LongOf(prose), params |-> Named(es, "param"), raises |-> Named(es, "raises"),
      returns |-> IF rets = <<>> THEN <<>> ELSE <<rets[Len(rets)].d>>, see |-> [i \in 1..Len(sees) |-> sees[i].d]]

\* printed
Printed(D) ==
  LET prose == (IF D.short = "" THEN <<>> ELSE <<D.short>>) \o (IF D.short = "" \/ D.long = <<>> THEN <<>> ELSE <<"">> \o D.long)
      item(h, d) == IF d = "" THEN h \o ": " ELSE h \o ": " \o d
      es == [i \in 1..Len(D.params) |-> item(":param " \o D.params[i].n, D.params[i].d)] \o [i \in 1..Len(D.returns) |-> item(":returns", D.returns[i])]
            \o [i \in 1..Len(D.raises) |-> item(":raises " \o D.raises[i].n, D.raises[i].d)] \o [i \in 1..Len(D.see) |-> item(":see", D.see[i])]
  IN IF es = <<>> THEN prose ELSE prose \o <<"">> \o es

Full(D) == IF D.short = "" THEN <<>> ELSE IF D.long = <<>> THEN <<D.short>> ELSE <<D.short, "">> \o D.long

-------------------------------------------------------------------------------
(* What is left open *)
\* lines that look blank and are not empty
Murky(L) == LET C == Clean(L) IN \E i \in 1..Len(C) : C[i] # "" /\ Blank(C[i])
\* headers that go over several lines, or start with several colons
Wild(c) == LET e == EntryOf(c)  h == IndexFrom(c[1], ":", 2) IN
           (Len(c) > 1 /\ h = 0 /\ e.kw # "") \/ StartsWith(c[1], "::")
Unclear(L0) ==
  LET L == TLCEval(Clean(L0))  prose == Prose(L)  cs == Entries(SubSeq(L, Len(prose) + 1, Len(L))) IN \E i \in 1..Len(cs) : Wild(cs[i])
\* descriptions that would not be read as such if they were not indented
Colon(D) == IsEntry(D.short) \/ (D.long # <<>> /\ IsEntry(D.long[1]))
===============================================================================
