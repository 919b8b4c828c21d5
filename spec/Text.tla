-------------------------------- MODULE Text --------------------------------
(* Character-level operators on strings.  A character is a string of length  *)
(* one; TLC implements Len, SubSeq and \o for strings.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
CharSet(s) == {Ch(s, i) : i \in 1..Len(s)}

Drop(s, n) == SubSeq(s, n + 1, Len(s))          \* all but the first n
Take(s, n) == SubSeq(s, 1, n)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

DigitChars == "0123456789"
HexChars == "0123456789abcdef"
HexUpper == "0123456789ABCDEF"

Digits == CharSet(DigitChars)
HexDigits == CharSet(HexChars) \cup CharSet(HexUpper)
DigitVal == [c \in Digits |-> (CHOOSE i \in 1..10 : Ch(DigitChars, i) = c) - 1]
HexVal == [c \in HexDigits |->
             (CHOOSE i \in 1..16 : Ch(HexChars, i) = c \/ Ch(HexUpper, i) = c) - 1]

AllIn(s, cs) == \A i \in 1..Len(s) : Ch(s, i) \in cs
AllDigits(s) == Len(s) > 0 /\ AllIn(s, Digits)

RECURSIVE NatOf_(_, _, _)
NatOf_(s, i, acc) == IF i > Len(s) THEN acc ELSE NatOf_(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])
NatOf(s) == NatOf_(s, 1, 0)                      \* at most nine significant digits

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(Drop(s, 1)) ELSE s

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)

Pad(n, w) == LET s == ToString(n) IN Rep("0", w - Len(s)) \o s

Hex2(b) == Ch(HexChars, (b \div 16) + 1) \o Ch(HexChars, (b % 16) + 1)

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))

RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = <<>> THEN ""
                     ELSE IF Len(ss) = 1 THEN ss[1]
                     ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)

\* index of the first occurrence of character c at or after position i, 0 if none
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE IndexFrom(s, c, i + 1)
IndexOf(s, c) == IndexFrom(s, c, 1)

\* split at a separator character
RECURSIVE SplitBy(_, _)
SplitBy(s, c) == LET i == IndexOf(s, c) IN
                 IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitBy(Drop(s, i), c)

\* position of the first occurrence of a string, 0 if none
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                     ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE FindFrom(s, p, i + 1)
Find(s, p) == FindFrom(s, p, 1)


\* the longest prefix of s from position i whose characters are in cs
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, cs) == IF i > Len(s) \/ Ch(s, i) \notin cs THEN i ELSE RunEnd(s, i + 1, cs)
Run(s, i, cs) == SubSeq(s, i, RunEnd(s, i, cs) - 1)
=============================================================================
