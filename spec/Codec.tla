-------------------------------- MODULE Codec --------------------------------
(* Text forms of scalar values: TextOf writes, ParseText reads.              *)
(* A value is a record [k, f] (temporal components) or [k, b] (bytes).       *)
(*   date      f = <<y, m, d>>                                               *)
(*   time      f = <<h, mi, s, us>>        naive, or with UTC offset         *)
(*             f = <<h, mi, s, us, sg, off, offus>>    sg = 1 / -1           *)
(*   datetime  f = <<y, m, d>> \o time components                            *)
(*   timedelta f = <<days, seconds, microseconds>>  normalized like Python   *)
(*   bytes     b = bytes;  uuid b = 16 bytes;  ipv4 b = 4;  ipv6 b = 16      *)
(* ParseText returns [r, v] with r = "ok" (v = <<value>>), "rej" (must be    *)
(* refused), or "any" (the specification leaves the reader free).            *)
EXTENDS Text

TextKinds == {"bytes", "datetime", "date", "time", "timedelta", "uuid", "ipv4", "ipv6"}

RejText == [r |-> "rej", v |-> <<>>]
AnyText == [r |-> "any", v |-> <<>>]
OkF(kind, comps) == [r |-> "ok", v |-> <<[k |-> kind, f |-> comps]>>]
OkB(kind, bytes) == [r |-> "ok", v |-> <<[k |-> kind, b |-> bytes]>>]

-------------------------------------------------------------------------------
(* Base64 *)
B64Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64Set == CharSet(B64Alphabet)
B64Val == [c \in B64Set |-> (CHOOSE i \in 1..64 : Ch(B64Alphabet, i) = c) - 1]
B64Chr(n) == Ch(B64Alphabet, n + 1)

RECURSIVE B64Enc(_)
B64Enc(b) ==
  IF b = <<>> THEN ""
  ELSE IF Len(b) = 1 THEN B64Chr(b[1] \div 4) \o B64Chr((b[1] % 4) * 16) \o "=="
  ELSE IF Len(b) = 2 THEN
    B64Chr(b[1] \div 4) \o B64Chr((b[1] % 4) * 16 + (b[2] \div 16)) \o B64Chr((b[2] % 16) * 4) \o "="
  ELSE B64Chr(b[1] \div 4) \o B64Chr((b[1] % 4) * 16 + (b[2] \div 16))
       \o B64Chr((b[2] % 16) * 4 + (b[3] \div 64)) \o B64Chr(b[3] % 64)
       \o B64Enc(SubSeq(b, 4, Len(b)))

RECURSIVE B64Quads(_)
B64Quads(s) ==     \* s: unpadded quads only
  IF s = "" THEN <<>>
  ELSE LET a == B64Val[Ch(s, 1)]  b == B64Val[Ch(s, 2)]  c == B64Val[Ch(s, 3)]  d == B64Val[Ch(s, 4)]
       IN  <<a * 4 + (b \div 16), (b % 16) * 16 + (c \div 4), (c % 4) * 64 + d>> \o B64Quads(Drop(s, 4))

ParseB64(s) ==
  LET n == Len(s)
      pad == IF EndsWith(s, "==") THEN 2 ELSE IF EndsWith(s, "=") THEN 1 ELSE 0
      body == SubSeq(s, 1, n - pad)
      full == SubSeq(body, 1, (Len(body) \div 4) * 4)
      rest == Drop(body, Len(full))
  IN IF n % 4 # 0 \/ ~AllIn(body, B64Set) THEN RejText
     ELSE IF pad = 0 THEN OkB("bytes", B64Quads(full))
     ELSE IF pad = 2 THEN
       LET a == B64Val[Ch(rest, 1)]  b == B64Val[Ch(rest, 2)]
       IN  IF b % 16 # 0 THEN AnyText ELSE OkB("bytes", B64Quads(full) \o <<a * 4 + (b \div 16)>>)
     ELSE
       LET a == B64Val[Ch(rest, 1)]  b == B64Val[Ch(rest, 2)]  c == B64Val[Ch(rest, 3)]
       IN  IF c % 4 # 0 THEN AnyText
           ELSE OkB("bytes", B64Quads(full) \o <<a * 4 + (b \div 16), (b % 16) * 16 + (c \div 4)>>)

-------------------------------------------------------------------------------
(* Calendar and clock *)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
ValidClock(h, mi, s) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59

DateText(f) == Pad(f[1], 4) \o "-" \o Pad(f[2], 2) \o "-" \o Pad(f[3], 2)

ClockText(h, mi, s, us) == Pad(h, 2) \o ":" \o Pad(mi, 2) \o ":" \o Pad(s, 2)
                           \o (IF us # 0 THEN "." \o Pad(us, 6) ELSE "")

OffsetText(sg, off, offus) ==
  LET h == off \div 3600  m == (off % 3600) \div 60  s == off % 60 IN
  (IF sg < 0 THEN "-" ELSE "+") \o Pad(h, 2) \o ":" \o Pad(m, 2)
  \o (IF s # 0 \/ offus # 0 THEN ":" \o Pad(s, 2) ELSE "")
  \o (IF offus # 0 THEN "." \o Pad(offus, 6) ELSE "")

TimeText(f) == ClockText(f[1], f[2], f[3], f[4])
               \o (IF Len(f) > 4 THEN OffsetText(f[5], f[6], f[7]) ELSE "")

DateTimeHasOffset(f) == Len(f) = 10
DateTimeText(f) ==       \* defined for values with a UTC offset only
  DateText(f) \o "T" \o ClockText(f[4], f[5], f[6], f[7])
  \o (IF f[9] = 0 /\ f[10] = 0 THEN "Z" ELSE OffsetText(f[8], f[9], f[10]))

\* DD:DD at position i
Two(s, i) == i + 1 <= Len(s) /\ Ch(s, i) \in Digits /\ Ch(s, i + 1) \in Digits
TwoVal(s, i) == DigitVal[Ch(s, i)] * 10 + DigitVal[Ch(s, i + 1)]

DateShape(s) == Len(s) = 10 /\ AllDigits(SubSeq(s, 1, 4)) /\ Ch(s, 5) = "-" /\ Two(s, 6)
                /\ Ch(s, 8) = "-" /\ Two(s, 9)
DateComps(s) == <<NatOf(SubSeq(s, 1, 4)), TwoVal(s, 6), TwoVal(s, 9)>>

\* other shapes that ISO 8601 permits: basic format and week dates
OtherDateShape(s) ==
  \/ Len(s) = 8 /\ AllDigits(s)
  \/ Len(s) = 8 /\ AllDigits(SubSeq(s, 1, 4)) /\ SubSeq(s, 5, 6) = "-W" /\ Two(s, 7)
  \/ Len(s) = 7 /\ AllDigits(SubSeq(s, 1, 4)) /\ Ch(s, 5) = "W" /\ Two(s, 6)
  \/ Len(s) = 10 /\ AllDigits(SubSeq(s, 1, 4)) /\ SubSeq(s, 5, 6) = "-W" /\ Two(s, 7)
     /\ Ch(s, 9) = "-" /\ Ch(s, 10) \in Digits
  \/ Len(s) = 8 /\ AllDigits(SubSeq(s, 1, 4)) /\ Ch(s, 5) = "W" /\ Two(s, 6) /\ Ch(s, 8) \in Digits

ParseDate(s) ==
  IF DateShape(s) THEN
    LET c == DateComps(s) IN IF ValidDate(c[1], c[2], c[3]) THEN OkF("date", c) ELSE RejText
  ELSE IF OtherDateShape(s) THEN AnyText ELSE RejText

\* fraction digits (one to six) scaled to microseconds
FracVal(fr) == NatOf(fr \o Rep("0", 6 - Len(fr)))

\* a clock HH:MM:SS[.f{1,6}] occupying all of s
ClockShape(s) ==
  /\ Len(s) >= 8 /\ Two(s, 1) /\ Ch(s, 3) = ":" /\ Two(s, 4) /\ Ch(s, 6) = ":" /\ Two(s, 7)
  /\ \/ Len(s) = 8
     \/ Ch(s, 9) = "." /\ Len(s) \in 10..15 /\ AllDigits(Drop(s, 9))
ClockComps(s) == <<TwoVal(s, 1), TwoVal(s, 4), TwoVal(s, 7), IF Len(s) = 8 THEN 0 ELSE FracVal(Drop(s, 9))>>

\* an offset (+|-)HH:MM[:SS[.f{6}]] occupying all of s
OffsetShape(s) ==
  /\ Len(s) >= 6 /\ Ch(s, 1) \in {"+", "-"} /\ Two(s, 2) /\ Ch(s, 4) = ":" /\ Two(s, 5)
  /\ \/ Len(s) = 6
     \/ Ch(s, 7) = ":" /\ Two(s, 8) /\ (Len(s) = 9 \/ (Ch(s, 10) = "." /\ Len(s) = 16 /\ AllDigits(Drop(s, 10))))
OffsetComps(s) ==
  LET h == TwoVal(s, 2)  m == TwoVal(s, 5)
      sec == IF Len(s) > 6 THEN TwoVal(s, 8) ELSE 0
      us == IF Len(s) = 16 THEN NatOf(Drop(s, 10)) ELSE 0
      off == h * 3600 + m * 60 + sec
  IN  [ok |-> h < 24 /\ m < 60 /\ sec < 60, wide |-> m > 59 \/ sec > 59,
       c |-> <<IF Ch(s, 1) = "-" /\ (off # 0 \/ us # 0) THEN -1 ELSE 1, off, us>>]

TimeAlphabet == CharSet("0123456789:.,+-ZT")
TimeStart(s) ==       \* position where an offset starts, 0 if none
  LET p == IndexOf(s, "+")  m == IndexOf(s, "-") IN IF p # 0 THEN p ELSE m

\* <<status, components>> of a clock with optional offset; zulu permits a final Z
ClockAndOffset(s, zulu) ==
  LET u == IF zulu /\ EndsWith(s, "Z") THEN SubSeq(s, 1, Len(s) - 1) \o "+00:00" ELSE s
      p == TimeStart(u)
      clock == IF p = 0 THEN u ELSE SubSeq(u, 1, p - 1)
      off == IF p = 0 THEN "" ELSE Drop(u, p - 1)
  IN IF ~AllIn(u, TimeAlphabet) THEN         \* the standard library overlooks a character before the sign
       [r |-> IF IndexOf(u, ".") # 0 \/ IndexOf(u, ",") # 0 \/ p # 0 THEN "any" ELSE "rej", c |-> <<>>]
     ELSE IF ~ClockShape(clock) THEN [r |-> "any", c |-> <<>>]
     ELSE LET c == ClockComps(clock) IN
          IF p = 0 THEN (IF ValidClock(c[1], c[2], c[3]) THEN [r |-> "ok", c |-> c] ELSE [r |-> "rej", c |-> <<>>])
          ELSE IF ~OffsetShape(off) THEN [r |-> "any", c |-> <<>>]
          ELSE LET o == OffsetComps(off) IN
               IF o.wide THEN [r |-> "any", c |-> <<>>] ELSE
               IF ValidClock(c[1], c[2], c[3]) /\ o.ok /\ o.c[2] = 0 /\ o.c[3] # 0
               THEN [r |-> "any", c |-> <<>>]        \* offset below a second: see known findings
               ELSE IF ValidClock(c[1], c[2], c[3]) /\ o.ok THEN [r |-> "ok", c |-> c \o o.c]
               ELSE [r |-> "rej", c |-> <<>>]

\* texts that are not a clock by any reading: no two leading digits (after an optional T)
NoClock(s) == LET u == IF StartsWith(s, "T") THEN Drop(s, 1) ELSE s IN ~Two(u, 1)

ParseTime(s) ==
  LET r == ClockAndOffset(s, FALSE) IN
  IF r.r = "ok" THEN OkF("time", r.c)
  ELSE IF r.r = "rej" \/ NoClock(s) THEN RejText ELSE AnyText

DateTimeAlphabet == TimeAlphabet \cup {"W", " ", "t"}
ParseDateTime(s) ==
  LET d == SubSeq(s, 1, 10) IN
  IF Len(s) >= 19 /\ DateShape(d) /\ Ch(s, 11) = "T" THEN
    LET c == DateComps(d)  r == ClockAndOffset(Drop(s, 11), TRUE) IN
    IF ~ValidDate(c[1], c[2], c[3]) THEN RejText
    ELSE IF r.r = "ok" THEN (IF Len(r.c) = 4 THEN RejText ELSE OkF("datetime", c \o r.c))
    ELSE IF r.r = "rej" \/ NoClock(Drop(s, 11)) THEN RejText ELSE AnyText
  ELSE IF DateShape(s) THEN RejText                  \* a date without time has no UTC offset
  ELSE IF Len(s) < 7 \/ ~AllDigits(SubSeq(s, 1, 4)) THEN RejText
  ELSE AnyText

-------------------------------------------------------------------------------
(* Durations *)
DurFraction(us) == IF us % 1000 # 0 THEN "." \o Pad(us, 6)
                   ELSE IF us # 0 THEN "." \o Pad(us \div 1000, 3) ELSE ""

DurTime(secs, us) ==
  LET h == secs \div 3600  m == (secs % 3600) \div 60  s == secs % 60 IN
  "T" \o (IF h # 0 THEN ToString(h) \o "H" ELSE "")
      \o (IF h # 0 \/ m # 0 THEN ToString(m) \o "M" ELSE "")
      \o ToString(s) \o DurFraction(us) \o "S"

\* components of the absolute value of a normalized negative duration
NegDays(f) == IF f[2] = 0 /\ f[3] = 0 THEN -f[1] ELSE -f[1] - 1
NegSecs(f) == IF f[2] = 0 /\ f[3] = 0 THEN 0 ELSE IF f[3] = 0 THEN 86400 - f[2] ELSE 86400 - f[2] - 1
NegUs(f) == IF f[3] = 0 THEN 0 ELSE 1000000 - f[3]

\* NegSecs may reach a full day only if the seconds are zero, which NegDays excludes
DurAbs(f) == IF f[1] >= 0 THEN <<f[1], f[2], f[3]>> ELSE <<NegDays(f), NegSecs(f), NegUs(f)>>

DurText(f) ==
  LET a == DurAbs(f)
      day == IF a[1] # 0 THEN ToString(a[1]) \o "D" ELSE ""
      tm == IF a[2] # 0 \/ a[3] # 0 THEN DurTime(a[2], a[3]) ELSE ""
  IN IF day = "" /\ tm = "" THEN "PT0S" ELSE (IF f[1] < 0 THEN "-" ELSE "") \o "P" \o day \o tm

\* normalized negation of non-negative days, seconds (below a day), microseconds
DurNeg(d, s, us) ==
  IF s = 0 /\ us = 0 THEN <<-d, 0, 0>>
  ELSE IF us = 0 THEN <<-d - 1, 86400 - s, 0>>
  ELSE <<-d - 1, 86400 - s - 1, 1000000 - us>>

\* reads the next component "<digits><unit>"; [n, rest, ok]
Comp(s, unit) ==
  LET ds == Run(s, 1, Digits)  i == Len(ds) + 1 IN
  IF Len(ds) > 0 /\ i <= Len(s) /\ Ch(s, i) = unit
  THEN [p |-> TRUE, d |-> StripZeros(ds), rest |-> Drop(s, i)]
  ELSE [p |-> FALSE, d |-> "0", rest |-> s]

SecComp(s) ==     \* "<digits>[.<1-9 digits>]S"
  LET ds == Run(s, 1, Digits)  i == Len(ds) + 1
      fr == IF i <= Len(s) /\ Ch(s, i) = "." THEN Run(s, i + 1, Digits) ELSE ""
      j == IF i <= Len(s) /\ Ch(s, i) = "." THEN i + 1 + Len(fr) ELSE i
      hasdot == i <= Len(s) /\ Ch(s, i) = "."
  IN IF Len(ds) > 0 /\ (hasdot => Len(fr) \in 1..9) /\ j <= Len(s) /\ Ch(s, j) = "S"
     THEN [p |-> TRUE, d |-> StripZeros(ds), fr |-> fr, rest |-> Drop(s, j)]
     ELSE [p |-> FALSE, d |-> "0", fr |-> "", rest |-> s]

MaxDays == 999999999

ParseDuration(s) ==
  LET neg == StartsWith(s, "-")
      s0 == IF neg THEN Drop(s, 1) ELSE s
  IN IF ~StartsWith(s0, "P") THEN RejText ELSE
  LET s1 == Drop(s0, 1)
      w == Comp(s1, "W")
      d == Comp(w.rest, "D")
      hasT == StartsWith(d.rest, "T")
      t0 == IF hasT THEN Drop(d.rest, 1) ELSE ""
      h == Comp(t0, "H")
      m == Comp(h.rest, "M")
      x == SecComp(m.rest)
      atend == IF hasT THEN x.rest = "" ELSE d.rest = ""
      some == (w.p \/ d.p \/ hasT) /\ (hasT => (h.p \/ m.p \/ x.p))
  IN IF ~atend \/ ~some THEN RejText
     ELSE IF Len(w.d) > 9 \/ Len(d.d) > 9 THEN RejText          \* beyond the range of durations
     ELSE IF Len(h.d) > 9 \/ Len(m.d) > 9 \/ Len(x.d) > 9 THEN AnyText
     ELSE LET frac9 == x.fr \o Rep("0", 9 - Len(x.fr))
              us == NatOf(SubSeq(frac9, 1, 6))
              weeks == NatOf(w.d)  days == NatOf(d.d)
              hh == NatOf(h.d)  mm == NatOf(m.d)  ss == NatOf(x.d)
          IN IF SubSeq(frac9, 7, 9) # "000" THEN RejText
             ELSE IF weeks > 142857142 THEN RejText
             ELSE LET sec1 == (hh % 24) * 3600 + (mm % 1440) * 60 + (ss % 86400)
                      dd == hh \div 24 + mm \div 1440 + ss \div 86400 + sec1 \div 86400
                      sec == sec1 % 86400
                      room == MaxDays - weeks * 7
                  IN IF days > room THEN (IF neg THEN AnyText ELSE RejText)
                     ELSE IF dd > room - days THEN (IF neg THEN AnyText ELSE RejText)
                     ELSE LET total == weeks * 7 + days + dd IN
                          IF neg /\ (sec # 0 \/ us # 0) /\ total = MaxDays THEN RejText
                          ELSE IF neg THEN OkF("timedelta", DurNeg(total, sec, us))
                          ELSE OkF("timedelta", <<total, sec, us>>)

-------------------------------------------------------------------------------
(* UUID and IP addresses *)
HexText(b) == Cat([i \in 1..Len(b) |-> Hex2(b[i])])
UuidText(b) == LET h == HexText(b) IN
  SubSeq(h, 1, 8) \o "-" \o SubSeq(h, 9, 12) \o "-" \o SubSeq(h, 13, 16) \o "-"
  \o SubSeq(h, 17, 20) \o "-" \o SubSeq(h, 21, 32)

HexBytes(h) == [i \in 1..(Len(h) \div 2) |-> HexVal[Ch(h, 2 * i - 1)] * 16 + HexVal[Ch(h, 2 * i)]]
RECURSIVE Without(_, _)
Without(s, c) == LET i == IndexOf(s, c) IN
                 IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o Without(Drop(s, i), c)
UuidExtra == CharSet("-{}urnid:_ +xX")
ParseUuid(s) ==
  LET h == Without(s, "-") IN
  IF Len(h) = 32 /\ AllIn(h, HexDigits) THEN
    (IF Len(s) = 36 /\ Ch(s, 9) = "-" /\ Ch(s, 14) = "-" /\ Ch(s, 19) = "-" /\ Ch(s, 24) = "-"
     THEN OkB("uuid", HexBytes(h)) ELSE AnyText)
  ELSE IF AllIn(h, HexDigits) THEN RejText
  ELSE IF ~AllIn(s, HexDigits \cup UuidExtra) THEN RejText ELSE AnyText

Ipv4Text(b) == JoinWith([i \in 1..4 |-> ToString(b[i])], ".")
Octet(s) == AllDigits(s) /\ Len(s) <= 3 /\ (Len(s) > 1 => Ch(s, 1) # "0") /\ NatOf(s) <= 255
ParseIpv4(s) ==
  LET p == SplitBy(s, ".") IN
  IF Len(p) = 4 /\ \A i \in 1..4 : Octet(p[i]) THEN OkB("ipv4", [i \in 1..4 |-> NatOf(p[i])]) ELSE RejText

Groups(b) == [i \in 1..8 |-> b[2 * i - 1] * 256 + b[2 * i]]
HexGroup(g) == LET h == Hex2(g \div 256) \o Hex2(g % 256)
                   z == CHOOSE n \in 0..3 : (n = 3 \/ Ch(h, n + 1) # "0") /\ \A j \in 1..n : Ch(h, j) = "0"
               IN Drop(h, z)
RECURSIVE ZeroRun(_, _)
ZeroRun(g, i) == IF i > 8 \/ g[i] # 0 THEN 0 ELSE 1 + ZeroRun(g, i + 1)
Ipv6Text(b) ==
  LET g == Groups(b)
      runs == [i \in 1..8 |-> ZeroRun(g, i)]
      best == CHOOSE i \in 1..8 : /\ \A j \in 1..8 : runs[j] <= runs[i]
                                  /\ \A j \in 1..(i - 1) : runs[j] < runs[i]
      n == runs[best]
      text(a, z) == JoinWith([i \in 1..(z - a + 1) |-> HexGroup(g[a + i - 1])], ":")
  IN IF n < 2 THEN text(1, 8)
     ELSE text(1, best - 1) \o "::" \o text(best + n, 8)

HexGroupOk(s) == Len(s) \in 1..4 /\ AllIn(s, HexDigits)
RECURSIVE HexNat(_, _)
HexNat(s, acc) == IF s = "" THEN acc ELSE HexNat(Drop(s, 1), acc * 16 + HexVal[Ch(s, 1)])
GroupList(s) == IF s = "" THEN <<>> ELSE SplitBy(s, ":")
GroupBytes(gs) == [i \in 1..(2 * Len(gs)) |->
                    IF i % 2 = 1 THEN HexNat(gs[(i + 1) \div 2], 0) \div 256
                    ELSE HexNat(gs[i \div 2], 0) % 256]
ParseIpv6(s) ==
  LET dc == Find(s, "::")
      l == GroupList(SubSeq(s, 1, dc - 1))
      r == GroupList(Drop(s, dc + 1))
      all == SplitBy(s, ":")
      zeros == [i \in 1..(16 - 2 * Len(l) - 2 * Len(r)) |-> 0]
  IN IF IndexOf(s, ".") # 0 \/ IndexOf(s, "%") # 0 THEN
       (IF AllIn(s, HexDigits \cup CharSet(":.%")) THEN AnyText ELSE IF IndexOf(s, "%") # 0 THEN AnyText ELSE RejText)
     ELSE IF dc = 0 THEN
       (IF Len(all) = 8 /\ \A i \in 1..8 : HexGroupOk(all[i]) THEN OkB("ipv6", GroupBytes(all)) ELSE RejText)
     ELSE IF FindFrom(s, "::", dc + 1) # 0 THEN RejText
     ELSE IF (\A i \in 1..Len(l) : HexGroupOk(l[i])) /\ (\A i \in 1..Len(r) : HexGroupOk(r[i]))
             /\ Len(l) + Len(r) <= 7
          THEN OkB("ipv6", GroupBytes(l) \o zeros \o GroupBytes(r))
          ELSE RejText

-------------------------------------------------------------------------------
HasText(v) == v.k \in TextKinds /\ (v.k = "datetime" => DateTimeHasOffset(v.f))

TextOf(v) ==
  CASE v.k = "bytes" -> B64Enc(v.b)
    [] v.k = "date" -> DateText(v.f)
    [] v.k = "time" -> TimeText(v.f)
    [] v.k = "datetime" -> DateTimeText(v.f)
    [] v.k = "timedelta" -> DurText(v.f)
    [] v.k = "uuid" -> UuidText(v.b)
    [] v.k = "ipv4" -> Ipv4Text(v.b)
    [] v.k = "ipv6" -> Ipv6Text(v.b)

ParseText(kind, s) ==
  CASE kind = "bytes" -> ParseB64(s)
    [] kind = "date" -> ParseDate(s)
    [] kind = "time" -> ParseTime(s)
    [] kind = "datetime" -> ParseDateTime(s)
    [] kind = "timedelta" -> ParseDuration(s)
    [] kind = "uuid" -> ParseUuid(s)
    [] kind = "ipv4" -> ParseIpv4(s)
    [] kind = "ipv6" -> ParseIpv6(s)
=============================================================================
