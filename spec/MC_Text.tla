------------------------------- MODULE MC_Text -------------------------------
(* The text codec as a machine: a value is written, its text is read; or any *)
(* text is read, and what it reads as is written again.                      *)
(* Exhaustive over the grids below; the same cases are dumped for replay     *)
(* against the real serializer and deserializer.                             *)
EXTENDS Codec, Json, IOUtils, SequencesExt, FiniteSetsExt

Deep == "DEEP" \in DOMAIN IOEnv

F(k, f) == [k |-> k, f |-> f]
B(k, b) == [k |-> k, b |-> b]

Dates == {<<1, 1, 1>>, <<9999, 12, 31>>, <<2000, 2, 29>>, <<2023, 2, 28>>, <<1970, 1, 1>>, <<999, 10, 9>>, <<2024, 11, 30>>}
Clocks == {<<h, m, s, us>> : h \in {0, 9, 23}, m \in {0, 59}, s \in {0, 30, 59}, us \in {0, 1, 120, 1000, 500000, 999999}}
Offsets == {<<1, 0, 0>>} \cup {<<sg, off, us>> : sg \in {1, -1}, off \in {1, 60, 3599, 3600, 19800, 86399}, us \in {0, 1, 500000}}
Durations == {<<d, s, us>> : d \in {-999999999, -366, -2, -1, 0, 1, 7, 365, 999999999},
                              s \in {0, 1, 59, 60, 61, 3599, 3600, 3660, 86399}, us \in {0, 1, 10, 1000, 120000, 999000, 999999}}
Octets == {0, 1, 62, 99, 127, 128, 200, 255}
ByteRuns == {<<>>} \cup {<<a>> : a \in 0..255} \cup {<<a, b>> : a \in Octets, b \in Octets} \cup {<<a, b, c>> : a \in Octets, b \in Octets, c \in Octets}
            \cup {<<a, 0, 255, b>> : a \in Octets, b \in Octets}
Uuids == {[i \in 1..16 |-> IF i = p THEN v ELSE w] : p \in 1..16, v \in {0, 10, 255, 171}, w \in {0, 18, 255}}
Ipv4s == {<<a, b, 10, c>> : a \in {1, 9, 127, 255}, b \in {0, 10, 99, 100}, c \in {0, 1, 249, 255}}
Hextets == {0, 1, 4096}
Ipv6s == {[i \in 1..16 |-> IF i % 2 = 1 THEN g[(i + 1) \div 2] \div 256 ELSE g[i \div 2] % 256] :
            g \in {<<65535, a, b, c, d, e, f, h>> : a, b, c, d, e, f, h \in {0, 2748}} \cup {<<1, a, b, 0, c, 16, 0, d>> : a, b, c, d \in Hextets}}

Values ==
  {F("date", d) : d \in Dates} \cup {F("time", c) : c \in Clocks} \cup {F("time", c \o o) : c \in Clocks, o \in Offsets}
  \cup {F("datetime", d \o c \o o) : d \in {<<1, 1, 1>>, <<2024, 2, 29>>, <<9999, 12, 31>>}, c \in Clocks, o \in Offsets}
  \cup {F("datetime", d \o <<1, 2, 3, 4>>) : d \in Dates}
  \cup {F("timedelta", x) : x \in Durations}
  \cup {B("bytes", b) : b \in ByteRuns} \cup {B("uuid", b) : b \in Uuids} \cup {B("ipv4", b) : b \in Ipv4s} \cup {B("ipv6", b) : b \in Ipv6s}

-------------------------------------------------------------------------------
(* Texts: token sequences of the duration grammar, and texts one edit away    *)
Tokens == {"-", "P", "T", "1", "60", "W", "D", "H", "M", "S", ".5", "Y"}
Units == {"1", "60", "T", "W", "D", "H", "M", "S", ".5"}
RECURSIVE TokenRuns(_, _)
TokenRuns(n, alphabet) ==        \* all sequences of up to n tokens
  IF n = 0 THEN {""} ELSE LET r == TokenRuns(n - 1, alphabet) IN r \cup {x \o y : x \in r, y \in alphabet}

OptComp(u) == {"", "0" \o u, "7" \o u, "100" \o u}
Seconds == {"", "0S", "59S", "61.5S", "0.000001S", "1.123456000S", "1.1234567S", "2.S", "86400S"}
Structured == {sg \o "P" \o w \o d \o (IF h \o m \o s = "" THEN "" ELSE "T" \o h \o m \o s) :
                 sg \in {"", "-"}, w \in {"", "2W"}, d \in OptComp("D"), h \in OptComp("H"), m \in OptComp("M"), s \in Seconds}
Extremes == {sg \o x : sg \in {"", "-"}, x \in {"P999999999D", "P1000000000D", "P142857142W", "P142857143W", "P999999999DT24H",
               "P999999999DT1S", "P999999998DT86399.999999S", "P999999998DT86400S", "P0D", "PT0S", "PT", "P", "P1M", "P1Y", "P1Y2D", "PT1.5M", "P1.5D", "PT1H1H", "PT1S1M",
               "P1DT", "P00000000001D", "+P1D", "P+1D", "P-1D", "p1d", "P1D ", " P1D"}}

EditChars == CharSet("0159:.-+TZzWeAg=/ ")
Edits(t) == {t} \cup {SubSeq(t, 1, i - 1) \o Drop(t, i) : i \in 1..Len(t)}
            \cup {SubSeq(t, 1, i - 1) \o c \o Drop(t, i) : i \in 1..Len(t), c \in EditChars}
            \cup {SubSeq(t, 1, i) \o c \o Drop(t, i) : i \in 0..Len(t), c \in EditChars}
Bases == [
  date |-> {"2024-02-29", "1900-02-28", "2023-12-31"},
  time |-> {"10:20:30", "23:59:59.999999", "01:02:03+05:30", "00:00:00.5-01:00"},
  datetime |-> {"2024-02-29T23:59:59Z", "1989-10-23T01:45:50.000001+01:00", "0001-01-01T00:00:00-00:00:30"},
  timedelta |-> {"P1DT2H3M4.5S", "-PT36H"},
  bytes |-> {"", "AA==", "AAA=", "AAAA", "+/9=AAAA", "AAAAAAAA"},
  uuid |-> {"f81d4fae-7dec-11d0-a765-00a0c91e6bf6"},
  ipv4 |-> {"192.0.2.100", "0.0.0.0", "255.255.255.255"},
  ipv6 |-> {"2001:db8::8a2e:370:7334", "::", "::1", "1:2:3:4:5:6:7:8", "fe80::"}]

Texts == (UNION {{<<k, e>> : e \in UNION {Edits(t) : t \in Bases[k]}} : k \in TextKinds})
         \cup {<<"timedelta", t>> : t \in Structured \cup Extremes \cup TokenRuns(IF Deep THEN 4 ELSE 3, Tokens)
                                      \cup {"P" \o x : x \in TokenRuns(IF Deep THEN 5 ELSE 4, Units)}}

-------------------------------------------------------------------------------
VARIABLES pc, kind, val, txt
vars == <<pc, kind, val, txt>>

InitValue == \E v \in Values : pc = "value" /\ kind = v.k /\ val = <<v>> /\ txt = ""
InitText == \E t \in Texts : pc = "text" /\ kind = t[1] /\ val = <<>> /\ txt = t[2]
Init == InitValue \/ InitText

Write == /\ pc \in {"value", "read"} /\ val # <<>>
         /\ IF HasText(val[1]) THEN txt' = TextOf(val[1]) /\ pc' = "written" ELSE txt' = "" /\ pc' = "refused"
         /\ UNCHANGED <<kind, val>>
Reread == pc = "written" /\ LET r == ParseText(kind, txt) IN
            /\ pc' = (IF r.r = "ok" THEN "same" ELSE IF r.r = "any" THEN "free" ELSE "lost")
            /\ (r.r = "ok" => r.v = val)
            /\ UNCHANGED <<kind, val, txt>>
Read == pc = "text" /\ LET r == ParseText(kind, txt) IN
            /\ val' = r.v
            /\ pc' = (IF r.r = "ok" THEN "read" ELSE IF r.r = "any" THEN "free" ELSE "refused")
            /\ UNCHANGED <<kind, txt>>
Next == Write \/ Reread \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what is written is never unreadable, and reads as the value that was written
NothingLost == pc # "lost"
ReadsBack == pc = "written" => LET r == ParseText(kind, txt) IN r.r = "ok" => r.v = val
\* what is read is a value in the canonical form of its kind
Canonical == pc = "read" => val[1].k = kind /\ HasText(val[1])
OnlyNaiveRefused == (pc = "refused" /\ val # <<>>) => kind = "datetime" /\ Len(val[1].f) = 7
Ends == <>(pc \in {"same", "free", "refused"})

-------------------------------------------------------------------------------
Sequenced(S) == TLCEval(SetToSeq(S))
ReplayV == LET q == Sequenced(Values) IN TLCEval([i \in 1..Len(q) |-> [op |-> "rt", T |-> [k |-> q[i].k], V |-> q[i]]])
ReplayT == LET q == Sequenced(Texts) IN TLCEval([i \in 1..Len(q) |-> [op |-> "de", T |-> [k |-> q[i][1]], J |-> [k |-> "str", v |-> q[i][2]]]])
ASSUME "CASES" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.CASES, ReplayV) /\ ndJsonSerialize(IOEnv.CASES \o ".2", ReplayT)
=============================================================================
