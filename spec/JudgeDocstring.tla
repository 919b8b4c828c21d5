--------------------------- MODULE JudgeDocstring -----------------------------
(* op "dp": text with lines L is parsed: R = [ok, e, D, full, P, D2]: its     *)
(* parts, the full description, the printed text (lines) and its parts        *)
EXTENDS Docstring, JudgeLoop

Part(x, y) == IF x.short # y.short THEN "the short description" ELSE IF x.long # y.long THEN "the long description"
              ELSE IF x.params # y.params THEN "parameters" ELSE IF x.returns # y.returns THEN "returns" ELSE IF x.raises # y.raises THEN "raises" ELSE "see also"
VDocstring(w, ev) ==
  IF ~ev.R.ok THEN "bad:parsing failed with " \o ev.R.e
  ELSE IF Unclear(ev.L) THEN "skip:header" ELSE IF Murky(ev.L) THEN "skip:whitespace"
  ELSE LET D == TLCEval(Parse(ev.L)) IN
  IF ev.R.D # D THEN "bad:not the text of " \o Part(D, ev.R.D)
  ELSE IF ev.R.full # Full(D) THEN "bad:not the full description"
  ELSE IF Colon(D) THEN "ok:not printed"
  ELSE IF ev.R.D2 # D THEN "bad:printed and parsed, changed " \o Part(D, ev.R.D2)
  ELSE IF Parse(ev.R.P) # D THEN "bad:printed text does not say " \o Part(D, Parse(ev.R.P))
  ELSE "ok"
===============================================================================
