------------------------------- MODULE CalSem -------------------------------
(***************************************************************************)
(* What a call of the exported readers has to deliver, from its files      *)
(* alone: the A2L parser, the two hex parsers and ReadCalibration.         *)
(* A file is a record: there (it exists and is a file), its text and bytes *)
(* (see A2LLex) and its lines (see HexSem).                                *)
(***************************************************************************)
EXTENDS HexSem, A2LSem, A2LLex

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c

\* the extension of a path: from the last dot of its last element on, in lower case
RECURSIVE ExtFrom(_, _)
ExtFrom(path, i) ==
  IF i = 0 \/ path[i] = 47 THEN << >>
  ELSE IF path[i] = 46 THEN [k \in 1..(Len(path) - i + 1) |-> Lower(path[i + k - 1])]
  ELSE ExtFrom(path, i - 1)

FormatOf(path) ==
  LET e == ExtFrom(path, Len(path)) IN
  IF e = << 46, 104, 101, 120 >> THEN "ihex"          \* .hex
  ELSE IF e = << 46, 115, 49, 57 >> THEN "srec"       \* .s19
  ELSE "none"

Rejected == [v |-> "error", lax |-> FALSE, leaves |-> {}, image |-> {}]

A2LOf(f) ==
  IF ~f.there THEN Rejected
  ELSE LET x == Lex(f)
           p == IF ~x.decided THEN [v |-> "unspec", lax |-> FALSE, leaves |-> {}]
                ELSE IF x.torn THEN TornParse(x.words) ELSE Parse(x.words)
       IN [v |-> p.v, lax |-> p.lax, leaves |-> p.leaves, image |-> {}]

HexOf(fmt, f) ==
  IF ~f.there \/ fmt = "none" THEN Rejected
  ELSE LET h == HexParse(fmt, f.lines) IN
       IF h.ok THEN [v |-> "ok", lax |-> FALSE, leaves |-> {}, image |-> h.image] ELSE Rejected

\* a call: op, a and h its files, path the name of the hex file
Due(op, a, h, path) ==
  CASE op = "a2l" -> A2LOf(a)
    [] op \in {"ihex", "srec"} -> HexOf(op, h)
    [] OTHER ->
         LET x == A2LOf(a)
             y == HexOf(FormatOf(path), h)
         IN IF y.v = "error" THEN y
            ELSE [x EXCEPT !.image = IF x.v = "error" THEN {} ELSE y.image]
=============================================================================
