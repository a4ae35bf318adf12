------------------------------- MODULE A2LLex -------------------------------
(***************************************************************************)
(* From the text of an ASAP2 file to its words. A text comes twice: as a   *)
(* string with one character per byte and as the sequence of these bytes.  *)
(*                                                                         *)
(* - a backslash and the character behind it are removed everywhere;       *)
(* - outside of strings // starts a comment up to the end of the line and  *)
(*   / * one up to the next * /, whatever they contain; a comment          *)
(*   separates words;                                                      *)
(* - a string goes from a quote to the next one, where "" is a quote       *)
(*   within the string; white space within it counts as one space each run;*)
(* - everything else between white space is a word.                        *)
(* A word that has something attached to a string is marked by a leading   *)
(* tab: what becomes of it is only prescribed where text is kept verbatim. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Blank == {9, 10, 11, 12, 13, 32}
Quote == 34
Slash == 47
Star == 42

\* ------------------------------------------------------------ escapes
\* removes escapes; only those of printable ascii characters are decided
Escaped(t) == { i \in 1..Len(t.codes) : t.codes[i] = 92 }

NoEscapes(t) ==
  LET n == Len(t.codes)
      step(s, i) ==
        IF i < s.at THEN s
        ELSE IF t.codes[i] # 92 THEN [s EXCEPT !.at = i + 1, !.codes = Append(@, t.codes[i]), !.chars = @ \o SubSeq(t.text, i, i)]
        ELSE IF i = n \/ (i < n /\ ~(t.codes[i + 1] \in 33..126)) THEN [s EXCEPT !.at = n + 1, !.ok = FALSE]
        ELSE [s EXCEPT !.at = i + 2]
      r == FoldLeft(step, [at |-> 1, codes |-> << >>, chars |-> "", ok |-> TRUE], [i \in 1..n |-> i])
  IN [codes |-> r.codes, text |-> r.chars, ok |-> r.ok]

\* ------------------------------------------------------------ characters that are not decided
At(c, i) == IF i <= Len(c) THEN c[i] ELSE 0
\* control characters and encodings of white space outside of ascii
Odd(c, i) ==
  \/ c[i] < 32 /\ c[i] \notin Blank
  \/ c[i] = 127
  \/ c[i] = 194 /\ At(c, i + 1) \in {133, 160}
  \/ c[i] = 225 /\ At(c, i + 1) = 154
  \/ c[i] = 226 /\ At(c, i + 1) \in {128, 129}
  \/ c[i] = 227 /\ At(c, i + 1) = 128
  \/ c[i] = 13 /\ At(c, i + 1) # 10

\* ------------------------------------------------------------ words
(* mode: gap between words, word, str within a string, line and block comment.
   seg: where the piece of the current word starts that is not in acc yet.
   glue: the word consists of a string and something attached to it *)
Start0(i) == [mode |-> "gap", seg |-> i, acc |-> "", at |-> i, words |-> << >>, glue |-> FALSE, q |-> FALSE, bl |-> FALSE]

Lex0(codes, text, first, last) ==
  LET cut(s, i) == s.acc \o SubSeq(text, s.seg, i - 1)
      flush(s, i) == [s EXCEPT !.words = Append(@, (IF s.glue THEN "\t" ELSE "") \o cut(s, i)), !.acc = "", !.seg = i,
                                !.glue = FALSE, !.q = FALSE, !.mode = "gap"]
      comment(i) == codes[i] = Slash /\ At(codes, i + 1) \in {Slash, Star}
      enter(s, i) == [s EXCEPT !.mode = IF codes[i + 1] = Slash THEN "line" ELSE "block", !.at = i + 2]
      plain(s, i) == \* outside of a string
        LET c == codes[i] IN
        IF comment(i) THEN enter(IF s.mode = "word" THEN flush(s, i) ELSE s, i)
        ELSE IF c \in Blank THEN (IF s.mode = "word" THEN flush(s, i) ELSE s)
        ELSE IF c = Quote
             THEN IF s.mode = "gap" THEN [s EXCEPT !.mode = "str", !.seg = i, !.q = TRUE]
                  \* a second quote right behind a string continues it
                  ELSE IF s.q /\ codes[i - 1] = Quote THEN [s EXCEPT !.mode = "str"]
                  ELSE [s EXCEPT !.mode = "str", !.q = TRUE, !.glue = TRUE]
        ELSE IF s.mode = "gap" THEN [s EXCEPT !.mode = "word", !.seg = i]
        ELSE IF s.q THEN [s EXCEPT !.glue = TRUE] ELSE s
      quoted(s, i) ==
        LET c == codes[i] IN
        IF c \in Blank
        THEN IF s.bl THEN s ELSE [s EXCEPT !.acc = cut(s, i), !.bl = TRUE]
        ELSE LET s2 == IF s.bl THEN [s EXCEPT !.acc = @ \o " ", !.bl = FALSE, !.seg = i] ELSE s IN
             IF c = Quote THEN [s2 EXCEPT !.mode = "word"] ELSE s2
      step(s, i) ==
        IF i < s.at THEN s
        ELSE CASE s.mode \in {"gap", "word"} -> plain(s, i)
               [] s.mode = "str" -> quoted(s, i)
               [] s.mode = "line" -> IF codes[i] = 10 THEN [s EXCEPT !.mode = "gap"] ELSE s
               [] s.mode = "block" -> IF codes[i] = Star /\ At(codes, i + 1) = Slash
                                      THEN [s EXCEPT !.mode = "gap", !.at = i + 2] ELSE s
      r == FoldLeft(step, Start0(first), [k \in 1..(last - first + 1) |-> first + k - 1])
      e == IF r.mode = "word" THEN flush(r, last + 1) ELSE r
  \* torn: the text ends within a string or a comment
  IN [words |-> e.words, torn |-> e.mode \in {"str", "block"}]

\* a byte order mark at the start and control-z characters at the end do not count
FirstIx(c) == IF Len(c) >= 3 /\ c[1] = 239 /\ c[2] = 187 /\ c[3] = 191 THEN 4 ELSE 1
RECURSIVE LastIx(_, _)
LastIx(c, n) == IF n > 0 /\ c[n] \in {26, 10, 13, 32} THEN LastIx(c, n - 1) ELSE n

\* trailing blanks are dropped with the control-z characters, so the end of a line comment may be the end of the text
Lex(t0) ==
  LET t == IF Escaped(t0) = {} THEN [codes |-> t0.codes, text |-> t0.text, ok |-> TRUE] ELSE NoEscapes(t0)
      f == FirstIx(t.codes)
      n == LastIx(t.codes, Len(t.codes))
      odd == \E i \in f..n : Odd(t.codes, i)
      r == Lex0(t.codes, t.text, f, n)
  IN [words |-> r.words, torn |-> r.torn, decided |-> t.ok /\ ~odd]
=============================================================================
