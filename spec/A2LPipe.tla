------------------------------ MODULE A2LPipe -------------------------------
(***************************************************************************)
(* Design model of the parallel A2L parser (a2l/token_generator.go,        *)
(* a2l/module.go): comments are removed from the whole text, the lines are *)
(* divided among tokenizer goroutines, their tokens are put together in    *)
(* order, the children of the module are divided among parser goroutines   *)
(* that send what they have parsed, or an error, through one bounded       *)
(* channel per kind to one collector goroutine per kind, and the channels  *)
(* are closed when all parsers are done.                                   *)
(*                                                                         *)
(* All files of up to MaxLen lines over a small alphabet of concrete lines *)
(* within a module, all worker counts in Ns and all interleavings are      *)
(* explored. The result must be the one A2LLex and A2LSem define for the   *)
(* text (Agree), and every behaviour must end. Each file is emitted and    *)
(* replayed against the real code with these worker counts.                *)
(***************************************************************************)
EXTENDS A2LSem, A2LLex, FiniteSetsExt

CONSTANTS Alpha, MinLen, MaxLen, Ns

Prefix == "/begin PROJECT P \"\" /begin MODULE M \"\""
Suffix == "/end MODULE /end PROJECT"

\* ------------------------------------------------------------ texts
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in { SubSeq(Ascii, i, i) : i \in 1..Len(Ascii) } |-> 31 + IndexOf(Chars(Ascii), {c})] @@ ("\n" :> 10)
\* (the fold makes an explicit sequence that is not evaluated anew at every access)
TextOf(str) == [text |-> str, codes |-> FoldLeft(LAMBDA a, i : Append(a, CodeOf[SubSeq(str, i, i)]), << >>, [i \in 1..Len(str) |-> i])]

LineText ==
  "so" :> "/begin UNIT U1 \"x" @@           \* a string over several lines
  "sc" :> "y\" \"k\" DERIVED" @@
  "en" :> "/end" @@
  "un" :> "UNIT" @@
  "be" :> "/begin" @@
  "ub" :> "UNIT U2 \"\" \"\" DERIVED /end UNIT" @@
  "co" :> "/* \"" @@                        \* comments with quotes and brackets
  "cc" :> "*/" @@
  "lc" :> "// /begin \"" @@
  "qu" :> "\"" @@
  "cs" :> "\"/* //\" /* \" */" @@
  "bl" :> "" @@
  "u3" :> "/begin UNIT U3 \"\" \"\" DERIVED /end UNIT" @@
  "u4" :> "/begin UNIT U4 \"\" \"\" EXTENDED_SI SI_EXPONENTS 1 2 3 4 5 6 7 /end UNIT" @@
  "me" :> "/begin MEASUREMENT M1 \"\" UBYTE c 1 2 3 4 FORMAT \"\" /begin ANNOTATION ANNOTATION_LABEL \"\" /end ANNOTATION /end MEASUREMENT" @@
  "if" :> "/begin IF_DATA X /begin UNIT U9 \"\" \"\" DERIVED /end UNIT FORMAT /end IF_DATA" @@
  "mp" :> "/begin MOD_PAR \"\" VERSION \"v\" /end MOD_PAR" @@
  "kw" :> "FORMAT \"\"" @@                  \* a keyword that is not allowed there
  "e1" :> "/end MEASUREMENT" @@
  "op" :> "/begin UNIT U5 \"\"" @@          \* never closed
  "cl" :> "\"\" DERIVED /end UNIT" @@
  "em" :> "/end MODULE" @@
  "bm" :> "/begin MODULE N \"\""

Joined(ls) == IF ls = << >> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o "\n" \o b, Head(ls), Tail(ls))
FileText(f) == Joined(<< Prefix >> \o [i \in 1..Len(f) |-> LineText[f[i]]] \o << Suffix >>)

Reference(f) == LET x == Lex(TextOf(FileText(f))) IN IF x.torn THEN TornParse(x.words) ELSE Parse(x.words)

\* ------------------------------------------------------------ removal of comments, one space for each
RemoveComments(t) ==
  LET c == t.codes
      step(s, i) ==
        IF i < s.at THEN s
        ELSE CASE s.mode = "line" -> IF c[i] = 10 THEN [s EXCEPT !.mode = "text", !.out = @ \o "\n"] ELSE s
               [] s.mode = "block" -> IF c[i] = Star /\ At(c, i + 1) = Slash THEN [s EXCEPT !.mode = "text", !.at = i + 2] ELSE s
               [] OTHER ->
                    IF c[i] = Quote THEN [s EXCEPT !.str = ~@, !.out = @ \o "\""]
                    ELSE IF ~s.str /\ c[i] = Slash /\ At(c, i + 1) \in {Slash, Star}
                         THEN [s EXCEPT !.mode = IF c[i + 1] = Slash THEN "line" ELSE "block", !.at = i + 2, !.out = @ \o " "]
                    ELSE [s EXCEPT !.out = @ \o SubSeq(t.text, i, i)]
  IN FoldLeft(step, [mode |-> "text", at |-> 1, str |-> FALSE, out |-> ""], [i \in 1..Len(c) |-> i]).out

SplitText(str) ==
  LET n == Len(str)
      nl == SetToSortSeq({ i \in 1..n : SubSeq(str, i, i) = "\n" }, LAMBDA a, b : a < b)
      from(k) == IF k = 1 THEN 1 ELSE nl[k - 1] + 1
      to(k) == IF k > Len(nl) THEN n ELSE nl[k] - 1
  IN [k \in 1..(Len(nl) + 1) |-> SubSeq(str, from(k), to(k))]

\* ------------------------------------------------------------ division of the lines
Quotes(line) == Cardinality({ i \in 1..Len(line) : SubSeq(line, i, i) = "\"" })
Trimmed(line) == LET I == { i \in 1..Len(line) : SubSeq(line, i, i) # " " } IN
                 IF I = {} THEN "" ELSE SubSeq(line, Min(I), Max(I))
EndsWith(str, e) == Len(str) >= Len(e) /\ SubSeq(str, Len(str) - Len(e) + 1, Len(str)) = e

\* the first line of every slice; never within a string nor between /begin or /end and its keyword
Slices(lines, n) ==
  LET step(s, i) ==
        LET cut == Len(s.at) - 1 < n - 1 /\ i - 1 >= (Len(lines) \div n) * Len(s.at) /\ ~s.str /\ ~s.kw
            tr == Trimmed(lines[i])
        IN [at |-> IF cut THEN Append(s.at, i) ELSE s.at,
            str |-> IF Quotes(lines[i]) % 2 = 1 THEN ~s.str ELSE s.str,
            kw |-> IF tr = "" THEN s.kw ELSE EndsWith(tr, "/begin") \/ EndsWith(tr, "/end")]
      at == FoldLeft(step, [at |-> <<1>>, str |-> FALSE, kw |-> FALSE], [i \in 1..Len(lines) |-> i]).at
  IN [k \in 1..Len(at) |-> SubSeq(lines, at[k], IF k = Len(at) THEN Len(lines) ELSE at[k + 1] - 1)]

\* ------------------------------------------------------------ one tokenizer
Tokens(lines) ==
  LET t == TextOf(Joined(lines))
      ws == Lex0(t.codes, t.text, 1, Len(t.codes)).words
      step(s, w) == IF s.pend # "" THEN [out |-> Append(s.out, s.pend \o " " \o w), pend |-> ""]
                    ELSE IF w \in {"/begin", "/end"} THEN [s EXCEPT !.pend = w]
                    ELSE [s EXCEPT !.out = Append(@, w)]
  IN FoldLeft(step, [out |-> << >>, pend |-> ""], ws).out

\* ------------------------------------------------------------ the module
Fold(s, tl) == FoldLeft(LAMBDA a, t : IF a.v # "run" THEN a ELSE Token(a, t), s, tl)

FirstOf(tl, t, default) == LET I == { i \in 1..Len(tl) : tl[i] = t } IN IF I = {} THEN default ELSE Min(I)

\* borders[i] is the last token in front of part i
Borders(tl, start, end, n) ==
  LET step(s, i) ==
        IF Len(s.b) >= n THEN s
        ELSE LET d == IF StartsWith(tl[i], "/begin ") THEN s.d + 1 ELSE IF StartsWith(tl[i], "/end ") THEN s.d - 1 ELSE s.d IN
             IF d = 0 /\ i >= start + ((end - start) \div n) * Len(s.b) THEN [b |-> Append(s.b, i), d |-> d]
             ELSE [s EXCEPT !.d = d]
      r == FoldLeft(step, [b |-> <<start>>, d |-> 0], [k \in 1..(end - start - 1) |-> start + k])
  IN [i \in 1..(n + 1) |-> IF i <= Len(r.b) THEN r.b[i] ELSE end]

\* a child of the module that starts at token i: where it ends and what it says
ModuleFrame == [Frame("Module", "Project.Modules[0]", "") EXCEPT !.np = 2]
Child(tl, i) ==
  LET s0 == [Start EXCEPT !.st = << Start.st[1], ModuleFrame >>]
      step(a, k) == IF a.done THEN a
                    ELSE LET s == Token(a.s, tl[k]) IN
                         [s |-> s, at |-> k, done |-> s.v # "run" \/ Len(s.st) = 2]
      r == FoldLeft(step, [s |-> s0, at |-> i, done |-> FALSE], [k \in 1..(Len(tl) - i + 1) |-> i + k - 1])
  IN [v |-> IF r.s.v = "run" /\ Len(r.s.st) > 2 THEN "error" ELSE r.s.v, at |-> r.at, lv |-> r.s.lv, kid |-> tl[i], lax |-> r.s.lax]

\* ------------------------------------------------------------ state
VARIABLES file, workers, phase,
          toks,      \* what each tokenizer has sent, "none" before
          got,       \* tokens received so far and number of tokenizers received from
          s1,        \* the state of the main parser up to the module
          modEnd,       \* the token that ends the module
          par,       \* the parsers: position, last token, what they are about to send
          chan,      \* channels by keyword (and "error")
          coll,      \* what the collectors have got
          outcome        \* the result
vars == <<file, workers, phase, toks, got, s1, modEnd, par, chan, coll, outcome>>

Files == UNION { [1..k -> Alpha] : k \in MinLen..MaxLen }

Idle == [v |-> "none"]
Nothing == [kid |-> "", lv |-> << >>]

Init ==
  /\ file \in Files /\ workers \in Ns
  /\ phase = "start" /\ toks = << >> /\ got = [tl |-> << >>, k |-> 0] /\ s1 = Start /\ modEnd = 0 /\ par = << >>
  /\ chan = [x \in {} |-> << >>] /\ coll = {} /\ outcome = Idle

Divide ==
  /\ phase = "start"
  /\ toks' = [k \in 1..Len(Slices(SplitText(RemoveComments(TextOf(FileText(file)))), workers)) |-> << "none" >>]
  /\ phase' = "tokens"
  /\ UNCHANGED <<file, workers, got, s1, modEnd, par, chan, coll, outcome>>

Tokenize(k) ==
  /\ phase = "tokens" /\ toks[k] = << "none" >>
  /\ toks' = [toks EXCEPT ![k] = << "sent", Tokens(Slices(SplitText(RemoveComments(TextOf(FileText(file)))), workers)[k]) >>]
  /\ UNCHANGED <<file, workers, phase, got, s1, modEnd, par, chan, coll, outcome>>

\* the main goroutine receives the token lists in the order of the slices
Receive ==
  /\ phase = "tokens" /\ got.k < Len(toks) /\ toks[got.k + 1][1] = "sent"
  /\ got' = [tl |-> got.tl \o toks[got.k + 1][2], k |-> got.k + 1]
  /\ IF got.k + 1 = Len(toks) THEN phase' = "module" /\ toks' = << >> ELSE UNCHANGED <<phase, toks>>
  /\ UNCHANGED <<file, workers, s1, modEnd, par, chan, coll, outcome>>

Result(r) == /\ outcome' = r /\ phase' = "done"
             /\ toks' = << >> /\ got' = [tl |-> << >>, k |-> 0] /\ s1' = Start /\ modEnd' = 0 /\ par' = << >>
             /\ chan' = [x \in {} |-> << >>] /\ coll' = {}
             /\ UNCHANGED <<file, workers>>
Failed == [v |-> "error", lax |-> FALSE, leaves |-> {}]

\* the main goroutine parses up to the module and starts the parsers
StartModule ==
  /\ phase = "module"
  /\ LET tl == got.tl
         mods == Cardinality({ i \in 1..Len(tl) : tl[i] = "/begin MODULE" })
         b == FirstOf(tl, "/begin MODULE", 0)
         isP(i) == i <= Len(tl) /\ tl[i] \notin Keywords
         start == IF isP(b + 1) THEN (IF isP(b + 2) THEN b + 2 ELSE b + 1) ELSE b
         e == FirstOf(tl, "/end MODULE", 0)
         s == Fold(Start, SubSeq(tl, 1, start))
         B == Borders(tl, start, e, workers)
     IN IF mods # 1 \/ s.v # "run" THEN Result(Finish(Fold(Start, tl)))   \* parsed by a single goroutine
        ELSE IF e <= start THEN Result(Failed)
        ELSE /\ s1' = s /\ modEnd' = e /\ phase' = "parse"
             /\ par' = [i \in 1..workers |-> [at |-> B[i], max |-> B[i + 1], send |-> Nothing, run |-> TRUE]]
             /\ chan' = [x \in (DOMAIN Kids["Module"]) \cup {"error"} |-> << >>]
             /\ UNCHANGED <<file, workers, toks, got, coll, outcome>>

Cap(x) == IF x = "error" THEN workers ELSE 1

\* one turn of the loop of a parser
Parse1(i) ==
  /\ phase = "parse" /\ par[i].run /\ par[i].send = Nothing
  /\ LET tl == got.tl
         p == par[i]
         t == tl[p.at + 1]
     IN IF p.at >= p.max THEN par' = [par EXCEPT ![i].run = FALSE]
        ELSE IF p.at + 1 > Len(tl) THEN par' = [par EXCEPT ![i].send = [kid |-> "error", lv |-> << >>]]
        ELSE IF t \in DOMAIN Kids["Module"]
             THEN LET c == Child(tl, p.at + 1) IN
                  IF c.v = "run" THEN par' = [par EXCEPT ![i].at = c.at, ![i].send = [kid |-> t, lv |-> c.lv]]
                  ELSE par' = [par EXCEPT ![i].send = [kid |-> "error", lv |-> << >>]]
        ELSE IF t = "/end MODULE" THEN par' = [par EXCEPT ![i].run = FALSE]
        ELSE IF t \in Keywords THEN par' = [par EXCEPT ![i].send = [kid |-> "error", lv |-> << >>]]
        ELSE par' = [par EXCEPT ![i].at = p.at + 1]
  /\ UNCHANGED <<file, workers, phase, toks, got, s1, modEnd, chan, coll, outcome>>

Send(i) ==
  /\ phase = "parse" /\ par[i].run /\ par[i].send # Nothing
  /\ LET k == par[i].send.kid IN
     /\ Len(chan[k]) < Cap(k)
     /\ chan' = [chan EXCEPT ![k] = Append(@, par[i].send)]
     /\ par' = [par EXCEPT ![i].send = Nothing, ![i].run = (k # "error")]
  /\ UNCHANGED <<file, workers, phase, toks, got, s1, modEnd, coll, outcome>>

Collect(k) ==
  /\ phase = "parse" /\ chan[k] # << >>
  /\ coll' = coll \cup { Head(chan[k]) }
  /\ chan' = [chan EXCEPT ![k] = Tail(@)]
  /\ UNCHANGED <<file, workers, phase, toks, got, s1, modEnd, par, outcome>>

\* all parsers are done, the channels are closed and empty: the main parser goes on behind the module
Closed ==
  /\ phase = "parse"
  /\ \A i \in 1..workers : ~par[i].run
  /\ \A k \in DOMAIN chan : chan[k] = << >>
  /\ IF \E c \in coll : c.kid = "error" THEN Result(Failed)
     ELSE LET cs == SetToSeq(coll)
              kids == { c.kid : c \in coll }
              fr == Top(s1)
              cnt == [k \in kids |-> Cardinality({ c \in coll : c.kid = k })]
              s2 == [s1 EXCEPT !.lv = @ \o FoldLeft(LAMBDA a, c : a \o c.lv, << >>, cs),
                                !.st[Len(s1.st)] = [fr EXCEPT !.cnt = cnt]]
          IN Result(Finish(Fold(s2, SubSeq(got.tl, modEnd, Len(got.tl)))))

Done == phase = "done" /\ UNCHANGED vars

Next ==
  \/ Divide \/ Receive \/ StartModule \/ Closed \/ Done
  \/ \E k \in 1..Len(toks) : Tokenize(k)
  \/ \E i \in 1..Len(par) : Parse1(i) \/ Send(i)
  \/ \E k \in DOMAIN chan : Collect(k)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
Agree ==
  phase = "done" =>
    LET r == Reference(file) IN
    CASE r.v = "unspec" -> TRUE
      [] r.v = "ok" /\ r.lax -> outcome.v \in {"error", "ok"} /\ (outcome.v = "ok" => outcome.leaves = r.leaves)
      [] OTHER -> outcome.v = r.v /\ outcome.leaves = r.leaves

Report ==
  phase = "done" => PrintT("CASE " \o ToString(<< workers, Reference(file).v, file >>))
=============================================================================
