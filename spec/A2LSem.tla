------------------------------- MODULE A2LSem -------------------------------
(***************************************************************************)
(* Reference semantics of ASAP2 (A2L) files: from the words of a file to   *)
(* either an error or the values that have to be reported, each as a leaf  *)
(* <<path, value>> of the result structure.                                *)
(*                                                                         *)
(* It is a push down automaton over the words that interprets A2LGrammar.  *)
(* Three kinds of input are told apart:                                    *)
(*   ok      the leaves are prescribed exactly,                            *)
(*   error   the file has to be rejected,                                  *)
(*   unspec  neither is prescribed (e.g. surplus words in a block).        *)
(* lax: a block lacks mandatory parameters; it may be rejected, but if it  *)
(* is accepted exactly the parameters that are there have to be reported.  *)
(***************************************************************************)
EXTENDS A2LGrammar, A2LNum, SequencesExt, FiniteSets

Join(p, f) == IF p = "" THEN f ELSE IF f = "" THEN p ELSE p \o "." \o f

NoCount == [t \in {} |-> 0]

\* base: the map this block is an entry of, "" if none. np: parameters read, nl: list entries read
Frame(ty, path, base) ==
  [ty |-> ty, path |-> path, base |-> base, np |-> 0, nl |-> 0, need |-> Types[ty].need, txt |-> "", cnt |-> NoCount, nest |-> << >>]

Start == [st |-> << Frame("A2L", "", "") >>, lv |-> << >>, v |-> "run", lax |-> FALSE, pend |-> ""]

Verdict(s, v) == [s EXCEPT !.v = v]
Emit(s, path, val) == [s EXCEPT !.lv = Append(@, <<path, val>>)]

StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
IsBracket(t) == StartsWith(t, "/begin ") \/ StartsWith(t, "/end ")

Top(s) == s.st[Len(s.st)]
SetTop(s, fr) == [s EXCEPT !.st[Len(s.st)] = fr]

\* ------------------------------------------------------------ parameters
\* the value reported for the word t as a parameter of this kind
Value(kind, t) ==
  IF kind = "str" THEN Good(t)
  ELSE IF kind \in NumKinds THEN Num(kind, t)
  ELSE IF t \in Enums[kind] THEN Good(t)
  ELSE IF kind \in DOMAIN Tolerated /\ t \in Tolerated[kind] THEN Unspecified
  ELSE Bad

\* value r arrives at path p; cont: the state with the frame already updated
Arrive(cont, p, r) ==
  IF r.k = "bad" THEN Verdict(cont, "error")
  ELSE IF r.k = "unspec" THEN Verdict(cont, "unspec")
  ELSE Emit(cont, p, r.c)

\* the next positional parameter of the top frame
Param(s, t) ==
  LET fr == Top(s)
      T == Types[fr.ty]
      q == T.ps[fr.np + 1]
      r == Value(q[2], t)
      path == IF fr.np = 0 /\ fr.base # "" THEN fr.base \o "{" \o t \o "}" ELSE fr.path
      fr2 == [fr EXCEPT !.np = @ + 1, !.path = path,
                        !.need = IF T.need = -2 /\ fr.np + 1 = Len(T.ps) /\ r.k = "ok" THEN ValOf(Chars(r.c)) ELSE @]
  IN Arrive(SetTop(s, fr2), Join(path, q[1]), r)

\* the next entry of the list of the top frame
ListWord(s, t) ==
  LET fr == Top(s)
      R == Types[fr.ty].rest
      q == R[(fr.nl % Len(R)) + 1]
      i == fr.nl \div Len(R)
  IN Arrive(SetTop(s, [fr EXCEPT !.nl = @ + 1]), Join(fr.path, q[1]) \o "[" \o ToString(i) \o "]", Value(q[2], t))

\* ------------------------------------------------------------ closing
Pop(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]

\* how many entries the lists of a frame have got
ListSizes(fr) ==
  LET T == Types[fr.ty]
      own == IF fr.nl = 0 THEN << >>
             ELSE [i \in 1..Len(T.rest) |-> << Join(fr.path, T.rest[i][1]) \o "#", ToString(fr.nl \div Len(T.rest)) >>]
      ks == SetToSeq({ t \in DOMAIN fr.cnt : Kids[fr.ty][t][4] # "1" })
  IN own \o [i \in 1..Len(ks) |-> << Join(fr.path, Kids[fr.ty][ks[i]][2]) \o "#", ToString(fr.cnt[ks[i]]) >>]

Close(s) ==
  LET fr == Top(s)
      T == Types[fr.ty]
      per == IF T.rest = << >> THEN 1 ELSE Len(T.rest)
      s2 == [Pop(s) EXCEPT !.lv = @ \o ListSizes(fr)]
  IN IF fr.nl % per # 0 THEN Verdict(s, "error")
     ELSE IF fr.np < Len(T.ps) THEN [s2 EXCEPT !.lax = TRUE]
     ELSE IF fr.need >= 0 /\ T.rest # << >> /\ fr.nl # fr.need * per THEN Verdict(s, "unspec")
     ELSE s2

\* ------------------------------------------------------------ opening
Open(s, k) ==
  LET fr == Top(s)
      n == IF k[1] \in DOMAIN fr.cnt THEN fr.cnt[k[1]] ELSE 0
      s2 == SetTop(s, [fr EXCEPT !.cnt = (k[1] :> (n + 1)) @@ @])
      p == Join(fr.path, k[2])
  IN IF Types[k[3]].mode = "flag" THEN Emit(s2, Join(p, "value"), "true")
     ELSE IF k[4] = "M" THEN [s2 EXCEPT !.st = Append(@, Frame(k[3], p \o "{}", p))]
     ELSE IF k[4] = "L" THEN [s2 EXCEPT !.st = Append(@, Frame(k[3], p \o "[" \o ToString(n) \o "]", ""))]
     ELSE [s2 EXCEPT !.st = Append(@, Frame(k[3], p, ""))]

\* ------------------------------------------------------------ one token
Foreign(t) == IsBracket(t) /\ t \notin Keywords

InBlock(s, t) ==
  LET fr == Top(s)
      T == Types[fr.ty]
      kids == Kids[fr.ty]
      split == T.rest # << >> /\ fr.nl % Len(T.rest) # 0
  IN IF Foreign(t) THEN Verdict(s, "unspec")
     ELSE IF split /\ (t \in DOMAIN kids \/ t \in Keywords) THEN Verdict(s, "error")
     ELSE IF t = T.end THEN Close(s)
     ELSE IF t \in DOMAIN kids
          THEN LET o == Open(s, kids[t]) IN IF fr.np < Len(T.ps) THEN [o EXCEPT !.lax = TRUE] ELSE o
     ELSE IF t \in Keywords THEN Verdict(s, "error")
     ELSE IF t \in SoftKeywords /\ ~(fr.np < Len(T.ps) /\ T.ps[fr.np + 1][2] \in DOMAIN Enums) THEN Verdict(s, "unspec")
     ELSE IF fr.np < Len(T.ps)
          \* a parameter behind a keyword of the block: out of place
          THEN IF fr.cnt # NoCount THEN Verdict(s, "unspec") ELSE Param(s, t)
     ELSE IF T.rest # << >>
          THEN IF fr.need >= 0 /\ fr.nl >= fr.need * Len(T.rest) THEN Verdict(s, "unspec") ELSE ListWord(s, t)
     ELSE Verdict(s, "unspec")

InAttr(s, t) ==
  LET fr == Top(s)
      T == Types[fr.ty]
      s2 == Param(s, t)
  IN IF Foreign(t) THEN Verdict(s, "unspec")
     ELSE IF t \in Keywords THEN Verdict(s, "error")
     ELSE IF t \in SoftKeywords /\ T.ps[fr.np + 1][2] = "str" THEN Verdict(s, "unspec")
     ELSE IF s2.v # "run" THEN s2
     ELSE IF fr.np + 1 = Len(T.ps) THEN Pop(s2)
     ELSE s2

\* the blocks within vendor content have to be nested properly: "mis" otherwise
Nesting(fr, t) ==
  IF StartsWith(t, "/begin ") THEN Append(fr.nest, SubSeq(t, 8, Len(t)))
  ELSE IF StartsWith(t, "/end ")
       THEN IF fr.nest # << >> /\ fr.nest[Len(fr.nest)] = SubSeq(t, 6, Len(t)) THEN SubSeq(fr.nest, 1, Len(fr.nest) - 1) ELSE << "mis", "" >>
  ELSE fr.nest
Nested(s, fr, t, next) ==
  LET n == Nesting(fr, t) IN
  IF n = << "mis", "" >> THEN Verdict(s, "unspec") ELSE SetTop(next, [Top(next) EXCEPT !.nest = n])

RECURSIVE Token(_, _)
Token(s, t) ==
  LET fr == Top(s)
      T == Types[fr.ty]
  IN CASE T.mode \in {"block", "root"} -> InBlock(s, t)
       [] T.mode = "attr" -> InAttr(s, t)
       [] T.mode = "dims" ->
            IF IsBracket(t) \/ t \in Keywords \cup SoftKeywords
            THEN IF fr.np = 0 THEN Verdict(s, "unspec") ELSE Token(Pop(s), t)
            ELSE LET s2 == Param(s, t) IN IF s2.v = "run" /\ fr.np + 1 = Len(T.ps) THEN Pop(s2) ELSE s2
       [] T.mode = "open" ->
            IF t \in {"/end FRAME", "/begin IF_DATA"} THEN Token([Pop(s) EXCEPT !.lv = @ \o ListSizes(fr)], t)
            ELSE IF Foreign(t) THEN Verdict(s, "unspec")
            ELSE IF t \in Keywords THEN Verdict(s, "error")
            ELSE IF t \in SoftKeywords THEN Verdict(s, "unspec")
            ELSE ListWord(s, t)
       [] T.mode = "raw" ->
            IF t = T.end THEN (IF fr.np = 0 \/ fr.nest # << >> THEN Verdict(s, "unspec") ELSE Close(s))
            ELSE IF t = "/begin IF_DATA" THEN Verdict(s, "unspec")
            ELSE IF fr.np = 0 THEN (IF IsBracket(t) THEN Verdict(s, "unspec") ELSE Param(s, t))
            ELSE Nested(s, fr, t, ListWord(s, t))
       [] OTHER -> \* text, anytext
            IF t = T.end THEN (IF fr.np = 0 \/ fr.nest # << >> THEN Verdict(s, "unspec") ELSE Emit(Pop(s), Join(fr.path, T.ps[1][1]), fr.txt))
            ELSE IF T.mode = "text" /\ Foreign(t) THEN Verdict(s, "unspec")
            ELSE IF T.mode = "text" /\ t \in Keywords THEN Verdict(s, "error")
            ELSE Nested(s, fr, t, SetTop(s, [fr EXCEPT !.np = 1, !.txt = IF @ = "" THEN t ELSE @ \o " " \o t]))

\* ------------------------------------------------------------ one word
\* "/begin" and "/end" form one token with the word that follows them
Glued(w) == StartsWith(w, "\t")   \* see A2LLex

Word(s, w) ==
  IF s.v # "run" THEN s
  ELSE IF Glued(w)
       THEN IF Types[Top(s).ty].mode = "anytext" /\ s.pend = "" THEN Token(s, SubSeq(w, 2, Len(w))) ELSE Verdict(s, "unspec")
  ELSE IF s.pend # ""
       THEN IF w \in {"/begin", "/end"} \/ StartsWith(w, "\"") THEN Verdict(s, "unspec")
            ELSE Token([s EXCEPT !.pend = ""], s.pend \o " " \o w)
  ELSE IF w \in {"/begin", "/end"} THEN [s EXCEPT !.pend = w]
  ELSE Token(s, w)

\* ------------------------------------------------------------ whole file
Paths(lv) == { lv[i][1] : i \in 1..Len(lv) }
AsSet(lv) == { lv[i] : i \in 1..Len(lv) }

Finish(s) ==
  IF s.v # "run" THEN [v |-> s.v, lax |-> s.lax, leaves |-> {}]
  ELSE IF Len(s.st) > 1 \/ "/begin PROJECT" \notin DOMAIN s.st[1].cnt THEN [v |-> "error", lax |-> FALSE, leaves |-> {}]
  ELSE IF s.pend # "" THEN [v |-> "unspec", lax |-> FALSE, leaves |-> {}]
  \* the same thing twice: which one is reported is not prescribed
  ELSE IF Cardinality(Paths(s.lv)) # Len(s.lv) THEN [v |-> "unspec", lax |-> FALSE, leaves |-> {}]
  ELSE [v |-> "ok", lax |-> s.lax, leaves |-> AsSet(s.lv)]

Parse(words) == Finish(FoldLeft(LAMBDA s, w : Word(s, w), Start, words))
\* torn: the file ends within a string or comment. A string right behind /begin or /end is not prescribed at all
TornParse(words) ==
  LET s == FoldLeft(LAMBDA a, w : Word(a, w), Start, words)
      p == Finish(s)
  IN IF p.v = "error" /\ s.pend = "" THEN p ELSE [v |-> "unspec", lax |-> FALSE, leaves |-> {}]
=============================================================================
