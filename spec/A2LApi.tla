------------------------------- MODULE A2LApi -------------------------------
(***************************************************************************)
(* What the look ups on a parsed file have to deliver, as functions of the *)
(* values A2LSem prescribes for the file: GetObjectByIdent (property C14)  *)
(* and the positions and data types of record layouts (property C15);      *)
(* and the judge of recorded executions of them.                           *)
(***************************************************************************)
EXTENDS A2LSem, A2LLex, Json, IOUtils

ModPath(i) == "Project.Modules[" \o ToString(i) \o "]"

\* ------------------------------------------------------------ GetObjectByIdent
\* where objects are looked for
LookIn == { "AxisPts", "Characteristics", "CompuMethods", "CompuTabs", "CompuVTabs", "CompuVTabRanges", "Functions", "Groups",
            "Measurements", "RecordLayouts", "ModPar.SystemConstants", "Units" }

Below(leaves, pre) ==
  { << SubSeq(x[1], Len(pre) + 1, Len(x[1])), x[2] >> : x \in { y \in leaves : StartsWith(y[1], pre) } }

ASSUME \A f \in LookIn \ {"ModPar.SystemConstants"} : \E k \in Types["Module"].kids : k[2] = f /\ k[4] = "M"

\* the objects with an identifier among the leaves of a module (paths without the module), by the collection they are in
Found(own, ident) ==
  LET key == "{" \o ident \o "}."
      pre == [f \in LookIn |-> f \o key]
      where(x) == { f \in LookIn : StartsWith(x[1], pre[f]) }
      hits == { << f, x >> : f \in LookIn, x \in { y \in own : where(y) # {} } }
      mine(f) == { h[2] : h \in { k \in hits : k[1] = f /\ StartsWith(k[2][1], pre[f]) } }
  IN { << f, Below(mine(f), pre[f]) >> : f \in { g \in LookIn : mine(g) # {} } }

\* only these can be found at all
Candidates(leaves, i) ==
  LET own == Below(leaves, ModPath(i) \o ".") IN { x \in own : \E f \in LookIn : StartsWith(x[1], f \o "{") }

LeafSet(o) == { o[i] : i \in 1..Len(o) }

LookOk(own, lk) ==
  LET f == Found(own, lk.ident) IN
  /\ Len(lk.objs) = Cardinality(f)
  /\ { LeafSet(lk.objs[i]) : i \in 1..Len(lk.objs) } = { x[2] : x \in f }

\* ------------------------------------------------------------ record layouts
Low(f) == IF f = "Position" THEN "position" ELSE IF f = "Datatype" THEN "datatype" ELSE f
\* the components of a record layout: keywords with a position
Components == { k \in Types["RecordLayout"].kids : Types[k[3]].mode = "attr" /\ Low(Types[k[3]].ps[1][1]) = "position" }
TypeField(k) == { q[1] : q \in { Types[k[3]].ps[j] : j \in 1..Len(Types[k[3]].ps) } } \cap {"Datatype", "datatype"}

At0(leaves, p) == { x[2] : x \in { y \in leaves : y[1] = p } }

LayoutOk(leaves, l) ==
  LET base == ModPath(l.module) \o ".RecordLayouts{" \o l.name \o "}."
      own == { x \in leaves : StartsWith(x[1], base) }
      pos == UNION { { << v, k[2] >> : v \in At0(own, base \o k[2] \o "." \o Types[k[3]].ps[1][1]) } : k \in Components }
      typ == UNION { UNION { { << k[2], v >> : v \in At0(own, base \o k[2] \o "." \o f) } : f \in TypeField(k) } : k \in Components }
      twice == Cardinality({ p[1] : p \in pos }) # Cardinality(pos)
  IN /\ l.ok = ~twice
     /\ ~twice => { l.pos[i] : i \in 1..Len(l.pos) } = pos
     /\ { l.types[i] : i \in 1..Len(l.types) } = typ

LayoutNames(leaves, i) ==
  { x[2] : x \in { y \in leaves : StartsWith(y[1], ModPath(i) \o ".RecordLayouts{") /\ y[1] = ModPath(i) \o ".RecordLayouts{" \o y[2] \o "}.Name" } }

\* ------------------------------------------------------------ data types
\* bits of the data types and what they hold
DataTypes == "UBYTE" :> <<8, "uint8">> @@ "SBYTE" :> <<8, "int8">> @@ "UWORD" :> <<16, "uint16">> @@ "SWORD" :> <<16, "int16">>
             @@ "ULONG" :> <<32, "uint32">> @@ "SLONG" :> <<32, "int32">> @@ "A_UINT64" :> <<64, "uint64">> @@ "A_INT64" :> <<64, "int64">>
             @@ "FLOAT16_IEEE" :> <<16, "float16.Float16">> @@ "FLOAT32_IEEE" :> <<32, "float32">> @@ "FLOAT64_IEEE" :> <<64, "float64">>
DataSizes == "BYTE" :> 8 @@ "WORD" :> 16 @@ "LONG" :> 32
ASSUME DOMAIN DataTypes = Enums["DataType"] /\ DOMAIN DataSizes = Enums["DataSize"]

TypesWrong(r) ==
  LET got == { r.types[i] : i \in 1..Len(r.types) }
      want == { << "len:" \o t, ToString(DataTypes[t][1]) >> : t \in DOMAIN DataTypes } \cup { << "str:" \o t, t >> : t \in DOMAIN DataTypes }
              \cup { << "typ:" \o t, DataTypes[t][2] >> : t \in DOMAIN DataTypes }
              \cup { << "size:" \o t, ToString(DataSizes[t]) >> : t \in DOMAIN DataSizes }
              \cup { << "order:" \o t, t >> : t \in Enums["ByteOrder"] }
  IN IF r.outcome # "ok" THEN "data type lengths: " \o r.outcome
     ELSE IF want \subseteq got THEN "" ELSE "data types: wrong or missing " \o ToString(want \ got)

\* ------------------------------------------------------------ judge
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l, bad, nlook, nfound, nlay
vars == <<l, bad, nlook, nfound, nlay>>

\* an entry holds the words of a file and for each distinct answer the outcome, the look ups and the layouts
Wrong(exp, r) ==
  IF r.outcome # "ok" THEN "valid file not accepted: " \o r.outcome
  ELSE LET own == IF r.looks = << >> THEN {} ELSE Candidates(exp.leaves, r.idx)
           lk == { i \in 1..Len(r.looks) : ~LookOk(own, r.looks[i]) }
           ly == { i \in 1..Len(r.layouts) : ~LayoutOk(exp.leaves, r.layouts[i]) }
       IN IF lk # {} THEN LET q == r.looks[CHOOSE i \in lk : TRUE] IN
                          "look up of " \o q.ident \o " in module " \o ToString(r.idx) \o " gives " \o ToString(Len(q.objs)) \o " objects, wrong objects or content"
          ELSE IF ly # {} THEN LET q == r.layouts[CHOOSE i \in ly : TRUE] IN
                          "record layout " \o q.name \o ": positions " \o ToString(q.pos) \o " ok=" \o ToString(q.ok) \o " types " \o ToString(q.types)
          ELSE IF r.wantLayouts /\ { q.name : q \in { r.layouts[i] : i \in 1..Len(r.layouts) } } # UNION { LayoutNames(exp.leaves, m) : m \in 0..(r.nmod - 1) }
               THEN "record layouts missing or surplus"
          ELSE ""

Init == l = 0 /\ bad = << >> /\ nlook = 0 /\ nfound = 0 /\ nlay = 0

Step ==
  /\ l < Len(Trace)
  /\ LET e == Trace[l + 1]
         ty == "kind" \in DOMAIN e /\ e.kind = "types"
         exp == IF ty THEN [v |-> "ok", lax |-> FALSE, leaves |-> {}] ELSE Parse(e.words)
         w == [i \in 1..Len(e.results) |-> IF ty THEN TypesWrong(e.results[i])
                                        ELSE IF exp.v # "ok" \/ exp.lax THEN "" ELSE Wrong(exp, e.results[i])]
         f == { i \in 1..Len(w) : w[i] # "" }
     IN /\ bad' = IF f = {} THEN bad ELSE LET i == CHOOSE x \in f : TRUE IN Append(bad, [id |-> e.id, result |-> i, why |-> w[i]])
        /\ nlook' = nlook + (IF ty THEN 0 ELSE FoldLeft(LAMBDA a, r : a + Len(r.looks), 0, e.results))
        /\ nfound' = nfound + (IF ty THEN 0 ELSE FoldLeft(LAMBDA a, r : a + FoldLeft(LAMBDA b, k : b + Len(k.objs), 0, r.looks), 0, e.results))
        /\ nlay' = nlay + (IF ty THEN 0 ELSE FoldLeft(LAMBDA a, r : a + Len(r.layouts), 0, e.results))
  /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Done == l = Len(Trace) =>
          JsonSerialize(IOEnv.VERIF_VERDICT, [judged |-> l, bad |-> bad,
                         info |-> [lookups |-> nlook, objects_found |-> nfound, layouts |-> nlay]])
=============================================================================
