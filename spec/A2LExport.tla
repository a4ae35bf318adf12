----------------------------- MODULE A2LExport ------------------------------
(* writes the grammar for the input generators *)
EXTENDS A2LGrammar, Json, IOUtils
VARIABLE done
Init == done = JsonSerialize(IOEnv.VERIF_GRAMMAR,
                 [types |-> Types, enums |-> Enums, keywords |-> Keywords, soft |-> SoftKeywords])
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
