------------------------------ MODULE MCForms ------------------------------
(***************************************************************************)
(* All declarations that differ from the plain one in a few features.       *)
(***************************************************************************)
EXTENDS Forms, Json
CONSTANTS Differ, Within, Dump
VARIABLES d, k
vars == <<d, k>>
Init == d = Plain /\ k = 0
Next == /\ k < Differ
        /\ \E f \in Within : d[f] = Features[f][1] /\ \E v \in Values(f) \ {d[f]} : d' = [d EXCEPT ![f] = v]
        /\ k' = k + 1
Spec == Init /\ [][Next]_vars
AllFeatures == DOMAIN Features

(* a reason stays one whatever else is written, except that writing only lifts what is about reading *)
Laws == /\ Supported(Plain)
        /\ d.item = "trait" /\ d.mode # "serialize" =>
             Reasons([d EXCEPT !.mode = "serialize"]) \subseteq Reasons(d) \cup {"type"}
        /\ Reads(d) /\ d.tgen # "" => ~Supported(d)
        /\ d.mode = "serialize" /\ d.derives # "Deserialize" /\ d.item = "trait" => Reasons(d) \cap {"generic trait", "generic impl", "type"} = {}
Emit == IF Dump /\ Sensible(d) THEN PrintT("D " \o ToJson([d |-> d, why |-> Reasons(d)])) ELSE TRUE
=============================================================================
