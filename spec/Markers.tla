------------------------------ MODULE Markers ------------------------------
(***************************************************************************)
(* For which combinations of Send and Sync a trait object is Serialize,     *)
(* and its box Deserialize.  The model-checked part: all modes, all lists   *)
(* of supertraits up to a length; prints every declaration.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSup, Dump

Modes == {"serde", "serialize", "deserialize"}
Combos == SUBSET {"Send", "Sync"}
Writes(mode) == mode \in {"serde", "serialize"}
Reads(mode) == mode \in {"serde", "deserialize"}

Named(sup) == {sup[i] : i \in DOMAIN sup} \cap {"Send", "Sync"}
SerAvail(mode, sup, mk) == Writes(mode)
DeAvail(mode, sup, mk) == Reads(mode) /\ mk \subseteq Named(sup)

(* other::Send and other::Sync are traits that only are called like the markers *)
Lookalikes == {"other::Send", "other::Sync"}
Supers == {"Send", "Sync", "Obj", "'static", "Clone2", "std::fmt::Debug"} \cup Lookalikes
Rare == {"Clone2", "std::fmt::Debug"} \cup Lookalikes
Reps == {"ext", "int", "adj"}

VARIABLES mode, sup, rep, gen
vars == <<mode, sup, rep, gen>>
Fits(s) == s \in Lookalikes => \A i \in DOMAIN sup : sup[i] \notin Rare
Init == mode \in Modes /\ sup = <<>> /\ rep \in Reps /\ gen \in BOOLEAN /\ (gen => mode = "serialize")
Next == /\ Len(sup) < MaxSup
        /\ \E s \in Supers : s \notin {sup[i] : i \in DOMAIN sup} /\ Fits(s) /\ sup' = Append(sup, s)
        /\ UNCHANGED <<mode, rep, gen>>
Spec == Init /\ [][Next]_vars

(* what can be written does not depend on the markers; what can be read with some can be read with fewer *)
Laws == /\ \A a, b \in Combos : SerAvail(mode, sup, a) = SerAvail(mode, sup, b)
        /\ \A a, b \in Combos : a \subseteq b /\ DeAvail(mode, sup, b) => DeAvail(mode, sup, a)
        /\ Reads(mode) => DeAvail(mode, sup, {}) /\ DeAvail(mode, sup, Named(sup))
        /\ \A a \in Combos : DeAvail(mode, sup, a) = DeAvail(mode, [i \in DOMAIN sup |-> sup[Len(sup) + 1 - i]], a)
Emit == IF Dump THEN PrintT("D " \o ToJson([mode |-> mode, sup |-> sup, rep |-> rep, gen |-> gen])) ELSE TRUE
=============================================================================
