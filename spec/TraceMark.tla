----------------------------- MODULE TraceMark -----------------------------
(***************************************************************************)
(* What the real compiler finds implemented for the trait objects of a      *)
(* declaration, against Markers: `ser` or `de` available where it should    *)
(* not be, or the reverse.                                                  *)
(***************************************************************************)
EXTENDS Markers, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NumOf == [s \in {ToString(n) : n \in 1..64} |-> CHOOSE n \in 1..64 : ToString(n) = s]
Chunks == NumOf[IOEnv.CHUNKS]
First(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Last(k) == (k * Len(Trace)) \div Chunks

VARIABLES ch, c
L == Trace[c]
mvars == <<ch, c, vars>>
MInit == ch \in 1..Chunks /\ c = First(ch) /\ mode = "" /\ sup = <<>> /\ rep = "" /\ gen = FALSE

Set(s) == {s[i] : i \in DOMAIN s}
Flags == (IF \A i \in DOMAIN L.has : L.has[i].ser = SerAvail(L.mode, L.sup, Set(L.has[i].mk)) THEN {} ELSE {"ser"})
         \cup (IF \A i \in DOMAIN L.has : L.has[i].de = DeAvail(L.mode, L.sup, Set(L.has[i].mk)) THEN {} ELSE {"de"})
         \cup (IF {Set(L.has[i].mk) : i \in DOMAIN L.has} = Combos THEN {} ELSE {"incomplete"})

MNext == /\ c <= Last(ch)
         /\ IF Flags # {} THEN PrintT("BAD " \o L.id \o " " \o ToString(Flags)) ELSE TRUE
         /\ IF c = Last(ch) THEN PrintT("DONE " \o ToString(Last(ch) - First(ch) + 1)) ELSE TRUE
         /\ c' = c + 1 /\ UNCHANGED <<ch, vars>>
MSpec == MInit /\ [][MNext]_mvars
=============================================================================
