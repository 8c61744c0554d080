----------------------------- MODULE TraceSame -----------------------------
(***************************************************************************)
(* Recordings of two ways to do the same: through the plain trait object   *)
(* and through one with markers.  Call by call the format receives the     *)
(* same, and what comes of it is the same.                                 *)
(*   calls     the format receives another call, or one less or more       *)
(*   outcome   another value, or an error instead of it, or the reverse    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NumOf == LET S == {ToString(n) : n \in 1..400} IN [s \in S |-> CHOOSE n \in 1..400 : ToString(n) = s]
Chunks == NumOf[IOEnv.CHUNKS]

VARIABLES ch, c, i
vars == <<ch, c, i>>
First(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Last(k) == (k * Len(Trace)) \div Chunks
L == Trace[c]

Agree == IF i <= Len(L.got.out) /\ i <= Len(L.plain.out) THEN L.got.out[i] = L.plain.out[i] ELSE FALSE
Flags == (IF i <= Len(L.got.out) \/ i <= Len(L.plain.out) THEN {"calls"} ELSE {}) \cup
         (IF L.got.ok # L.plain.ok \/ L.got.v # L.plain.v THEN {"outcome"} ELSE {})

Init == /\ ch \in 1..Chunks /\ c = First(ch) /\ i = 1
Call == /\ c <= Last(ch) /\ Agree
        /\ i' = i + 1 /\ UNCHANGED <<ch, c>>
Finish ==
  /\ c <= Last(ch) /\ ~Agree
  /\ IF Flags # {} THEN PrintT("BAD " \o L.id \o " " \o ToString(Flags)) ELSE TRUE
  /\ c' = c + 1 /\ i' = 1 /\ UNCHANGED ch
  /\ IF c = Last(ch) THEN PrintT("DONE " \o ToString(Last(ch) - First(ch) + 1)) ELSE TRUE
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
