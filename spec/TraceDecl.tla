----------------------------- MODULE TraceDecl -----------------------------
(***************************************************************************)
(* Declarations given to the real compiler, beside what the specification  *)
(* says is due: `rejected` although supported, or `accepted` although not.  *)
(***************************************************************************)
EXTENDS Args, Forms, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NumOf == [s \in {ToString(n) : n \in 1..64} |-> CHOOSE n \in 1..64 : ToString(n) = s]
Chunks == NumOf[IOEnv.CHUNKS]
First(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Last(k) == (k * Len(Trace)) \div Chunks

VARIABLES ch, c
vars == <<ch, c>>
L == Trace[c]
Init == ch \in 1..Chunks /\ c = First(ch)

Due(d) == CASE d.kind = "trait" -> TraitAccepts(d.ts)
            [] d.kind = "impl" -> ImplAccepts(d.ts)
            [] d.kind = "form" -> Supported(d)

Flags == LET due == Due(L.decl) IN
  (IF due /\ ~L.compiles THEN {"rejected"} ELSE {}) \cup (IF ~due /\ L.compiles THEN {"accepted"} ELSE {})

Next == /\ c <= Last(ch)
        /\ IF Flags # {} THEN PrintT("BAD " \o L.id \o " " \o ToString(Flags)) ELSE TRUE
        /\ IF c = Last(ch) THEN PrintT("DONE " \o ToString(Last(ch) - First(ch) + 1)) ELSE TRUE
        /\ c' = c + 1 /\ UNCHANGED ch
Spec == Init /\ [][Next]_vars
=============================================================================
