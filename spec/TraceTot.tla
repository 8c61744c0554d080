------------------------------ MODULE TraceTot ------------------------------
(***************************************************************************)
(* Recorded reads of encodings that were cut, changed, made up, or are of  *)
(* another type.                                                           *)
(*   malformed  an object from input that is not well-formed at all        *)
(*   cut        ... from an input without its end, or with a surplus       *)
(*   form       ... from input that is not of the representation's form    *)
(*   panic                                                                 *)
(***************************************************************************)
EXTENDS Shape, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NumOf == LET S == {ToString(n) : n \in 1..400} IN [s \in S |-> CHOOSE n \in 1..400 : ToString(n) = s]
Chunks == NumOf[IOEnv.CHUNKS]

VARIABLES ch, c
First(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Last(k) == (k * Len(Trace)) \div Chunks
L == Trace[c]

Flags ==
  IF L.panic THEN {"panic"}
  ELSE IF ~L.ok THEN {}
  ELSE (IF ~L.wf THEN {"malformed"} ELSE {}) \cup (IF L.cut THEN {"cut"} ELSE {}) \cup
       (IF L.judged /\ ~OfForm(L.cfg, L.top) THEN {"form"} ELSE {})

Init == /\ ch \in 1..Chunks /\ c = First(ch)
Next ==
  /\ c <= Last(ch)
  /\ IF Flags # {} THEN PrintT("BAD " \o L.id \o " " \o ToString(Flags)) ELSE TRUE
  /\ c' = c + 1 /\ UNCHANGED ch
  /\ IF c = Last(ch) THEN PrintT("DONE " \o ToString(Last(ch) - First(ch) + 1)) ELSE TRUE
Spec == Init /\ [][Next]_<<ch, c>>
=============================================================================
