------------------------------ MODULE TraceTrip ------------------------------
(***************************************************************************)
(* Recorded round trips: a trait object written to a format and read back, *)
(* compared with what went in, token by token.  `dir` is the same trip of  *)
(* the concrete value on its own: what the format cannot represent, or     *)
(* what the value does not read back itself, is not typetag's.             *)
(*   trip    no object came back                                           *)
(*   value   another implementation or another value                       *)
(*   K2      ... in the way that is a recorded finding: the format moved   *)
(*           the entries of a map, and some map has keys that are not text *)
(*   panic                                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NumOf == LET S == {ToString(n) : n \in 1..400} IN [s \in S |-> CHOOSE n \in 1..400 : ToString(n) = s]
Chunks == NumOf[IOEnv.CHUNKS]

VARIABLES ch, c, i, fl
vars == <<ch, c, i, fl>>

First(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Last(k) == (k * Len(Trace)) \div Chunks
L == Trace[c]

Init == /\ ch \in 1..Chunks /\ c = First(ch) /\ i = 1 /\ fl = {}
Compared == IF L.panic THEN FALSE ELSE IF ~(L.dir.ok /\ L.dir.eq) THEN FALSE ELSE L.obj.ok
More == IF c > Last(ch) THEN FALSE ELSE IF ~Compared THEN FALSE ELSE i <= Len(L.obj.out)
Tok == /\ More
       /\ fl' = IF i > Len(L.in) THEN fl \cup {"value"}
                ELSE IF L.obj.out[i] = L.in[i] THEN fl ELSE fl \cup {"value"}
       /\ i' = i + 1 /\ UNCHANGED <<ch, c>>

OddKeys == L.odd \/ \E j \in 1..(Len(L.in) - 1) : L.in[j] = <<"k">> /\ L.in[j + 1][1] # "str"
Flags ==
  IF L.panic THEN {"panic"}
  ELSE IF ~(L.dir.ok /\ L.dir.eq) THEN {}
  ELSE LET bad == IF ~L.obj.ok THEN {"trip"}
                  ELSE fl \cup (IF i # Len(L.in) + 1 \/ ~L.same THEN {"value"} ELSE {})
       IN  IF bad # {} /\ L.moves /\ OddKeys THEN {"K2"} ELSE bad

Finish ==
  /\ c <= Last(ch) /\ ~More
  /\ IF Flags # {} THEN PrintT("BAD " \o L.id \o " " \o ToString(Flags)) ELSE TRUE
  /\ c' = c + 1 /\ i' = 1 /\ fl' = {} /\ UNCHANGED ch
  /\ IF c = Last(ch) THEN PrintT("DONE " \o ToString(Last(ch) - First(ch) + 1)) ELSE TRUE

Next == Tok \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
