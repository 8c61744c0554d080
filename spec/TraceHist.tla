------------------------------ MODULE TraceHist ------------------------------
(***************************************************************************)
(* Long histories of operations on one process.  What an operation does is  *)
(* a function of its own input: the only state there is are the registries, *)
(* which are the same from the first use on (Races).  So every operation    *)
(* has to give what it gave as the first one of a fresh process.            *)
(*   alone     the outcome in a fresh process                               *)
(*   got       the outcome in the history                                   *)
(* Along the history each worker thread's operations are counted and an     *)
(* operation met before has to give what it gave then.                      *)
(*   outcome   differs from that of a fresh process                         *)
(*   again     differs from that of an earlier time in this history         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NumOf == LET S == {ToString(n) : n \in 1..400} IN [s \in S |-> CHOOSE n \in 1..400 : ToString(n) = s]
Chunks == NumOf[IOEnv.CHUNKS]

VARIABLES ch, c, met
vars == <<ch, c, met>>
First(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Last(k) == (k * Len(Trace)) \div Chunks
L == Trace[c]

Flags == (IF L.got # L.alone THEN {"outcome"} ELSE {}) \cup
         (IF L.op \in DOMAIN met THEN IF Trace[met[L.op]].got # L.got THEN {"again"} ELSE {} ELSE {})

Init == /\ ch \in 1..Chunks /\ c = First(ch) /\ met = << >>
Next ==
  /\ c <= Last(ch)
  /\ IF Flags # {} THEN PrintT("BAD " \o L.id \o " " \o ToString(Flags)) ELSE TRUE
  /\ met' = IF L.op \in DOMAIN met THEN met ELSE met @@ (L.op :> c)
  /\ c' = c + 1 /\ UNCHANGED ch
  /\ IF c = Last(ch) THEN PrintT("DONE " \o ToString(Last(ch) - First(ch) + 1)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
