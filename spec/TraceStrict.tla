----------------------------- MODULE TraceStrict -----------------------------
(***************************************************************************)
(* Recorded reads from a format that records no types: what is asked for,  *)
(* call by call, against what was written.  Walks the written calls and    *)
(* the requests side by side; every item written is asked for once, in     *)
(* order, as what it is, and nothing is left.                              *)
(*   request  something else was asked for than had been written           *)
(*   rest     not everything written was read                              *)
(*   value    another implementation or another value came back            *)
(*   trip     no object came back                                          *)
(*   panic                                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NumOf == LET S == {ToString(n) : n \in 1..400} IN [s \in S |-> CHOOSE n \in 1..400 : ToString(n) = s]
Chunks == NumOf[IOEnv.CHUNKS]

VARIABLES ch, c, i, a, fl
vars == <<ch, c, i, a, fl>>   \* i: position in what was written, a: in what was asked

First(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Last(k) == (k * Len(Trace)) \div Chunks
L == Trace[c]

Marks == {"e", "f", "k", "v", "end"}
Meets(kind, t) ==
  CASE kind = "none" -> t \in {"none", "some"}
    [] kind = "uvariant" -> t \in {"uvariant", "nvariant", "tvariant", "svariant"}
    [] kind = "tuple" -> t \in {"tuple", "tstruct"}
    [] kind = "ustruct" -> t \in {"ustruct", "unit"}
    [] OTHER -> kind = t

Init == /\ ch \in 1..Chunks /\ c = First(ch) /\ i = 1 /\ a = 1 /\ fl = {}
More == IF c > Last(ch) THEN FALSE ELSE IF L.panic THEN FALSE ELSE i <= Len(L.wrote)
Mark == /\ More /\ L.wrote[i][1] \in Marks
        /\ i' = i + 1 /\ UNCHANGED <<ch, c, a, fl>>
Item == /\ More /\ L.wrote[i][1] \notin Marks
        /\ fl' = IF a > Len(L.asked) THEN fl \cup {"rest"}
                 ELSE IF L.asked[a][2] = ToString(i - 1) /\ Meets(L.asked[a][1], L.wrote[i][1]) THEN fl
                 ELSE fl \cup {"request"}
        /\ i' = i + 1 /\ a' = a + 1 /\ UNCHANGED <<ch, c>>

Flags ==
  IF L.panic THEN {"panic"}
  ELSE fl \cup (IF ~L.ok THEN {"trip"} ELSE IF L.out # L.in THEN {"value"} ELSE {})
          \cup (IF L.ok /\ ~L.end THEN {"rest"} ELSE {})
          \cup (IF a # Len(L.asked) + 1 THEN {"request"} ELSE {})

Finish ==
  /\ c <= Last(ch) /\ ~More
  /\ IF Flags # {} THEN PrintT("BAD " \o L.id \o " " \o ToString(Flags)) ELSE TRUE
  /\ c' = c + 1 /\ i' = 1 /\ a' = 1 /\ fl' = {} /\ UNCHANGED ch
  /\ IF c = Last(ch) THEN PrintT("DONE " \o ToString(Last(ch) - First(ch) + 1)) ELSE TRUE

Next == Mark \/ Item \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
