----------------------------- MODULE TraceFault -----------------------------
(***************************************************************************)
(* Two recordings of the same serialization: an undisturbed one (`base`)   *)
(* and one in which the format fails at call number `fault`, or (fault 0)  *)
(* in which a part of the value fails.  The second one has to make the     *)
(* calls of the first up to the failure, none after it, and report it.     *)
(*   prefix    a call before the failure differs from the undisturbed run  *)
(*   after     calls after the failure, or the failing call is not made    *)
(*   result    success                                                     *)
(*   message   the error is not the one of the failure                     *)
(*   panic                                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NumOf == LET S == {ToString(n) : n \in 1..400} IN [s \in S |-> CHOOSE n \in 1..400 : ToString(n) = s]
Chunks == NumOf[IOEnv.CHUNKS]

VARIABLES ch, c, i, fl
vars == <<ch, c, i, fl>>

FMT == "injected-format-failure"
VAL == "injected-value-failure"
First(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Last(k) == (k * Len(Trace)) \div Chunks
L == Trace[c]

(* the number of items of a container is only known when it is closed *)
Same(a, b) ==
  \/ a = b
  \/ /\ a[1] = b[1] /\ Len(a) = Len(b) /\ Len(a) > 1
     /\ SubSeq(a, 1, Len(a) - 1) = SubSeq(b, 1, Len(b) - 1)
     /\ a[1] \in {"seq", "tuple", "tstruct", "tvariant", "map", "struct", "svariant"}
     /\ b[Len(b)] = "?"

Init == /\ ch \in 1..Chunks /\ c = First(ch) /\ i = 1 /\ fl = {}
More == IF c > Last(ch) THEN FALSE ELSE IF L.panic THEN FALSE ELSE i <= Len(L.out)
Call == /\ More
        /\ fl' = fl \cup (IF i > Len(L.base) THEN {"prefix"} ELSE IF Same(L.base[i], L.out[i]) THEN {} ELSE {"prefix"})
        /\ i' = i + 1 /\ UNCHANGED <<ch, c>>

Flags ==
  IF L.panic THEN {"panic"}
  ELSE IF L.fault > 0
  THEN fl \cup (IF L.ok THEN {"result"} ELSE {})
          \cup (IF Len(L.out) # L.fault \/ ~L.fired THEN {"after"} ELSE {})
          \cup (IF ~L.ok /\ L.err # FMT THEN {"message"} ELSE {})
  ELSE fl \cup (IF L.ok THEN {"result"} ELSE {})
          \cup (IF ~L.ok /\ L.baseok /\ L.err # VAL THEN {"message"} ELSE {})

Finish ==
  /\ c <= Last(ch) /\ ~More
  /\ IF Flags # {} THEN PrintT("BAD " \o L.id \o " " \o ToString(Flags)) ELSE TRUE
  /\ c' = c + 1 /\ i' = 1 /\ fl' = {} /\ UNCHANGED ch
  /\ IF c = Last(ch) THEN PrintT("DONE " \o ToString(Last(ch) - First(ch) + 1)) ELSE TRUE

Next == Call \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
