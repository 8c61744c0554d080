------------------------------ MODULE MCFault ------------------------------
(***************************************************************************)
(* The machine of MCSer writing to a format that may fail at any call, for *)
(* a value that may fail at any point of itself.  The undisturbed run goes *)
(* on beside it: what was written stays a prefix of what it writes.        *)
(***************************************************************************)
EXTENDS MCSer

VARIABLES seen,   \* calls the failing format received
          dead    \* "", "fmt" or "val"
fvars == <<vars, seen, dead>>

FInit == Init /\ seen = << >> /\ dead = ""
New == SubSeq(out', Len(out) + 1, Len(out'))
Step ==
  /\ Next
  /\ IF dead # "" THEN UNCHANGED <<seen, dead>>
     ELSE \/ seen' = seen \o New /\ dead' = ""
          \/ \E n \in 1..Len(New) : seen' = seen \o SubSeq(New, 1, n) /\ dead' = "fmt"
          \/ ex # << >> /\ Head(ex) = V /\ seen' = seen /\ dead' = "val"
FSpec == FInit /\ [][Step]_fvars

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
WrittenIsPrefix == IsPre(seen, out)
NothingAfter == [][dead # "" => seen' = seen /\ dead' = dead]_fvars
(* an object the format could use comes out only of an undisturbed run *)
Whole == (dead = "" /\ Done /\ err = << >>) => seen = out
Torn == (dead = "val" /\ Done /\ err = << >>) => Len(seen) < Len(out)
=============================================================================
