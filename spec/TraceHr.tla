------------------------------- MODULE TraceHr -------------------------------
(***************************************************************************)
(* What components below the tagging layer are told about the readability  *)
(* of the format, in recorded runs.  A component that looks writes what it *)
(* was told as a bool, and notes both what it finds and what it is told    *)
(* when it is read.                                                        *)
(*   w    calls on the format: every bool is such an answer                *)
(*   r    what came back from a trip: <<"hrseen", told, written>>          *)
(*   v    a value read from a document (what had been written is made up)  *)
(* Flags:                                                                  *)
(*   write  a component was told something else while writing              *)
(*   read   ... while reading                                              *)
(*   count  some answer is missing                                         *)
(*   panic                                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NumOf == LET S == {ToString(n) : n \in 1..400} IN [s \in S |-> CHOOSE n \in 1..400 : ToString(n) = s]
Chunks == NumOf[IOEnv.CHUNKS]

VARIABLES ch, c, i, got, fl
vars == <<ch, c, i, got, fl>>   \* got: answers seen

First(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Last(k) == (k * Len(Trace)) \div Chunks
L == Trace[c]
Answer == IF L.hr THEN "true" ELSE "false"

Init == /\ ch \in 1..Chunks /\ c = First(ch) /\ i = 1 /\ got = 0 /\ fl = {}
More == IF c > Last(ch) THEN FALSE ELSE IF L.panic THEN FALSE ELSE i <= Len(L.toks)

Look(t) ==
  CASE L.what = "w" /\ t[1] = "bool" -> [n |-> 1, e |-> IF t[2] = Answer THEN {} ELSE {"write"}]
    [] t[1] = "hrseen" -> [n |-> 1, e |-> (IF t[2] = Answer THEN {} ELSE {"read"}) \cup
                                          (IF L.what = "r" /\ t[3] # Answer THEN {"write"} ELSE {})]
    [] OTHER -> [n |-> 0, e |-> {}]
Tok == /\ More
       /\ LET x == Look(L.toks[i]) IN got' = got + x.n /\ fl' = fl \cup x.e
       /\ i' = i + 1 /\ UNCHANGED <<ch, c>>

Flags == IF L.panic THEN {"panic"}
         ELSE fl \cup (IF L.all /\ got # L.n THEN {"count"} ELSE {})

Finish ==
  /\ c <= Last(ch) /\ ~More
  /\ IF Flags # {} THEN PrintT("BAD " \o L.id \o " " \o ToString(Flags)) ELSE TRUE
  /\ c' = c + 1 /\ i' = 1 /\ got' = 0 /\ fl' = {} /\ UNCHANGED ch
  /\ IF c = Last(ch) THEN PrintT("DONE " \o ToString(Last(ch) - First(ch) + 1)) ELSE TRUE

Next == Tok \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
