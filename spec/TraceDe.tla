------------------------------ MODULE TraceDe ------------------------------
(***************************************************************************)
(* Recorded deserializations of the real code against the walk over the    *)
(* entries.  Lines that do not conform are printed with what is wrong:     *)
(*   lost      an error where an object was due                            *)
(*   accepted  an object where an error was due                            *)
(*   value     another implementation or another value                     *)
(*   kind      an error that nothing in the input gives rise to            *)
(*   names     the list of known tags of an unknown tag error              *)
(*   swallowed a failure of the format or the implementation was lost      *)
(*   K2        an error where the recorded finding says so                 *)
(*   panic                                                                 *)
(***************************************************************************)
EXTENDS DeMachine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NumOf == LET S == {ToString(n) : n \in 1..400} IN [s \in S |-> CHOOSE n \in 1..400 : ToString(n) = s]
Chunks == NumOf[IOEnv.CHUNKS]

VARIABLES ch, c, i, w
vars == <<ch, c, i, w>>

Contains(s, x) == \E j \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, j, j + Len(x) - 1) = x
First(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Last(k) == (k * Len(Trace)) \div Chunks
L == Trace[c]
Env == [buf |-> FALSE, hr |-> L.hr, k2 |-> FALSE]

Walked == ~L.panic /\ L.sch.k = "obj" /\ L.doc.k = "map"
W0(l) == IF ~l.panic /\ l.sch.k = "obj" THEN Walk0(l.sch.v) ELSE Walk0("ext0")
Init == /\ ch \in 1..Chunks /\ c = First(ch) /\ i = 1 /\ w = W0(Trace[First(ch)])

More == IF c > Last(ch) THEN FALSE ELSE IF ~Walked THEN FALSE ELSE 2 * i <= Len(L.doc.c)
Entry == /\ More
         /\ w' = WalkStep(w, L.doc.c[2*i - 1], L.doc.c[2*i], Env)
         /\ i' = i + 1 /\ UNCHANGED <<ch, c>>

Expected == IF Walked THEN WalkEnd(w, L.sch.c[1], Env) ELSE Des(L.sch, L.doc, Env)
(* every error that may be reported *)
Allowed == Des(L.sch, L.doc, Env).e
Kind(e) ==
  \E x \in e :
    CASE x = ANY -> TRUE
      [] x = INJ -> L.vmarked
      [] x[1] = "custom" -> L.err.kind = "custom" /\ Contains(L.err.msg, "non-unique")
      [] OTHER -> L.err.kind = x[1] /\ L.err.arg = x[2]

RECURSIVE Dedup(_)
Dedup(l) == IF Len(l) < 2 THEN l
            ELSE IF l[1] = l[2] THEN Dedup(Tail(l)) ELSE <<l[1]>> \o Dedup(Tail(l))

K2Res == Des(L.sch, L.doc, [Env EXCEPT !.k2 = TRUE])
K2Errs == K2Res.e
Flags ==
  IF L.panic THEN {"panic"}
  ELSE IF L.fired THEN (IF L.ok \/ ~L.marked THEN {"swallowed"} ELSE {})
  ELSE LET x == Expected
           e == Allowed
       IN CASE x.ok /\ L.ok -> IF x.v = SeenKeys(L.v) THEN {} ELSE IF K2Res.v = SeenKeys(L.v) THEN {"K2"} ELSE {"value"}
            [] x.ok -> IF K2Errs # {} THEN {"K2"} ELSE {"lost"}
            [] L.ok -> IF K2Res.ok /\ K2Res.v = SeenKeys(L.v) THEN {"K2"} ELSE {"accepted"} \cup (IF e = {INJ} THEN {"swallowed"} ELSE {})
            [] OTHER -> (IF e = {INJ} /\ ~L.vmarked THEN (IF Kind(K2Errs) THEN {"K2"} ELSE {"swallowed"})
                         ELSE IF Kind(e) THEN {} ELSE IF Kind(K2Errs) THEN {"K2"} ELSE {"kind"})
                        \cup (IF L.sch.k = "obj" /\ L.err.kind = "unknown_variant" /\ ANY \notin e
                                 /\ <<"unknown_variant", L.err.arg>> \in e /\ Dedup(L.err.list) # Cfg[L.sch.v].names
                              THEN {"names"} ELSE {})

Finish ==
  /\ c <= Last(ch) /\ ~More
  /\ IF Flags # {} THEN PrintT("BAD " \o L.id \o " " \o ToString(Flags)) ELSE TRUE
  /\ c' = c + 1 /\ i' = 1 /\ UNCHANGED ch
  /\ w' = IF c < Last(ch) THEN W0(Trace[c + 1]) ELSE w
  /\ IF c = Last(ch) THEN PrintT("DONE " \o ToString(Last(ch) - First(ch) + 1)) ELSE TRUE

Next == Entry \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
