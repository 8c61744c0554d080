------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry of a trait, built on first use by however many threads     *)
(* arrive at once.  Each thread that finds nothing published goes through   *)
(* the registrations one by one into a registry of its own, tries to       *)
(* publish it, and afterwards looks its tag up in whatever is published.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Tags,       \* strings
          MaxRegs,    \* registrations linked in, in any order
          Threads,
          None

VARIABLES regs,       \* the registrations: the i-th implementation's tag
          published,  \* the shared cell
          local,      \* thread -> registry under construction
          pos,        \* thread -> registrations visited
          pc,         \* thread -> where it is
          want,       \* thread -> tag it looks up
          got         \* thread -> outcomes
vars == <<regs, published, local, pos, pc, want, got>>

Empty == [map |-> << >>, names |-> << >>]
Poison == 0   \* registered more than once

(* one registration into a registry *)
Insert(r, tag, impl) ==
  [map |-> IF tag \in DOMAIN r.map THEN [r.map EXCEPT ![tag] = Poison] ELSE r.map @@ (tag :> impl),
   names |-> Append(r.names, tag)]

Lookup(r, tag) == IF tag \notin DOMAIN r.map THEN <<"unknown">>
                  ELSE IF r.map[tag] = Poison THEN <<"non-unique">> ELSE <<"impl", r.map[tag]>>

(* what every thread should get, from the registrations alone *)
Meant(tag) ==
  LET S == {i \in DOMAIN regs : regs[i] = tag}
  IN  CASE S = {} -> <<"unknown">>
        [] Cardinality(S) > 1 -> <<"non-unique">>
        [] OTHER -> <<"impl", CHOOSE i \in S : TRUE>>

SeqsUpTo(n) == UNION {[1..m -> Tags] : m \in 0..n}
Lookups == Tags \cup {"nobody"}
Init == /\ regs \in SeqsUpTo(MaxRegs)
        /\ published = None
        /\ local = [t \in Threads |-> Empty] /\ pos = [t \in Threads |-> 0]
        /\ pc = [t \in Threads |-> "get"] /\ got = [t \in Threads |-> << >>]
        /\ want \in [Threads -> Lookups]

Get(t) == /\ pc[t] = "get"
          /\ pc' = [pc EXCEPT ![t] = IF published = None THEN "build" ELSE "lookup"]
          /\ UNCHANGED <<regs, published, local, pos, want, got>>
Build(t) == /\ pc[t] = "build"
            /\ IF pos[t] < Len(regs)
               THEN /\ local' = [local EXCEPT ![t] = Insert(@, regs[pos[t] + 1], pos[t] + 1)]
                    /\ pos' = [pos EXCEPT ![t] = @ + 1]
                    /\ UNCHANGED pc
               ELSE pc' = [pc EXCEPT ![t] = "publish"] /\ UNCHANGED <<local, pos>>
            /\ UNCHANGED <<regs, published, want, got>>
Publish(t) == /\ pc[t] = "publish"
              /\ published' = IF published = None THEN local[t] ELSE published
              /\ pc' = [pc EXCEPT ![t] = "lookup"]
              /\ UNCHANGED <<regs, local, pos, want, got>>
(* looks up twice: the second time through the cell again *)
Look(t) == /\ pc[t] = "lookup"
           /\ got' = [got EXCEPT ![t] = Append(@, Lookup(published, want[t]))]
           /\ pc' = [pc EXCEPT ![t] = IF Len(got[t]) = 0 THEN "get" ELSE "done"]
           /\ UNCHANGED <<regs, published, local, pos, want>>
Finished == (\A t \in Threads : pc[t] = "done") /\ UNCHANGED vars
Next == (\E t \in Threads : Get(t) \/ Build(t) \/ Publish(t) \/ Look(t)) \/ Finished
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Get(t) \/ Build(t) \/ Publish(t) \/ Look(t))

(* ---- what must hold ---- *)
Alone == \A t \in Threads : \A i \in DOMAIN got[t] : got[t][i] = Meant(want[t])
WholeOrNothing == published # None => Len(published.names) = Len(regs) /\
                  \A x \in Lookups : Lookup(published, x) = Meant(x)
Settled == [][published # None => published' = published]_vars
AllFinish == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
