-------------------------------- MODULE Races --------------------------------
(***************************************************************************)
(* First and later uses of several traits by several threads.  A thread's   *)
(* program is the sequence of tags it looks up, as nested objects need them *)
(* from the outside in: every lookup is made while the objects around it    *)
(* are unfinished.  To look a tag up a thread reads the trait's cell; if    *)
(* nothing is published there it goes through the trait's registrations one *)
(* by one into a registry of its own, publishes that if nothing is          *)
(* published by then, and goes on with what is published.                   *)
(***************************************************************************)
EXTENDS Registry

CONSTANTS Traits, MaxUses, RegChoices
VARIABLES rg,     \* trait -> its registrations
          cell,   \* trait -> what is published
          prog,   \* thread -> uses, pairs of trait and tag
          at,     \* thread -> the use it is at
          mine,   \* thread -> registry under construction
          seen,   \* thread -> registrations visited
          st,     \* thread -> where it is
          out     \* thread -> outcomes
rvars == <<rg, cell, prog, at, mine, seen, st, out>>
unused == <<regs, published, local, pos, pc, want, got>>

Uses == Traits \X Lookups
Now(t) == prog[t][at[t]]
RInit == /\ rg \in [Traits -> RegChoices] /\ cell = [x \in Traits |-> None]
         /\ prog \in [Threads -> UNION {[1..n -> Uses] : n \in 1..MaxUses}]
         /\ at = [t \in Threads |-> 1] /\ mine = [t \in Threads |-> Empty] /\ seen = [t \in Threads |-> 0]
         /\ st = [t \in Threads |-> "get"] /\ out = [t \in Threads |-> << >>]
         /\ regs = << >> /\ published = None /\ local = None /\ pos = None /\ pc = None /\ want = None /\ got = None

RGet(t) == /\ st[t] = "get"
           /\ st' = [st EXCEPT ![t] = IF cell[Now(t)[1]] = None THEN "build" ELSE "look"]
           /\ mine' = [mine EXCEPT ![t] = Empty] /\ seen' = [seen EXCEPT ![t] = 0]
           /\ UNCHANGED <<rg, cell, prog, at, out, unused>>
RBuild(t) == /\ st[t] = "build"
             /\ LET R == rg[Now(t)[1]] IN
                IF seen[t] < Len(R)
                THEN /\ mine' = [mine EXCEPT ![t] = Insert(@, R[seen[t] + 1], seen[t] + 1)]
                     /\ seen' = [seen EXCEPT ![t] = @ + 1] /\ UNCHANGED st
                ELSE st' = [st EXCEPT ![t] = "publish"] /\ UNCHANGED <<mine, seen>>
             /\ UNCHANGED <<rg, cell, prog, at, out, unused>>
RPublish(t) == /\ st[t] = "publish"
               /\ cell' = [cell EXCEPT ![Now(t)[1]] = IF @ = None THEN mine[t] ELSE @]
               /\ st' = [st EXCEPT ![t] = "look"]
               /\ UNCHANGED <<rg, prog, at, mine, seen, out, unused>>
RLook(t) == /\ st[t] = "look"
            /\ out' = [out EXCEPT ![t] = Append(@, Lookup(cell[Now(t)[1]], Now(t)[2]))]
            /\ IF at[t] = Len(prog[t]) THEN st' = [st EXCEPT ![t] = "done"] /\ UNCHANGED at
               ELSE st' = [st EXCEPT ![t] = "get"] /\ at' = [at EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<rg, cell, prog, mine, seen, unused>>
RStep(t) == RGet(t) \/ RBuild(t) \/ RPublish(t) \/ RLook(t)
RDone == (\A t \in Threads : st[t] = "done") /\ UNCHANGED <<rvars, unused>>
RNext == (\E t \in Threads : RStep(t)) \/ RDone
RSpec == RInit /\ [][RNext]_<<rvars, unused>> /\ \A t \in Threads : WF_<<rvars, unused>>(RStep(t))

MeantIn(x, tag) ==
  LET S == {i \in DOMAIN rg[x] : rg[x][i] = tag}
  IN  CASE S = {} -> <<"unknown">> [] Cardinality(S) > 1 -> <<"non-unique">> [] OTHER -> <<"impl", CHOOSE i \in S : TRUE>>
RAlone == \A t \in Threads : \A i \in DOMAIN out[t] : out[t][i] = MeantIn(prog[t][i][1], prog[t][i][2])
RWhole == \A x \in Traits : cell[x] # None => \A y \in Lookups : Lookup(cell[x], y) = MeantIn(x, y)
RSettled == [][\A x \in Traits : cell[x] # None => cell'[x] = cell[x]]_rvars
RAllFinish == <>(\A t \in Threads : st[t] = "done")
=============================================================================
