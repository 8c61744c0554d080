----------------------------- MODULE DeMachine -----------------------------
(***************************************************************************)
(* Deserialization of a trait object as a walk over the entries of the     *)
(* input map, one transition per entry, and what the walk decides at the   *)
(* end.  Unlike DeObj (module Des) it stops at the first thing wrong.      *)
(***************************************************************************)
EXTENDS Des

Walk0(cfg) ==
  [cfg |-> cfg,
   ph |-> "start",      \* start, other (something held back), direct, done
   tag |-> << >>,       \* the tag met
   held |-> << >>,      \* entries kept for the implementation
   cont |-> << >>,      \* adjacent content: item and whether it is held back
   err |-> {}]          \* what was wrong

Stop(w, e) == [w EXCEPT !.err = e, !.ph = "done"]
Failed(w) == w.err # {}

(* the tag, as soon as it is read *)
TakeTag(w, d, ph) ==
  LET te == TagErr(w.cfg, d)
  IN  IF te # {} THEN Stop(w, te) ELSE [w EXCEPT !.tag = <<d.v>>, !.ph = ph]

WalkExt(w, k, v) ==
  IF w.ph = "start"
  THEN LET r == TakeTag(w, k, "direct") IN IF Failed(r) THEN r ELSE [r EXCEPT !.cont = <<[d |-> v, held |-> FALSE]>>]
  ELSE [w EXCEPT !.held = Append(@, <<k, v>>)]

WalkInt(w, k, v, env) ==
  CASE w.ph = "start" /\ KeyIs(k, Cfg[w.cfg].tag) ->
         TakeTag(w, v, IF w.held = << >> THEN "direct" ELSE "behind")
    [] w.ph = "direct" -> [w EXCEPT !.held = Append(@, <<k, v>>)]
    [] OTHER ->
         LET p == << <<k, v>> >> IN
         IF HoldErr(p, IF w.tag = << >> THEN 1 ELSE 0, env) # {} THEN Stop(w, {ANY})
         ELSE [w EXCEPT !.held = @ \o (IF w.tag = << >> THEN p ELSE HeldPairs(p, env))]

WalkAdj(w, k, v, env) ==
  LET C == Cfg[w.cfg] IN
  CASE ~IsText(k) -> Stop(w, {ANY})
    [] k.v = C.tag -> IF w.tag # << >> THEN Stop(w, {<<"duplicate_field", C.tag>>}) ELSE TakeTag(w, v, "start")
    [] k.v = C.content ->
         IF w.cont # << >> THEN Stop(w, {<<"duplicate_field", C.content>>})
         ELSE IF w.tag = << >> /\ ~Bufferable(v) THEN Stop(w, {ANY})
         ELSE [w EXCEPT !.cont = <<[d |-> v, held |-> w.tag = << >>]>>]
    [] OTHER -> IF C.deny THEN Stop(w, {<<"unknown_field", k.v>>})
                ELSE IF Des(IGN, v, env).ok THEN w ELSE Stop(w, {ANY})

WalkStep(w, k, v, env) ==
  IF Failed(w) THEN w
  ELSE CASE Cfg[w.cfg].rep = "ext" -> WalkExt(w, k, v)
         [] Cfg[w.cfg].rep = "int" -> WalkInt(w, k, v, env)
         [] OTHER -> WalkAdj(w, k, v, env)

EnvOf(held, env) == IF held THEN Held(env) ELSE env
Result(w, r) == Outcome(w.cfg, w.tag[1], r, {})

WalkEnd(w, s, env) ==
  LET C == Cfg[w.cfg]
      rep == C.rep
      deflt(miss) == IF C.hasdef THEN TakeTag(w, [k |-> "str", v |-> C.def], "behind") ELSE Stop(w, {<<"missing_field", miss>>})
  IN CASE Failed(w) -> Err(w.err)
       [] rep = "ext" ->
            IF w.ph = "start" THEN AnyErr
            ELSE LET r == Des(s, w.cont[1].d, env)
                 IN  IF r.ok /\ w.held # << >> THEN AnyErr ELSE Result(w, r)
       [] rep = "int" ->
            LET x == IF w.tag # << >> THEN w ELSE deflt(C.tag)
            IN  IF Failed(x) THEN Err(x.err) ELSE Result(x, DesInt(s, x.held, EnvOf(x.ph = "behind", env)))
       [] OTHER ->
            IF w.tag = << >> /\ w.cont = << >>
            THEN Err({<<"missing_field", IF C.hasdef THEN C.content ELSE C.tag>>})
            ELSE LET x == IF w.tag # << >> THEN w ELSE deflt(C.tag)
                 IN  IF Failed(x) THEN Err(x.err)
                     ELSE Result(x, IF x.cont = << >> THEN DesUnit(s)
                                    ELSE Des(s, x.cont[1].d, EnvOf(x.cont[1].held, env)))

(* any further transition only adds what is wrong to the declarative set *)
Same(m, d) == /\ m.ok = d.ok
              /\ m.ok => m.v = d.v
              /\ ~m.ok => (ANY \in d.e \/ m.e \subseteq d.e)
=============================================================================
