-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* The arguments of the attribute on traits and on implementations: an     *)
(* automaton that reads them token by token and collects the configuration *)
(* written, and beside it the forms the documentation lists.               *)
(* Tokens: <<"w", word>>, <<"p", "=" or ",">>, <<"s", string literal>>,      *)
(* <<"k", constant of string type>>, <<"x", anything else>>                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

W(x) == <<"w", x>>
S(x) == <<"s", x>>
EQ == <<"p", "=">>
COMMA == <<"p", ",">>

NoCfg == [rep |-> "ext", tag |-> "", content |-> "", hasdef |-> FALSE, def |-> "", deny |-> FALSE]

(* ---------------------------------------------------------------- traits *)
Begin == [at |-> "start", c |-> NoCfg]
Dead(a) == [a EXCEPT !.at = "dead"]
Go(a, q) == [a EXCEPT !.at = q]

TraitStep(a, t) ==
  CASE a.at = "start" -> IF t = W("tag") THEN Go(a, "tag") ELSE Dead(a)
    [] a.at = "tag"   -> IF t = EQ THEN Go(a, "tag=") ELSE Dead(a)
    [] a.at = "tag="  -> IF t[1] = "s" THEN [at |-> "tagged", c |-> [a.c EXCEPT !.rep = "int", !.tag = t[2]]] ELSE Dead(a)
    [] a.at = "tagged" -> IF t = COMMA THEN Go(a, "tag,") ELSE Dead(a)
    [] a.at = "tag,"  -> CASE t = W("content") -> Go(a, "content")
                           [] t = W("default_variant") -> Go(a, "idef")
                           [] OTHER -> Dead(a)
    (* internally tagged: nothing may follow the default *)
    [] a.at = "idef"  -> IF t = EQ THEN Go(a, "idef=") ELSE Dead(a)
    [] a.at = "idef=" -> IF t[1] = "s" THEN [at |-> "idone", c |-> [a.c EXCEPT !.hasdef = TRUE, !.def = t[2]]] ELSE Dead(a)
    [] a.at = "idone" -> IF t = COMMA THEN Go(a, "end") ELSE Dead(a)
    [] a.at = "end"   -> Dead(a)
    (* adjacently tagged *)
    [] a.at = "content" -> IF t = EQ THEN Go(a, "content=") ELSE Dead(a)
    [] a.at = "content=" -> IF t[1] = "s" THEN [at |-> "more", c |-> [a.c EXCEPT !.rep = "adj", !.content = t[2]]] ELSE Dead(a)
    [] a.at = "more" -> IF t = COMMA THEN Go(a, "more,") ELSE Dead(a)
    [] a.at = "more," -> CASE t = W("default_variant") /\ ~a.c.hasdef -> Go(a, "adef")
                           [] t = W("deny_unknown_fields") /\ ~a.c.deny -> [at |-> "more", c |-> [a.c EXCEPT !.deny = TRUE]]
                           [] OTHER -> Dead(a)
    [] a.at = "adef"  -> IF t = EQ THEN Go(a, "adef=") ELSE Dead(a)
    [] a.at = "adef=" -> IF t[1] = "s" THEN [at |-> "more", c |-> [a.c EXCEPT !.hasdef = TRUE, !.def = t[2]]] ELSE Dead(a)
    [] a.at = "dead" -> a

TraitFinal == {"start", "tagged", "tag,", "idone", "end", "more", "more,"}

(* ------------------------------------------------------- implementations *)
ImplBegin == [at |-> "start", name |-> << >>]
ImplStep(a, t) ==
  CASE a.at = "start" -> IF t = W("name") THEN Go(a, "name") ELSE Dead(a)
    [] a.at = "name"  -> IF t = EQ THEN Go(a, "name=") ELSE Dead(a)
    [] a.at = "name=" -> IF t[1] \in {"s", "k"} THEN [at |-> "done", name |-> t] ELSE Dead(a)
    [] a.at = "done"  -> IF t = COMMA THEN Go(a, "end") ELSE Dead(a)
    [] a.at \in {"end", "dead"} -> Dead(a)
ImplFinal == {"start", "done", "end"}

RECURSIVE TraitRun(_, _, _), ImplRun(_, _, _)
TraitRun(a, ts, i) == IF i > Len(ts) THEN a ELSE TraitRun(TraitStep(a, ts[i]), ts, i + 1)
ImplRun(a, ts, i) == IF i > Len(ts) THEN a ELSE ImplRun(ImplStep(a, ts[i]), ts, i + 1)

TraitAccepts(ts) == TraitRun(Begin, ts, 1).at \in TraitFinal
TraitCfg(ts) == TraitRun(Begin, ts, 1).c
ImplAccepts(ts) == ImplRun(ImplBegin, ts, 1).at \in ImplFinal
ImplName(ts) == ImplRun(ImplBegin, ts, 1).name

(* ------------------------------------------------- the documented forms  *)
Options == {<<>>, <<"default_variant">>, <<"deny_unknown_fields">>,
            <<"default_variant", "deny_unknown_fields">>, <<"deny_unknown_fields", "default_variant">>}
Forms == {<<>>, <<"tag">>, <<"tag", "default_variant">>} \cup {<<"tag", "content">> \o o : o \in Options}

Arg(a, s) == IF a = "deny_unknown_fields" THEN <<W(a)>> ELSE <<W(a), EQ, S(s)>>
RECURSIVE Written(_, _)
Written(as, val) == IF as = <<>> THEN <<>>
                    ELSE Arg(Head(as), val[Head(as)]) \o (IF Len(as) > 1 THEN <<COMMA>> ELSE <<>>) \o Written(Tail(as), val)
AllForms(val) == {Written(f, val) : f \in Forms} \cup {Written(f, val) \o <<COMMA>> : f \in Forms \ {<<>>}}

(* string literals are all alike to the grammar *)
Plain(ts) == [i \in DOMAIN ts |-> IF ts[i][1] = "s" THEN S("") ELSE ts[i]]
NoVal == [a \in {"tag", "content", "default_variant"} |-> ""]
Documented(ts) == Plain(ts) \in AllForms(NoVal)

Has(ts, a) == \E i \in DOMAIN ts : ts[i] = W(a)
Given(ts, a) == IF Has(ts, a) THEN ts[(CHOOSE i \in DOMAIN ts : ts[i] = W(a)) + 2][2] ELSE ""
Meant(ts) == [rep |-> IF Has(ts, "content") THEN "adj" ELSE IF Has(ts, "tag") THEN "int" ELSE "ext",
              tag |-> Given(ts, "tag"), content |-> Given(ts, "content"),
              hasdef |-> Has(ts, "default_variant"), def |-> Given(ts, "default_variant"),
              deny |-> Has(ts, "deny_unknown_fields")]
ImplDocumented(ts) ==
  \/ ts = <<>>
  \/ /\ Len(ts) \in {3, 4} /\ ts[1] = W("name") /\ ts[2] = EQ /\ ts[3][1] \in {"s", "k"}
     /\ Len(ts) = 4 => ts[4] = COMMA
=============================================================================
