------------------------------- MODULE MCArgs -------------------------------
(***************************************************************************)
(* The automaton against the documented forms, for all argument sequences  *)
(* up to a length, for everything one edit (insertion, removal, exchange,  *)
(* replacement) away from a form, and for all lists of complete arguments. *)
(* Prints every sequence with its verdict and configuration.               *)
(***************************************************************************)
EXTENDS Args, TLC, Json
CONSTANTS MaxLen, MaxArgs, Second, Dump

Words == {"tag", "content", "default_variant", "deny_unknown_fields", "name"}
Alphabet == {W(w) : w \in Words} \cup {EQ, COMMA, S("s"), <<"k", "KONST">>, <<"x", "1">>, <<"x", "other">>, <<"x", "()">>}
Val == [a \in {"tag", "content", "default_variant"} |-> CASE a = "tag" -> "t" [] a = "content" -> "c" [] OTHER -> "d"]
ImplForms == {<<>>, <<W("name"), EQ, S("n")>>, <<W("name"), EQ, S("n"), COMMA>>, <<W("name"), EQ, <<"k", "KONST">>>>}
Base(kind) == IF kind = "trait" THEN AllForms(Val) ELSE ImplForms

Remove(ts, i) == SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))
Insert(ts, i, t) == SubSeq(ts, 1, i) \o <<t>> \o SubSeq(ts, i + 1, Len(ts))
Edit1(ts) == {Remove(ts, i) : i \in DOMAIN ts}
             \cup {Insert(ts, i, t) : i \in 0..Len(ts), t \in Alphabet}
             \cup {[ts EXCEPT ![i] = t] : i \in DOMAIN ts, t \in Alphabet}
             \cup {[ts EXCEPT ![i] = ts[i + 1], ![i + 1] = ts[i]] : i \in 1..(Len(ts) - 1)}

(* lists of complete arguments *)
ArgNames == {"tag", "content", "default_variant", "deny_unknown_fields", "name"}
ArgLists == UNION {[1..n -> ArgNames] : n \in 0..MaxArgs}
Val2 == [a \in ArgNames |-> IF a \in DOMAIN Val THEN Val[a] ELSE "n"]
Listed == UNION {{Written(l, Val2), Written(l, Val2) \o <<COMMA>>} : l \in ArgLists}

VARIABLES kind, ts, how
vars == <<kind, ts, how>>

Init == /\ kind \in {"trait", "impl"}
        /\ \/ ts = <<>> /\ how = "grow"
           \/ ts \in Base(kind) /\ how = "form"
           \/ ts \in Listed /\ how = "list"

Next == /\ UNCHANGED kind
        /\ \/ how = "grow" /\ Len(ts) < MaxLen /\ \E t \in Alphabet : ts' = Append(ts, t) /\ how' = how
           \/ how = "form" /\ ts' \in Edit1(ts) /\ how' = IF Second THEN "edit" ELSE "edit2"
           \/ how = "edit" /\ ts' \in {Remove(ts, i) : i \in DOMAIN ts} \cup {Insert(ts, i, COMMA) : i \in 0..Len(ts)} /\ how' = "edit2"
Spec == Init /\ [][Next]_vars

Accepted == IF kind = "trait" THEN TraitAccepts(ts) ELSE ImplAccepts(ts)
Agree == IF kind = "trait" THEN TraitAccepts(ts) = Documented(ts) /\ (TraitAccepts(ts) => TraitCfg(ts) = Meant(ts))
         ELSE ImplAccepts(ts) = ImplDocumented(ts)

(* once rejected, rejected whatever follows; no form is a prefix that only its trailing comma saves *)
Final == IF kind = "trait" /\ TraitRun(Begin, ts, 1).at = "dead" THEN ~Documented(ts) ELSE TRUE

Emit == IF Dump THEN PrintT("D " \o ToJson([kind |-> kind, ts |-> ts, ok |-> Accepted,
                                            cfg |-> IF kind = "trait" /\ Accepted THEN TraitCfg(ts) ELSE NoCfg,
                                            name |-> IF kind = "impl" /\ Accepted THEN ImplName(ts) ELSE <<>>]))
        ELSE TRUE
=============================================================================
