------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* The tag of an implementation: the value of its name expression, or the   *)
(* last segment of the path its type is written as.                         *)
(* Prints name expressions with their values, ways to write types with      *)
(* their names, and keys.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, AllKeys, Dump

(* strings, percent escaped *)
Texts == {"", "A", "X", "type", "a b", "%22q%22", "%5C", "%5Cn", "%0A", "%0D%0A", "%00", "%C3%BCn%C3%AF", "%F0%9F%98%80",
          "%7B%7D", "%7B0%7D", "%25", "%2525", "'", "r#x", "a::b", "%3CT%3E", "null", "0", "true", "$crate", "%09", "value",
          "%EF%BB%BF", "e%CC%81", "%C3%A9", "..", "#", "//", "*/",
          "%20A", "A%20", "%20", "%09A%0A", "%0AA", "A%00", "%C2%A0A%C2%A0", "A%E2%80%8B", "AA", "a", "_", "__A", "A_", "-A", "a-b", "A.", "%22A%22", "%22", "%60A%60", "1", "-1", "1.0", "A,B"}
ConstVal == [KONST |-> "K", NAME |-> "const%201", S |-> "const%202", T2 |-> "const%203"]

Leaves == {<<"lit", s>> : s \in Texts} \cup {<<"const", c>> : c \in DOMAIN ConstVal} \cup {<<"assoc", "As">>, <<"stringify", "Word">>, <<"raw", "%22r%22">>}
Few == {<<"lit", "">>, <<"lit", "%22q%22">>, <<"lit", "a::b">>, <<"const", "KONST">>, <<"assoc", "As">>}
(* what can stand around an expression *)
Around(e) == {<<"paren", e>>, <<"block", e>>, <<"constblock", e>>, <<"macro", e>>, <<"call", e>>, <<"deref", e>>, <<"method", e>>}
Two(e, f) == {<<"if", TRUE, e, f>>, <<"if", FALSE, e, f>>, <<"match", e, f>>, <<"index", 0, e, f>>, <<"index", 1, e, f>>}
Literal(e) == e[1] = "lit" \/ e[1] = "concat"
Over(E) == UNION {Around(e) : e \in E} \cup UNION {Two(e, f) : e \in E, f \in Few}
           \cup {<<"concat", e, f>> : e \in {x \in E : Literal(x)}, f \in {x \in E : x[1] = "lit"}}
RECURSIVE Exprs(_)
Exprs(n) == IF n = 0 THEN Leaves ELSE IF n = 1 THEN Over(Leaves) ELSE Over(Over(Few))

RECURSIVE Eval(_)
Eval(e) ==
  CASE e[1] \in {"lit", "stringify", "raw"} -> e[2]
    [] e[1] = "const" -> ConstVal[e[2]]
    [] e[1] = "assoc" -> "assoc%20const"
    [] e[1] \in {"paren", "block", "constblock", "macro", "call", "deref", "method"} -> Eval(e[2])
    [] e[1] = "if" -> IF e[2] THEN Eval(e[3]) ELSE Eval(e[4])
    [] e[1] = "match" -> Eval(e[2])
    [] e[1] = "index" -> IF e[2] = 0 THEN Eval(e[3]) ELSE Eval(e[4])
    [] e[1] = "concat" -> Eval(e[2]) \o Eval(e[3])

(* types: how the path starts, its last segment, the arguments, what macros it comes through *)
Prefixes == {<<>>, <<"self">>, <<"m">>, <<"super", "prelude", "m">>, <<"crate", "prelude", "m">>, <<"self", "m">>, <<"", "krate", "prelude", "m">>}
Lasts == {"X", "Y", "Uni%C3%A9", "Alias"}
ArgsOf == [G |-> {"u8", "A", "m::Y", "Vec<m::G<u8>>", "(u8, m::Y)", "dyn Other", "fn(u8) -> m::Y", "<A as Proj>::Out", "[m::Y; 2]", "&'static str", ":: u8"},
           K |-> {"3", "{ 1 + 2 }"}, L |-> {"'static"}]
Through == {"", "ty", "ident", "path", "tyty"}
Types == {[pre |-> p, last |-> l, args |-> "", thru |-> t] : p \in Prefixes, l \in Lasts, t \in Through}
         \cup UNION {{[pre |-> p, last |-> l, args |-> a, thru |-> t] : p \in Prefixes, a \in ArgsOf[l], t \in Through} : l \in DOMAIN ArgsOf}
TypeName(t) == t.last
(* an identifier cannot be handed to a macro with a path or arguments *)
Writable(t) == t.thru = "ident" => t.pre = <<>> /\ t.args = ""

Keys == {k \in [rep : {"ext", "int", "adj"}, tag : Texts, content : Texts, hasdef : BOOLEAN, deny : BOOLEAN, style : 0..2] :
           /\ k.rep = "ext" => k.tag = "" /\ ~k.hasdef
           /\ k.rep # "adj" => k.content = "" /\ ~k.deny
           /\ k.rep = "adj" => k.tag # k.content /\ (AllKeys \/ k.tag \in {"type", "%22q%22"} \/ k.content \in {"", "%5C", "%C3%A9"})
           /\ AllKeys \/ k.style = 0 \/ k.tag = "%C3%A9"}

VARIABLES what, x
vars == <<what, x>>
Init == \/ what = "expr" /\ \E n \in 0..Depth : x \in Exprs(n)
        \/ what = "type" /\ x \in {t \in Types : Writable(t)}
        \/ what = "keys" /\ x \in Keys
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* the value does not depend on what the expression is wrapped in; the name not on prefix, arguments or macros *)
Laws == CASE what = "expr" -> \A w \in Around(x) : Eval(w) = Eval(x)
          [] what = "type" -> \A p \in Prefixes : TypeName([x EXCEPT !.pre = p, !.args = "u8", !.thru = ""]) = TypeName(x)
          [] OTHER -> TRUE
Emit == IF Dump THEN PrintT("D " \o ToJson([what |-> what, x |-> x, due |-> CASE what = "expr" -> Eval(x) [] what = "type" -> TypeName(x) [] OTHER -> ""]))
        ELSE TRUE
=============================================================================
