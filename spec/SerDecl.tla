------------------------------ MODULE SerDecl ------------------------------
(***************************************************************************)
(* The three wire forms, stated declaratively: a trait object as a tree is *)
(* rewritten into a tree without trait objects.  MCSer shows that the      *)
(* machine of SerMachine puts out exactly the flattened tree.              *)
(*   node: [t |-> token, c |-> children]                                   *)
(***************************************************************************)
EXTENDS SizeMachine

T(t, c) == [t |-> t, c |-> c]
Str(s) == T(<<"str", s>>, << >>)

(* ---- parsing a well-formed stream ---- *)
RECURSIVE PVal(_, _), PItems(_, _, _)
PItems(s, i, acc) ==
  IF s[i][1] = "end" THEN [n |-> acc, i |-> i + 1]
  ELSE LET r == PVal(s, i + 1) IN PItems(s, r.i, Append(acc, r.n))
PVal(s, i) ==
  CASE s[i][1] = "obj" -> LET r == PVal(s, i + 1) IN [n |-> T(s[i], <<r.n>>), i |-> r.i + 1]
    [] s[i][1] \in Prefixes -> LET r == PVal(s, i + 1) IN [n |-> T(s[i], <<r.n>>), i |-> r.i]
    [] s[i][1] \in Openers -> LET r == PItems(s, i + 1, << >>) IN [n |-> T(s[i], r.n), i |-> r.i]
    [] OTHER -> [n |-> T(s[i], << >>), i |-> i + 1]
Parse(s) == PVal(s, 1).n

(* ---- the wire forms ---- *)
Entries(key, tag, es) ==   \* a map whose first entry is the tag
  LET n == ToString(1 + Len(es) \div 2)
  IN  T(<<"map", n, n>>, <<Str(key), Str(tag)>> \o es)

FieldNames(x) == SubSeq(x.t, 5, Len(x.t))
Poison == T(<<"poison">>, << >>)

RECURSIVE OwnText(_)
OwnText(x) == CASE x.t[1] \in {"some", "nstruct"} -> OwnText(x.c[1])
                [] x.t[1] \in {"str", "char"} -> <<x.t[2]>>
                [] OTHER -> << >>

RECURSIVE Pairs(_, _, _, _)
Pairs(ns, cs, key, i) ==
  IF i > Len(ns) THEN << >>
  ELSE (IF ns[i] = key THEN << >> ELSE <<Str(ns[i]), cs[i]>>) \o Pairs(ns, cs, key, i + 1)

RECURSIVE Known(_)
Known(x) == (* sizes that become known in a copied part *)
  T(IF x.t[1] \in {"seq", "map"} /\ x.t[2] = "?" THEN <<x.t[1], "?=", x.t[3]>> ELSE x.t,
    [i \in DOMAIN x.c |-> Known(x.c[i])])

RECURSIVE IntForm(_, _, _)
IntForm(key, tag, x) ==
  CASE x.t[1] \in {"unit", "none", "ustruct"} -> Entries(key, tag, << >>)
    [] x.t[1] = "nstruct" -> IntForm(key, tag, x.c[1])
    [] x.t[1] = "some" -> Entries(key, tag, <<Str(VALUE), x.c[1]>>)
    [] x.t[1] = "uvariant" -> Entries(key, tag, <<Str(x.t[4]), T(<<"unit">>, << >>)>>)
    [] x.t[1] = "nvariant" -> Entries(key, tag, <<Str(x.t[4]), x.c[1]>>)
    [] x.t[1] \in {"seq", "tuple", "tstruct"} -> Entries(key, tag, <<Str(VALUE), Known(x)>>)
    [] x.t[1] = "tvariant" ->
         Entries(key, tag, <<Str(x.t[4]), Known(T(<<"tuple|tstruct", x.t[5], x.t[6]>>, x.c))>>)
    [] x.t[1] = "svariant" ->
         Entries(key, tag, <<Str(x.t[4]), Known(T(<<"struct", "*", x.t[5], x.t[6]>> \o SubSeq(x.t, 7, Len(x.t)), x.c))>>)
    [] x.t[1] = "map" ->
         T(<<"map", Plus(x.t[2], 1), Plus(x.t[3], 1)>>, <<Str(key), Str(tag)>> \o x.c)
    [] x.t[1] = "struct" ->
         IF \E i \in DOMAIN x.c : FieldNames(x)[i] = key /\ OwnText(x.c[i]) # <<tag>>
         THEN Poison
         ELSE Entries(key, tag, Pairs(FieldNames(x), x.c, key, 1))
    [] x.t[1] = "poison" -> Poison
    [] OTHER -> Entries(key, tag, <<Str(VALUE), x>>)

RECURSIVE Form(_)
Form(x) ==
  IF x.t[1] # "obj" THEN T(x.t, [i \in DOMAIN x.c |-> Form(x.c[i])])
  ELSE LET cfg == x.t[2] tag == x.t[3] y == Form(x.c[1])
       IN CASE Cfg[cfg].rep = "ext" -> T(<<"map", "1", "1">>, <<Str(tag), y>>)
            [] Cfg[cfg].rep = "adj" ->
                 T(<<"struct", "*", "2", "2", Cfg[cfg].tag, Cfg[cfg].content>>, <<Str(tag), y>>)
            [] OTHER -> IntForm(Cfg[cfg].tag, tag, y)

RECURSIVE Poisoned(_)
Poisoned(x) == x.t[1] = "poison" \/ \E i \in DOMAIN x.c : Poisoned(x.c[i])

(* ---- flattening ---- *)
IsOpen(t) == t[1] \in Openers
RECURSIVE Flat(_), FlatItems(_, _)
FlatItems(x, i) ==
  IF i > Len(x.c) THEN << >>
  ELSE LET mark == CASE ~IsOpen(x.t) -> << >>
                     [] x.t[1] = "map" -> << IF i % 2 = 1 THEN <<"k">> ELSE <<"v">> >>
                     [] x.t[1] = "struct" -> << <<"f", x.t[4 + i]>> >>
                     [] x.t[1] = "svariant" -> << <<"f", x.t[6 + i]>> >>
                     [] OTHER -> << <<"e">> >>
       IN  mark \o Flat(x.c[i]) \o FlatItems(x, i + 1)
Flat(x) == <<Bare(x.t)>> \o FlatItems(x, 1) \o (IF IsOpen(x.t) THEN << <<"end">> >> ELSE << >>)
=============================================================================
