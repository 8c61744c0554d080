-------------------------------- MODULE Des --------------------------------
(***************************************************************************)
(* What an implementation's request (schema) obtains from an input item    *)
(* (document): directly, from a held back copy, or through the layer of an *)
(* internally tagged trait.                                                *)
(*                                                                          *)
(* Schemas   [k, v, c, f]   the request, its name, parts and field names    *)
(* Documents [k, v, c]      items as a format offers them; strb/bytesb are  *)
(*                          borrowed, stro/byteso owned, str/bytes          *)
(*                          transient; bytes carry their text in `t`, map   *)
(*                          items are keys and values in turn; enum is an   *)
(*                          item offered as enum, bad is unreadable         *)
(* Values    [k, v, c]      what the implementation gets to see             *)
(* Results   [ok, v, e]     e: the errors that may be reported,             *)
(*                          <<"any","">> stands for every error             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Configs

Leaf(k, v) == [k |-> k, v |-> v, c |-> << >>]
Br(k, v, c) == [k |-> k, v |-> v, c |-> c]
Nil == Leaf("", "")

Ok(v) == [ok |-> TRUE, v |-> v, e |-> {}]
Err(e) == [ok |-> FALSE, v |-> Nil, e |-> e]
ANY == <<"any", "">>
INJ == <<"inj", "">>   \* the implementation's own failure
AnyErr == Err({ANY})

Ints   == {"i8","i16","i32","i64","i128","u8","u16","u32","u64","u128"}
Floats == {"f32","f64"}
Strs   == {"str","strb","stro"}
Byts   == {"bytes","bytesb","byteso"}
Idx    == {"u8","u16","u32","u64"}

(* the item itself, as any visitor sees it *)
Seen(d) == Leaf(CASE d.k = "strb" -> "bstr" [] d.k \in Strs -> "str"
                  [] d.k \in Byts -> "bytes" [] OTHER -> d.k, d.v)
(* whether a key was borrowed is not observed *)
RECURSIVE SeenKey(_), SeenKeys(_)
SeenKey(v) == [k |-> IF v.k = "bstr" THEN "str" ELSE v.k, v |-> v.v, c |-> [i \in DOMAIN v.c |-> SeenKey(v.c[i])]]
SeenKeys(v) == [k |-> v.k, v |-> v.v,
                c |-> [i \in DOMAIN v.c |-> IF v.k = "map" /\ i % 2 = 1 THEN SeenKey(v.c[i]) ELSE SeenKeys(v.c[i])]]

(* can it be held back at all? *)
RECURSIVE Bufferable(_)
Bufferable(d) ==
  d.k \notin {"bad", "enum"} /\ \A i \in DOMAIN d.c : Bufferable(d.c[i])

NumSet == 0..64
AsNum == LET S == {ToString(n) : n \in NumSet}
         IN  [s \in S |-> CHOOSE n \in NumSet : ToString(n) = s]
Small(s) == s \in DOMAIN AsNum
RECURSIVE Count(_)
Count(s) == IF Len(s) = 1 THEN AsNum[s] ELSE 10 * Count(SubSeq(s, 1, Len(s) - 1)) + AsNum[SubSeq(s, Len(s), Len(s))]

Pairs(c) == [i \in 1..(Len(c) \div 2) |-> <<c[2*i - 1], c[2*i]>>]
Flat(ps) == [i \in 1..(2 * Len(ps)) |-> ps[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
Nth(c, i) == IF i <= Len(c) THEN c[i] ELSE c[Len(c)]
Index(f, n) == IF \E i \in DOMAIN f : f[i] = n
               THEN CHOOSE i \in DOMAIN f : f[i] = n /\ \A j \in 1..(i-1) : f[j] # n ELSE 0

IsText(d) == d.k \in Strs
TextOf(d) == IF d.k \in Strs THEN d.v ELSE d.t

FAILING == [k |-> "fail", v |-> "", c |-> << >>, f |-> << >>]
ANYS    == [k |-> "any", v |-> "", c |-> << >>, f |-> << >>]
STRS    == [k |-> "str", v |-> "", c |-> << >>, f |-> << >>]
IGN     == [k |-> "ignored", v |-> "", c |-> << >>, f |-> << >>]
UNITS   == [k |-> "unit", v |-> "", c |-> << >>, f |-> << >>]

(* field or variant by text, bytes or position: index, 0 unknown, -1 error *)
UNKNOWN == 0
NOKEY   == 1000
Named(f, d, positions) ==
  CASE d.k \in Strs -> Index(f, d.v)
    [] d.k \in Byts -> IF d.u THEN Index(f, d.t) ELSE NOKEY
    [] d.k \in Idx /\ positions ->
         IF Small(d.v) /\ AsNum[d.v] < Len(f) THEN AsNum[d.v] + 1 ELSE UNKNOWN
    [] OTHER -> NOKEY

(***************************************************************************)
(* The first failure of a list of results, or all their values             *)
(***************************************************************************)
AllOk(rs) == \A i \in DOMAIN rs : rs[i].ok
FirstErr(rs) == rs[CHOOSE i \in DOMAIN rs : ~rs[i].ok /\ \A j \in 1..(i-1) : rs[j].ok]
Collect(rs, v) == IF AllOk(rs) THEN Ok(v) ELSE FirstErr(rs)
Vals(rs) == [i \in DOMAIN rs |-> rs[i].v]

RECURSIVE Des(_, _, _), AnyDes(_), DesSeq(_, _, _), DesMap(_, _, _, _), DesStruct(_, _, _, _, _),
          DesVariant(_, _, _, _, _), DesInt(_, _, _), DeObj(_, _, _, _), DesUnit(_), Fields(_, _, _, _, _, _)

(* whatever it is, structurally *)
AnyDes(d) ==
  CASE d.k \in {"bad", "enum"} -> AnyErr
    [] d.k = "seq" -> LET rs == [i \in DOMAIN d.c |-> AnyDes(d.c[i])]
                      IN  Collect(rs, Br("seq", "", Vals(rs)))
    [] d.k = "map" -> LET rs == [i \in DOMAIN d.c |-> AnyDes(d.c[i])]
                      IN  Collect(rs, Br("map", "", [i \in DOMAIN rs |-> IF i % 2 = 1 THEN SeenKey(rs[i].v) ELSE rs[i].v]))
    [] d.k = "some" -> LET r == AnyDes(d.c[1]) IN IF r.ok THEN Ok(Br("some", "", <<r.v>>)) ELSE r
    [] d.k = "newtype" -> LET r == AnyDes(d.c[1]) IN IF r.ok THEN Ok(Br("nstruct", "", <<r.v>>)) ELSE r
    [] OTHER -> Ok(Seen(d))

(* elements: the i-th by the i-th schema, the last schema for the rest;     *)
(* `max` is how many are asked for at most, surplus is an error             *)
SeqOf(ss, ds, env) == [i \in DOMAIN ds |-> Des(IF ss = << >> THEN FAILING ELSE Nth(ss, i), ds[i], env)]
DesSeq(s, ds, env) ==
  CASE s.k = "seq" -> LET rs == SeqOf(s.c, ds, env) IN Collect(rs, Br("seq", "", Vals(rs)))
    [] s.k = "take" ->
         LET n == Count(s.v)
             rs == SeqOf(s.c, SubSeq(ds, 1, IF n < Len(ds) THEN n ELSE Len(ds)), env)
         IN  IF ~AllOk(rs) THEN FirstErr(rs) ELSE IF Len(ds) > n THEN AnyErr ELSE Ok(Br("seq", "", Vals(rs)))
    [] OTHER ->
         LET n == Len(s.c)
             rs == SeqOf(s.c, SubSeq(ds, 1, IF n < Len(ds) THEN n ELSE Len(ds)), env)
         IN  IF ~AllOk(rs) THEN FirstErr(rs) ELSE IF Len(ds) # n THEN AnyErr
             ELSE Ok(Br(CASE s.k = "tuple" -> "tuple" [] OTHER -> s.k, s.v, Vals(rs)))

(* a key of an internally tagged map is text unless asked for otherwise *)
KeyOf(s, intl) == IF intl /\ s.k \in {"any", "ident", "str", "ignored"}
                  THEN IF s.k = "ignored" THEN [s EXCEPT !.k = "strign"] ELSE STRS ELSE s
DesKey(s, d, env, intl) ==
  LET q == KeyOf(s, intl)
  IN  IF q.k # "strign" THEN Des(q, d, env)
      ELSE IF Des(STRS, d, env).ok THEN Ok(Leaf("ignored", "")) ELSE AnyErr

DesMap(s, ps, env, intl) ==
  LET n == IF s.k = "mtake" THEN (IF Count(s.v) < Len(ps) THEN Count(s.v) ELSE Len(ps)) ELSE Len(ps)
      sp == Pairs(s.c)
      one(i) == IF sp = << >> THEN <<FAILING, FAILING>> ELSE Nth(sp, i)
      rs == [j \in 1..(2*n) |->
               IF j % 2 = 1 THEN DesKey(one((j+1) \div 2)[1], ps[(j+1) \div 2][1], env, intl)
                            ELSE Des(one(j \div 2)[2], ps[j \div 2][2], env)]
  IN  IF ~AllOk(rs) THEN FirstErr(rs)
      ELSE IF n < Len(ps) THEN AnyErr
      ELSE Ok(Br("map", "", [j \in DOMAIN rs |-> IF j % 2 = 1 THEN SeenKey(rs[j].v) ELSE rs[j].v]))

(* fields from entries, one after the other *)
Fields(s, ps, i, got, env, positions) ==
  IF i > Len(ps) THEN
    LET miss == {j \in DOMAIN s.c : j \notin DOMAIN got}
    IN  IF \E j \in miss : s.c[j].k # "option" THEN AnyErr
        ELSE Ok([j \in DOMAIN s.c |-> IF j \in DOMAIN got THEN got[j] ELSE Leaf("none", "")])
  ELSE
    LET n == Named(s.f, ps[i][1], positions)
    IN CASE n = NOKEY -> AnyErr
         [] n = UNKNOWN -> IF s.k = "structdeny" THEN AnyErr
                           ELSE LET r == Des(IGN, ps[i][2], env)
                                IN  IF r.ok THEN Fields(s, ps, i + 1, got, env, positions) ELSE r
         [] n \in DOMAIN got -> AnyErr
         [] OTHER -> LET r == Des(s.c[n], ps[i][2], env)
                     IN  IF r.ok THEN Fields(s, ps, i + 1, got @@ (n :> r.v), env, positions) ELSE r

DesStruct(s, kind, ps, env, positions) ==
  LET r == Fields(s, ps, 1, << >>, env, positions)
  IN  IF r.ok THEN Ok(Br(kind, s.v, r.v)) ELSE r
DesFixed(s, kind, name, ds, env) ==
  LET n == Len(s.c)
      rs == SeqOf(s.c, SubSeq(ds, 1, IF n < Len(ds) THEN n ELSE Len(ds)), env)
  IN  IF ~AllOk(rs) THEN FirstErr(rs) ELSE IF Len(ds) # n THEN AnyErr ELSE Ok(Br(kind, name, Vals(rs)))

(* variant w (schema unit, newtype, tuple, struct) named n; ds: << >> or    *)
(* the payload                                                              *)
DesVariant(w, n, ds, env, intl) ==
  CASE w.k = "unit" -> IF ds = << >> THEN Ok(Leaf("uvariant", n))
                       ELSE LET r == Des(UNITS, ds[1], env)
                            IN  IF r.ok THEN Ok(Leaf("uvariant", n)) ELSE r
    [] ds = << >> -> AnyErr
    [] w.k = "newtype" -> LET r == Des(w.c[1], ds[1], env)
                          IN  IF r.ok THEN Ok(Br("nvariant", n, <<r.v>>)) ELSE r
    [] w.k = "tuple" -> IF ds[1].k = "seq" THEN DesFixed(w, "tvariant", n, ds[1].c, env) ELSE AnyErr
    [] OTHER -> CASE ds[1].k = "map" -> DesStruct([w EXCEPT !.v = n], "svariant", Pairs(ds[1].c), env, TRUE)
                  [] ds[1].k = "seq" -> DesFixed(w, "svariant", n, ds[1].c, env)
                  [] OTHER -> AnyErr

DesEnum(s, kd, ds, env, positions) ==
  LET n == Named(s.f, kd, positions)
  IN  IF n \in {NOKEY, UNKNOWN} THEN AnyErr ELSE DesVariant(s.c[n], s.f[n], ds, env, FALSE)

(***************************************************************************)
(* Request s on item d.  env.hr: the format's readability; env.buf: from a  *)
(* held back copy.                                                          *)
(***************************************************************************)
Des(s, d, env) ==
  LET visit(ks) == IF d.k \in ks THEN Ok(Seen(d)) ELSE AnyErr IN
  CASE s.k = "fail" -> Err({INJ})
    [] s.k = "failafter" -> LET r == Des(s.c[1], d, env) IN IF r.ok THEN Err({INJ}) ELSE r
    [] s.k = "obj" -> DeObj(s.v, s.c[1], d, env)
    [] s.k = "nstruct" -> LET r == Des(s.c[1], IF d.k = "newtype" THEN d.c[1] ELSE d, env)
                          IN  IF d.k = "bad" THEN AnyErr ELSE IF r.ok THEN Ok(Br("nstruct", s.v, <<r.v>>)) ELSE r
    [] d.k = "bad" -> AnyErr
    [] s.k \in Ints -> visit(Ints)
    [] s.k \in Floats -> visit(Ints \cup Floats)
    [] s.k = "bool" -> visit({"bool"})
    [] s.k = "char" -> visit({"char"} \cup Strs)
    [] s.k \in {"str", "string"} -> visit(Strs \cup Byts)
    [] s.k \in {"bytes", "bytebuf"} -> IF d.k = "seq" THEN AnyDes(d) ELSE visit(Strs \cup Byts)
    [] s.k = "ident" -> visit(Strs \cup Byts \cup Idx)
    [] s.k = "strb" -> visit({"strb"})
    [] s.k = "bytesb" -> IF d.k = "strb" THEN Ok(Leaf("bytes", d.t)) ELSE visit({"bytesb"})
    [] s.k = "hr" -> IF d.k = "bool" THEN Ok(Br("hrseen", IF env.hr THEN "true" ELSE "false", <<Seen(d)>>)) ELSE AnyErr
    [] s.k = "unit" -> visit({"unit"})
    [] s.k = "ustruct" -> IF d.k = "unit" \/ (env.buf /\ d.k = "map" /\ d.c = << >>) THEN Ok(Leaf("ustruct", s.v)) ELSE AnyErr
    [] s.k = "option" ->
         CASE d.k \in {"none", "unit"} -> Ok(Leaf("none", ""))
           [] OTHER -> LET r == Des(s.c[1], IF d.k = "some" THEN d.c[1] ELSE d, env)
                       IN  IF r.ok THEN Ok(Br("some", "", <<r.v>>)) ELSE r
    [] s.k \in {"seq", "take", "tuple", "tstruct"} -> IF d.k = "seq" THEN DesSeq(s, d.c, env) ELSE AnyErr
    [] s.k \in {"map", "mtake"} -> IF d.k = "map" THEN DesMap(s, Pairs(d.c), env, FALSE) ELSE AnyErr
    [] s.k \in {"struct", "structdeny"} ->
         CASE d.k = "map" -> DesStruct(s, "struct", Pairs(d.c), env, TRUE)
           [] d.k = "seq" -> DesFixed(s, "struct", s.v, d.c, env)
           [] OTHER -> AnyErr
    [] s.k = "enum" ->
         CASE d.k \in Strs -> DesEnum(s, d, << >>, env, TRUE)
           [] d.k = "map" /\ Len(d.c) = 2 -> DesEnum(s, d.c[1], <<d.c[2]>>, env, TRUE)
           [] d.k = "enum" -> DesEnum(s, d.c[1], <<d.c[2]>>, env, TRUE)
           [] OTHER -> AnyErr
    [] s.k = "any" -> AnyDes(d)
    [] s.k = "ignored" -> Ok(Leaf("ignored", ""))
    [] OTHER -> Assert(FALSE, <<"schema", s.k>>)

(***************************************************************************)
(* Request s on the entries an internally tagged map has besides the tag   *)
(***************************************************************************)
VALUE == "value"
DefaultKey(d) == IsText(d) /\ d.v = VALUE
DesInt(s, ps, env) ==
  LET one(r) == IF r.ok /\ Len(ps) > 1 THEN AnyErr ELSE r IN
  CASE s.k = "fail" -> Err({INJ})
    [] s.k = "failafter" -> LET r == DesInt(s.c[1], ps, env) IN IF r.ok THEN Err({INJ}) ELSE r
    [] s.k = "obj" -> DeObj(s.v, s.c[1], Br("map", "", Flat(ps)), env)
    [] s.k = "nstruct" -> LET r == DesInt(s.c[1], ps, env) IN IF r.ok THEN Ok(Br("nstruct", s.v, <<r.v>>)) ELSE r
    [] s.k \in {"unit", "ustruct"} -> IF ps = << >> THEN Ok(Leaf(s.k, s.v)) ELSE AnyErr
    [] s.k = "option" ->
         IF ps = << >> THEN Ok(Leaf("none", ""))
         ELSE IF ~DefaultKey(ps[1][1]) THEN AnyErr
         ELSE LET r == Des(s.c[1], ps[1][2], env) IN IF r.ok THEN one(Ok(Br("some", "", <<r.v>>))) ELSE r
    [] s.k = "any" -> DesMap([ANYS EXCEPT !.k = "map", !.c = <<ANYS, ANYS>>], ps, env, TRUE)
    [] s.k \in {"map", "mtake"} -> DesMap(s, ps, env, TRUE)
    [] s.k \in {"struct", "structdeny"} -> DesStruct(s, "struct", ps, env, FALSE)
    [] s.k = "enum" ->
         IF ps = << >> THEN AnyErr ELSE one(DesEnum(s, ps[1][1], <<ps[1][2]>>, env, FALSE))
    [] s.k = "ignored" ->
         IF ps = << >> THEN Ok(Leaf("ignored", ""))
         ELSE IF ~DefaultKey(ps[1][1]) THEN AnyErr
         ELSE one(Des(IGN, ps[1][2], env))
    [] OTHER ->   \* a single value, under its own key
         IF ps = << >> THEN AnyErr ELSE IF ~DefaultKey(ps[1][1]) THEN AnyErr
         ELSE one(Des(s, ps[1][2], env))

(* a missing content stands for a unit *)
Leaves == Ints \cup Floats \cup {"bool","char","str","string","bytes","bytebuf","ident"}
DesUnit(s) ==
  CASE s.k \in Leaves \cup {"any", "unit"} -> Ok(Leaf("unit", ""))
    [] s.k = "ustruct" -> Ok(Leaf("ustruct", s.v))
    [] s.k = "option" -> Ok(Leaf("none", ""))
    [] s.k = "ignored" -> Ok(Leaf("ignored", ""))
    [] s.k = "fail" -> Err({INJ})
    [] s.k = "failafter" -> LET r == DesUnit(s.c[1]) IN IF r.ok THEN Err({INJ}) ELSE r
    [] OTHER -> AnyErr

(***************************************************************************)
(* A trait object of trait cfg whose implementation requests s, from d.     *)
(* Everything that is wrong with the input is collected; any of it may be   *)
(* the error that is reported.                                              *)
(***************************************************************************)
LookupErr(cfg, tag) ==
  CASE tag \in Cfg[cfg].uniq -> {}
    [] tag \in Cfg[cfg].dups -> {<<"custom", tag>>}
    [] OTHER -> {<<"unknown_variant", tag>>}
TagErr(cfg, d) == IF IsText(d) THEN LookupErr(cfg, d.v) ELSE {ANY}

(* outcome: the implementation's, if nothing else is wrong *)
Outcome(cfg, tag, r, errs) ==
  LET e == errs \cup {IF x = INJ THEN INJ ELSE ANY : x \in r.e}
  IN  IF e = {} THEN Ok(Br("obj", cfg \o "|" \o tag, <<r.v>>)) ELSE Err(e)
Nothing == [ok |-> TRUE, v |-> Nil, e |-> {}]

KeyIs(d, key) == IsText(d) /\ d.v = key
At(ps, key) == {i \in DOMAIN ps : KeyIs(ps[i][1], key)}
FirstOf(S) == CHOOSE i \in S : \A j \in S : i <= j
Without(ps, i) == SubSeq(ps, 1, i - 1) \o SubSeq(ps, i + 1, Len(ps))
Held(env) == [env EXCEPT !.buf = TRUE]
(* keys that are not text can not be held back: a recorded finding (K2);    *)
(* env.k2 is what the code does, otherwise what should be: keys in front of *)
(* the tag (the first `p`) have to be text, those behind may also be bytes  *)
(* that are text, and turn into text                                        *)
TextKeys(ps) == \A i \in DOMAIN ps : IsText(ps[i][1])
AsText(d) == IsText(d) \/ IF d.k \in Byts THEN d.u ELSE FALSE
HeldKeys(ps, p) == \A i \in DOMAIN ps : IF i <= p THEN IsText(ps[i][1]) ELSE AsText(ps[i][1])
HoldErr(ps, p, env) ==
  IF (\A i \in DOMAIN ps : Bufferable(ps[i][1]) /\ Bufferable(ps[i][2])) /\ (env.k2 => HeldKeys(ps, p))
  THEN {} ELSE {ANY}
HoldNote(ps) == IF TextKeys(ps) THEN {} ELSE {ANY}
HeldPairs(ps, env) ==
  IF ~env.k2 THEN ps
  ELSE [i \in DOMAIN ps |-> <<IF ps[i][1].k \in Byts THEN [k |-> "str", v |-> ps[i][1].t, c |-> << >>, t |-> ps[i][1].v, u |-> TRUE]
                              ELSE ps[i][1], ps[i][2]>>]

DeExt(cfg, s, ps, env) ==
  IF ps = << >> THEN AnyErr
  ELSE LET k == ps[1][1]
           te == TagErr(cfg, k)
       IN  Outcome(cfg, k.v, IF te = {} THEN Des(s, ps[1][2], env) ELSE Nothing,
                   te \cup (IF Len(ps) > 1 THEN {ANY} ELSE {}))

DeInt(cfg, s, ps, env) ==
  LET C == Cfg[cfg]
      T == At(ps, C.tag)
  IN  IF T = {} THEN
        LET he == HoldErr(ps, Len(ps), env)
        IN  IF ~C.hasdef THEN Err({<<"missing_field", C.tag>>} \cup he \cup HoldNote(ps))
            ELSE LET te == LookupErr(cfg, C.def)
                 IN  Outcome(cfg, C.def, IF te = {} THEN DesInt(s, ps, Held(env)) ELSE Nothing, te \cup he)
      ELSE LET p == FirstOf(T)
               rest == Without(ps, p)
               tag == ps[p][2]
               te == TagErr(cfg, tag)
               he == IF p = 1 THEN {} ELSE HoldErr(rest, p - 1, env)
           IN  Outcome(cfg, tag.v, IF te # {} THEN Nothing
                              ELSE IF p = 1 THEN DesInt(s, rest, env) ELSE IF he # {} THEN Nothing ELSE DesInt(s, HeldPairs(rest, env), Held(env)), te \cup he)

DeAdj(cfg, s, ps, env) ==
  LET C == Cfg[cfg]
      T == At(ps, C.tag)
      K == At(ps, C.content)
      other == {i \in DOMAIN ps : i \notin T \cup K}
      bad == (IF \E i \in DOMAIN ps : ~IsText(ps[i][1]) THEN {ANY} ELSE {})
             \cup UNION {IF ~IsText(ps[i][1]) THEN {}
                         ELSE IF C.deny THEN {<<"unknown_field", ps[i][1].v>>}
                         ELSE Des(IGN, ps[i][2], env).e : i \in other}
             \cup (IF Cardinality(T) > 1 THEN {<<"duplicate_field", C.tag>>} ELSE {})
             \cup (IF Cardinality(K) > 1 THEN {<<"duplicate_field", C.content>>} ELSE {})
  IN  IF T = {} /\ K = {}
      THEN Err(bad \cup {<<"missing_field", IF C.hasdef THEN C.content ELSE C.tag>>})
      ELSE IF T = {} /\ ~C.hasdef THEN Err(bad \cup {<<"missing_field", C.tag>>} \cup
                (IF Bufferable(ps[FirstOf(K)][2]) THEN {} ELSE {ANY}))
      ELSE LET tag == IF T = {} THEN [k |-> "str", v |-> C.def] ELSE ps[FirstOf(T)][2]
               te == TagErr(cfg, tag)
               held == K # {} /\ (IF T = {} THEN TRUE ELSE FirstOf(K) < FirstOf(T))
               cont == ps[FirstOf(K)][2]
               r == IF te # {} THEN Nothing
                    ELSE IF K = {} THEN DesUnit(s)
                    ELSE Des(s, cont, IF held THEN Held(env) ELSE env)
               he == IF held THEN (IF Bufferable(cont) THEN {} ELSE {ANY}) ELSE {}
           IN  Outcome(cfg, tag.v, r, te \cup he \cup bad)

DeAdjSeq(cfg, s, ds, env) ==
  IF ds = << >> THEN AnyErr
  ELSE LET te == TagErr(cfg, ds[1])
           r == IF te = {} /\ Len(ds) >= 2 THEN Des(s, ds[2], env) ELSE Nothing
       IN  Outcome(cfg, ds[1].v, r, te \cup (IF Len(ds) # 2 THEN {ANY} ELSE {}))

DeObj(cfg, s, d, env) ==
  LET rep == Cfg[cfg].rep
  IN CASE rep = "adj" /\ d.k = "seq" -> DeAdjSeq(cfg, s, d.c, env)
       [] d.k # "map" -> AnyErr
       [] rep = "ext" -> DeExt(cfg, s, Pairs(d.c), env)
       [] rep = "int" -> DeInt(cfg, s, Pairs(d.c), env)
       [] OTHER -> DeAdj(cfg, s, Pairs(d.c), env)
=============================================================================
