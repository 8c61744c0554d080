-------------------------------- MODULE MCDe --------------------------------
(***************************************************************************)
(* Every input map over a small alphabet of keys and items, for every kind *)
(* of implementation: the walk over the entries agrees with what the input *)
(* means as a whole (DeObj), and the guarantees of C09 to C12 follow.      *)
(***************************************************************************)
EXTENDS DeMachine, Json

CONSTANTS MaxLen,     \* entries
          Cfgs,       \* traits
          Dump

Hex == [A |-> "41", B |-> "42", dup |-> "647570", nobody |-> "6e6f626f6479", x |-> "78", y |-> "79", value |-> "76616c7565",
        V |-> "56", zz |-> "7a7a", type |-> "74797065", t |-> "74", c |-> "63"]
HexOf(v) == IF v \in DOMAIN Hex THEN Hex[v] ELSE ""
St(v) == [k |-> "str", v |-> v, c |-> << >>, t |-> HexOf(v)]
Lf(k, v) == [k |-> k, v |-> v, c |-> << >>]
By(v) == [k |-> "bytes", v |-> HexOf(v), c |-> << >>, t |-> v, u |-> TRUE]
DSeq(l) == [k |-> "seq", v |-> "", c |-> l]
DMap(l) == [k |-> "map", v |-> "", c |-> l]
Enum(k, d) == [k |-> "enum", v |-> "", c |-> <<k, d>>]
One == Lf("u8", "1")
Unit == Lf("unit", "")
Bad == Lf("bad", "")

Items == {One, Unit, DMap(<<St("x"), One>>), DMap(<< >>), DSeq(<<One>>), Enum(St("V"), Unit)}
Few == {One, Unit, DMap(<< >>)}
TagItems == {St("A"), St("dup"), St("nobody"), One}

Ent(ks, vs) == {<<k, v>> : k \in ks, v \in vs}
Alphabet(cfg) ==
  LET C == Cfg[cfg]
  IN CASE C.rep = "ext" -> Ent(TagItems \cup {St("B"), By("A")}, Items)
       [] C.rep = "int" -> Ent({St(C.tag)}, TagItems) \cup Ent({St("x"), St("value")}, Items) \cup
                           Ent({St("V"), St("zz"), By("x")}, Few)
       [] OTHER -> Ent({St(C.tag)}, TagItems) \cup Ent({St(C.content)}, Items) \cup
                   Ent({St("zz")}, {Unit, Bad, Enum(St("V"), Unit)}) \cup {<<One, One>>}

Sc(k, v, c, f) == [k |-> k, v |-> v, c |-> c, f |-> f]
S0(k) == Sc(k, "", << >>, << >>)
Schemas ==
  {S0(k) : k \in {"any", "u8", "str", "unit", "ignored", "fail"}} \cup
  { Sc("ustruct", "U", << >>, << >>), Sc("option", "", <<S0("any")>>, << >>), Sc("option", "", <<S0("u8")>>, << >>),
    Sc("nstruct", "W", <<S0("any")>>, << >>), Sc("seq", "", <<S0("any")>>, << >>), Sc("map", "", <<S0("str"), S0("any")>>, << >>),
    Sc("struct", "S", <<S0("any")>>, <<"x">>), Sc("structdeny", "S", <<S0("any")>>, <<"x">>),
    Sc("struct", "S", <<Sc("ustruct", "U", << >>, << >>), Sc("option", "", <<S0("any")>>, << >>)>>, <<"x", "value">>),
    Sc("enum", "E", <<S0("unit"), Sc("newtype", "", <<S0("any")>>, << >>), Sc("struct", "", <<S0("u8")>>, <<"x">>)>>, <<"V", "x", "value">>),
    Sc("mtake", "1", <<S0("any"), S0("any")>>, << >>),
    Sc("obj", "ext0", <<S0("any")>>, << >>), Sc("obj", "int1", <<S0("any")>>, << >>),
    Sc("nstruct", "W", <<Sc("struct", "S", <<S0("u8")>>, <<"x">>)>>, << >>) }

VARIABLES cfg, s, ps, w
vars == <<cfg, s, ps, w>>
Env == [buf |-> FALSE, hr |-> TRUE, k2 |-> FALSE]

Init == /\ cfg \in Cfgs /\ s \in Schemas /\ ps = << >> /\ w = Walk0(cfg)
Next == /\ Len(ps) < MaxLen
        /\ \E e \in Alphabet(cfg) : /\ ps' = Append(ps, e)
                                    /\ w' = WalkStep(w, e[1], e[2], Env)
        /\ UNCHANGED <<cfg, s>>
Spec == Init /\ [][Next]_vars

Means(p) == DeObj(cfg, s, DMap(Flat(p)), Env)
Whole == Means(ps)
Equal(a, b) == a.ok = b.ok /\ (a.ok => a.v = b.v)
C == Cfg[cfg]
T == At(ps, C.tag)
K == At(ps, C.content)
TagOf(r) == r.v.v    \* "cfg|tag"

(* the walk and the meaning *)
WalkIsMeaning == Same(WalkEnd(w, s, Env), Whole)
(* ... also where keys that are not text can not be held back *)
Env2 == [Env EXCEPT !.k2 = TRUE]
RECURSIVE WalkAll(_, _)
WalkAll(p, i) == IF i = 0 THEN Walk0(cfg) ELSE WalkStep(WalkAll(p, i - 1), p[i][1], p[i][2], Env2)
WalkIsMeaning2 == C.rep = "int" => Same(WalkEnd(WalkAll(ps, Len(ps)), s, Env2), DeObj(cfg, s, DMap(Flat(ps)), Env2))

(* C09 *)
TagDecides ==
  Whole.ok =>
    CASE C.rep = "ext" -> Len(ps) = 1 /\ IsText(ps[1][1]) /\ ps[1][1].v \in C.uniq /\ TagOf(Whole) = cfg \o "|" \o ps[1][1].v
      [] T # {} -> LET v == ps[FirstOf(T)][2] IN IsText(v) /\ v.v \in C.uniq /\ TagOf(Whole) = cfg \o "|" \o v.v
      [] OTHER -> C.hasdef /\ TagOf(Whole) = cfg \o "|" \o C.def

(* a copy takes an empty map for a unit struct, otherwise nothing differs *)
RECURSIVE EmptyMap(_), WantsUnit(_)
EmptyMap(d) == (d.k = "map" /\ d.c = << >>) \/ \E i \in DOMAIN d.c : EmptyMap(d.c[i])
WantsUnit(x) == x.k = "ustruct" \/ \E i \in DOMAIN x.c : WantsUnit(x.c[i])
Plain(p) == /\ \A i \in DOMAIN p : Bufferable(p[i][1]) /\ Bufferable(p[i][2])
            /\ ~(WantsUnit(s) /\ \E i \in DOMAIN p : EmptyMap(p[i][2]))

(* C10 *)
Position ==
  (C.rep = "int" /\ T # {} /\ Plain(ps)) =>
    Equal(Whole, Means(<<ps[FirstOf(T)]>> \o Without(ps, FirstOf(T))))
AllDelivered ==
  (C.rep = "int" /\ Whole.ok /\ s.k = "map") =>
    Len(Whole.v.c[1].c) = 2 * (Len(ps) - (IF T = {} THEN 0 ELSE 1))

(* C11 *)
Relevant == SelectSeq(ps, LAMBDA e : KeyIs(e[1], C.tag) \/ KeyIs(e[1], C.content))
Foreign(e) == IsText(e[1]) /\ Des(IGN, e[2], Env).ok
Others == {i \in DOMAIN ps : i \notin T \cup K}
ForeignIgnored ==
  (C.rep = "adj" /\ ~C.deny /\ \A i \in Others : Foreign(ps[i])) => Equal(Whole, Means(Relevant))
ForeignDenied == (C.rep = "adj" /\ C.deny /\ Others # {}) => ~Whole.ok
NoDuplicates == (C.rep = "adj" /\ (Cardinality(T) > 1 \/ Cardinality(K) > 1)) => ~Whole.ok
EitherOrder ==
  (C.rep = "adj" /\ Cardinality(T) = 1 /\ Cardinality(K) = 1 /\ Others = {} /\ Plain(ps)) =>
    Equal(Whole, Means(<<ps[2], ps[1]>>))
MissingTag == (C.rep # "ext" /\ T = {} /\ ~C.hasdef) => ~Whole.ok /\ <<"missing_field", C.tag>> \in Whole.e
MissingContent == (C.rep = "adj" /\ K = {} /\ T # {} /\ Whole.ok) => DesUnit(s).ok

(* C12 *)
TagEntry == <<St(C.tag), St(C.def)>>
Default ==
  (C.rep # "ext" /\ T = {} /\ C.hasdef /\ Plain(ps) /\ (C.rep = "adj" => K # {})) =>
    Equal(Whole, Means(<<TagEntry>> \o ps))
NeedsContent == (C.rep = "adj" /\ T = {} /\ K = {}) => ~Whole.ok

(* an implementation that fails never gives an object *)
FailureStays == s.k = "fail" => ~Whole.ok
(* neither does an item that can not be read *)
RECURSIVE Unreadable(_)
Unreadable(d) == d.k = "bad" \/ \E i \in DOMAIN d.c : Unreadable(d.c[i])
NothingUnread == (\E i \in DOMAIN ps : Unreadable(ps[i][1]) \/ Unreadable(ps[i][2])) => ~Whole.ok

Dumped == Dump => PrintT("D " \o ToJson([sch |-> Sc("obj", cfg, <<s>>, << >>), doc |-> DMap(Flat(ps))]))
=============================================================================
