------------------------------- MODULE MCTot -------------------------------
(***************************************************************************)
(* Inputs of every outer kind for every kind of implementation: an object  *)
(* only from an input of the representation's form (C17).                  *)
(***************************************************************************)
EXTENDS Des, Json

CONSTANTS Len2,   \* elements and entries
          TotCfgs,
          Dump
F == INSTANCE Shape

Hex == [A |-> "41", dup |-> "647570", x |-> "78", type |-> "74797065", t |-> "74", c |-> "63", value |-> "76616c7565"]
St(v) == [k |-> "str", v |-> v, c |-> << >>, t |-> IF v \in DOMAIN Hex THEN Hex[v] ELSE ""]
Lf(k, v) == [k |-> k, v |-> v, c |-> << >>]
By(v) == [k |-> "bytes", v |-> Hex[v], c |-> << >>, t |-> v, u |-> TRUE]
DSeq(l) == [k |-> "seq", v |-> "", c |-> l]
DMap(l) == [k |-> "map", v |-> "", c |-> l]
Wr(k, d) == [k |-> k, v |-> "", c |-> <<d>>]
Enum(k, d) == [k |-> "enum", v |-> "", c |-> <<k, d>>]

Atoms == {Lf("bool", "true"), Lf("u8", "1"), Lf("i64", "-1"), Lf("f64", "1.5"), Lf("char", "A"), St("A"), By("A"), Lf("unit", ""), Lf("none", ""),
          Lf("bad", "")}
Items == {St("A"), St("dup"), Lf("u8", "1"), Lf("unit", ""), DMap(<< >>), By("A")}
Keys(cfg) == {St("A"), By("A"), Lf("u8", "1"), St(Cfg[cfg].tag), St(Cfg[cfg].content)}
Seqs(n) == UNION {[1..m -> Items] : m \in 0..n}
Ents(cfg) == UNION {[1..m -> Keys(cfg) \X {St("A"), Lf("u8", "1"), Lf("unit", "")}] : m \in 0..2}
Good(cfg) == CASE Cfg[cfg].rep = "ext" -> DMap(<<St("A"), Lf("unit", "")>>)
               [] Cfg[cfg].rep = "int" -> DMap(<<St(Cfg[cfg].tag), St("A")>>)
               [] OTHER -> DMap(<<St(Cfg[cfg].tag), St("A"), St(Cfg[cfg].content), Lf("unit", "")>>)
Docs(cfg) == Atoms \cup {DSeq(q) : q \in Seqs(Len2)} \cup {DMap(Flat(p)) : p \in Ents(cfg)} \cup
             {Wr(k, Good(cfg)) : k \in {"some", "newtype"}} \cup {DSeq(<<Good(cfg)>>), Enum(St("A"), Lf("unit", "")), Good(cfg)}

Sc(k, v, c, f) == [k |-> k, v |-> v, c |-> c, f |-> f]
S0(k) == Sc(k, "", << >>, << >>)
Reqs == {S0("any"), S0("unit"), S0("ignored"), S0("u8"), Sc("option", "", <<S0("any")>>, << >>), Sc("nstruct", "W", <<S0("any")>>, << >>),
         Sc("seq", "", <<S0("any")>>, << >>), Sc("map", "", <<S0("any"), S0("any")>>, << >>), Sc("struct", "S", <<Sc("option", "", <<S0("any")>>, << >>)>>, <<"x">>),
         Sc("obj", "ext0", <<S0("any")>>, << >>)}

VARIABLES cfg, s, d
Init == cfg \in TotCfgs /\ s \in Reqs /\ d \in Docs(cfg)
Next == UNCHANGED <<cfg, s, d>>
Spec == Init /\ [][Next]_<<cfg, s, d>>

Env == [buf |-> FALSE, hr |-> TRUE, k2 |-> FALSE]
Tx(x) == [t |-> IsText(x), v |-> x.v]
Top == CASE d.k = "map" -> [k |-> "map", es |-> [i \in DOMAIN Pairs(d.c) |-> <<Tx(Pairs(d.c)[i][1]), Tx(Pairs(d.c)[i][2])>>]]
         [] d.k = "seq" -> [k |-> "seq", es |-> [i \in DOMAIN d.c |-> <<Tx(d.c[i])>>]]
         [] OTHER -> [k |-> "other", es |-> << >>]
OnlyOfForm == DeObj(cfg, s, d, Env).ok => F!OfForm(cfg, Top)
(* ... and of that form there are objects *)
Accepts == (Cfg[cfg].rep # "int" /\ F!OfForm(cfg, Top) /\ s.k = "ignored") => DeObj(cfg, s, d, Env).ok
Dumped == Dump => PrintT("D " \o ToJson([sch |-> Sc("obj", cfg, <<s>>, << >>), doc |-> d]))
=============================================================================
