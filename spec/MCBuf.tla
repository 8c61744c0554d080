------------------------------- MODULE MCBuf -------------------------------
(***************************************************************************)
(* Every request on every item up to a bounded nesting: what is held back  *)
(* yields what the item itself yields (C13).  The pairs are also printed   *)
(* for replay against the code.                                            *)
(***************************************************************************)
EXTENDS Des, Json

CONSTANTS Depth,  \* nesting of requests and items: 1 or 2
          Dump

Sc(k, v, c, f) == [k |-> k, v |-> v, c |-> c, f |-> f]
S0(k) == Sc(k, "", << >>, << >>)
Lf(k, v) == [k |-> k, v |-> v, c |-> << >>]
St(k, v, h) == [k |-> k, v |-> v, c |-> << >>, t |-> h]
By(k, h, v) == [k |-> k, v |-> h, c |-> << >>, t |-> v, u |-> TRUE]
DSeq(l) == [k |-> "seq", v |-> "", c |-> l]
DMap(l) == [k |-> "map", v |-> "", c |-> l]
Wr(k, d) == [k |-> k, v |-> "", c |-> <<d>>]

Atoms == {Lf("bool", "true"), Lf("i8", "-1"), Lf("u8", "1"), Lf("u64", "0"), Lf("u128", "7"), Lf("f32", "1.5"), Lf("f64", "2.5"), Lf("char", "x"),
          St("str", "x", "78"), St("strb", "V", "56"), St("stro", "N", "4e"), By("bytes", "78", "x"), By("bytesb", "56", "V"),
          Lf("unit", ""), Lf("none", "")}
Keys == {St("str", "x", "78"), St("stro", "V", "56"), Lf("u8", "0"), By("bytes", "4e", "N"), Lf("i64", "3")}
Over(D) == {Wr(k, d) : k \in {"some", "newtype"}, d \in D} \cup
           {DSeq(<<d>>) : d \in D} \cup {DMap(<<k, d>>) : k \in Keys, d \in D}
Thin(D) == {DSeq(<<d, Lf("u8", "1")>>) : d \in D} \cup {DMap(<<St("str", "x", "78"), d, St("str", "y", "79"), Lf("unit", "")>>) : d \in D}
Docs0 == Atoms \cup {DSeq(<< >>), DMap(<< >>)}
Docs1 == Docs0 \cup Over(Docs0) \cup Thin(Docs0)
FewD == {Lf("u8", "1"), St("strb", "V", "56"), Lf("unit", ""), DMap(<< >>)}
Docs2 == Docs1 \cup Over(Over(FewD) \cup Thin(FewD))

Reqs0 == {S0(k) : k \in {"bool", "i8", "u64", "i128", "f32", "f64", "char", "str", "string", "bytes", "bytebuf", "ident", "strb", "bytesb",
                         "unit", "any", "ignored", "hr", "fail"}} \cup {Sc("ustruct", "U", << >>, << >>)}
Wrap1(R) == {Sc(k, "", <<r>>, << >>) : k \in {"option", "seq", "tuple", "failafter"}, r \in R} \cup
            {Sc("nstruct", "W", <<r>>, << >>) : r \in R} \cup
            {Sc("take", "1", <<r>>, << >>) : r \in R} \cup
            {Sc("tstruct", "TS", <<r, S0("any")>>, << >>) : r \in R} \cup
            {Sc("map", "", <<S0("any"), r>>, << >>) : r \in R} \cup {Sc("map", "", <<r, S0("ignored")>>, << >>) : r \in R} \cup
            {Sc("struct", "S", <<r, Sc("option", "", <<S0("any")>>, << >>)>>, <<"x", "y">>) : r \in R} \cup
            {Sc("structdeny", "S", <<r>>, <<"x">>) : r \in R} \cup
            {Sc("enum", "E", <<S0("unit"), Sc("newtype", "", <<r>>, << >>), Sc("struct", "", <<r>>, <<"x">>), Sc("tuple", "", <<r, r>>, << >>)>>,
                <<"V", "N", "x", "y">>) : r \in R}
Reqs1 == Reqs0 \cup Wrap1(Reqs0)
FewR == {S0("any"), S0("u64"), S0("str"), S0("unit"), Sc("ustruct", "U", << >>, << >>)}
Reqs2 == Reqs1 \cup Wrap1(Wrap1(FewR))

VARIABLES s, d
Init == /\ s \in IF Depth = 2 THEN Reqs2 ELSE Reqs1
        /\ d \in IF Depth = 2 THEN Docs2 ELSE Docs1
Next == UNCHANGED <<s, d>>
Spec == Init /\ [][Next]_<<s, d>>

Env == [buf |-> FALSE, hr |-> TRUE, k2 |-> FALSE]
RECURSIVE EmptyMap(_), WantsUnit(_)
EmptyMap(x) == (x.k = "map" /\ x.c = << >>) \/ \E i \in DOMAIN x.c : EmptyMap(x.c[i])
WantsUnit(x) == x.k = "ustruct" \/ \E i \in DOMAIN x.c : WantsUnit(x.c[i])

A == Des(s, d, Env)
B == Des(s, d, Held(Env))
Invisible ==
  IF WantsUnit(s) /\ EmptyMap(d) THEN A.ok => B.ok /\ A.v = B.v
  ELSE A.ok = B.ok /\ (A.ok => A.v = B.v)
(* a request is met or it is not; a value is of the kind asked for *)
Typed ==
  A.ok => CASE s.k \in Ints -> d.k \in Ints
            [] s.k \in Floats -> d.k \in Ints \cup Floats
            [] s.k \in {"unit", "ustruct"} -> d.k = "unit"
            [] s.k = "fail" -> FALSE
            [] OTHER -> TRUE
Dumped == Dump => PrintT("D " \o ToJson([sch |-> s, doc |-> d]))
=============================================================================
