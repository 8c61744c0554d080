------------------------------- MODULE Shape -------------------------------
(***************************************************************************)
(* The outer form an input must have to yield an object at all (C17),      *)
(* whatever the implementation makes of the content.                       *)
(*   top  [k |-> "map" | "seq" | other, es |-> entries or elements]        *)
(*   an entry is <<key, value>>, an element <<value>>; a key or value is   *)
(*   [t |-> it is text, v |-> the text]                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Configs

Is(x, s) == x.t /\ x.v = s
Lucky(x, cfg) == x.t /\ x.v \in Cfg[cfg].uniq
Where(es, key) == {i \in DOMAIN es : Is(es[i][1], key)}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j

OfForm(cfg, top) ==
  LET C == Cfg[cfg] es == top.es
      T == Where(es, C.tag) K == Where(es, C.content)
  IN CASE C.rep = "ext" -> top.k = "map" /\ Len(es) = 1 /\ Lucky(es[1][1], cfg)
       [] C.rep = "int" -> /\ top.k = "map"
                           /\ IF T = {} THEN C.hasdef /\ C.def \in C.uniq ELSE Lucky(es[Least(T)][2], cfg)
       [] top.k = "seq" -> Len(es) = 2 /\ Lucky(es[1][1], cfg)
       [] OTHER -> /\ top.k = "map"
                   /\ \A i \in DOMAIN es : es[i][1].t
                   /\ Cardinality(T) <= 1 /\ Cardinality(K) <= 1
                   /\ C.deny => T \cup K = DOMAIN es
                   /\ IF T = {} THEN C.hasdef /\ C.def \in C.uniq /\ K # {} ELSE Lucky(es[Least(T)][2], cfg)
=============================================================================
