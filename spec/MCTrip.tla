------------------------------- MODULE MCTrip -------------------------------
(***************************************************************************)
(* Both specifications together: what the serialization machine puts out,  *)
(* kept by a self-describing format that may move the entries of maps, is  *)
(* read back by the deserialization specification as the value that went   *)
(* in (C07).  What the value on its own does not survive is the format's.  *)
(***************************************************************************)
EXTENDS MCSer

CONSTANTS Moves,   \* by how many places entries are moved
          Plain    \* format without options and newtypes, like JSON

D == INSTANCE Des

Sc(k, v, c, f) == [k |-> k, v |-> v, c |-> c, f |-> f]
S0(k) == Sc(k, "", << >>, << >>)

(* ---- what a format writes down: the calls, fields under the names the    *)
(*      calls give them ---- *)
RECURSIVE RVal(_, _), RItems(_, _, _, _)
RItems(s, i, acc, ns) ==
  IF s[i][1] = "end" THEN [n |-> acc, ns |-> ns, i |-> i + 1]
  ELSE LET r == RVal(s, i + 1)
       IN  RItems(s, r.i, Append(acc, r.n), IF s[i][1] = "f" THEN Append(ns, s[i][2]) ELSE ns)
RVal(s, i) ==
  CASE s[i][1] \in Prefixes -> LET r == RVal(s, i + 1) IN [n |-> T(s[i], <<r.n>>), i |-> r.i]
    [] s[i][1] \in Openers -> LET r == RItems(s, i + 1, << >>, << >>) IN [n |-> T(s[i] \o r.ns, r.n), i |-> r.i]
    [] OTHER -> [n |-> T(s[i], << >>), i |-> i + 1]
Written(s) == RVal(s, 1).n

(* ---- what the format keeps of a tree without trait objects ---- *)
Doc(k, v, c) == [k |-> k, v |-> v, c |-> c, t |-> v, u |-> TRUE]
Text(x) == Doc("stro", x, << >>)
Turn(ps, m) == IF ps = << >> THEN ps
               ELSE [i \in DOMAIN ps |-> ps[((i + m - 1) % Len(ps)) + 1]]
RECURSIVE DocOf(_, _, _)
DocOf(x, m, hr) ==
  LET all == [i \in DOMAIN x.c |-> DocOf(x.c[i], m, hr)]
      map(ps) == Doc("map", "", D!Flat(Turn(ps, m)))
      fields(ns) == [i \in DOMAIN ns |-> <<Text(ns[i]), all[i]>>]
      one(n, d) == Doc("map", "", <<Text(n), d>>)
  IN CASE x.t[1] = "u8" -> Doc("u8", x.t[2], << >>)
       [] x.t[1] = "str" -> Text(x.t[2])
       [] x.t[1] = "hr" -> Doc("bool", hr, << >>)
       [] x.t[1] \in {"unit", "none", "ustruct"} -> Doc(IF Plain THEN "unit" ELSE IF x.t[1] = "none" THEN "none" ELSE "unit", "", << >>)
       [] x.t[1] = "some" -> IF Plain THEN all[1] ELSE Doc("some", "", all)
       [] x.t[1] = "nstruct" -> IF Plain THEN all[1] ELSE Doc("newtype", "", all)
       [] x.t[1] \in {"seq", "tuple", "tstruct", "tuple|tstruct"} -> Doc("seq", "", all)
       [] x.t[1] = "map" -> map(D!Pairs(all))
       [] x.t[1] = "struct" -> map(fields(SubSeq(x.t, 5, Len(x.t))))
       [] x.t[1] = "uvariant" -> Text(x.t[4])
       [] x.t[1] = "nvariant" -> one(x.t[4], all[1])
       [] x.t[1] = "tvariant" -> one(x.t[4], Doc("seq", "", all))
       [] x.t[1] = "svariant" -> one(x.t[4], map(fields(SubSeq(x.t, 7, Len(x.t)))))

(* ---- the type that reads it, and the value it should obtain ---- *)
Vars(x, w) == LET i == D!AsNum[x.t[3]]
              IN  Sc("enum", x.t[2], [j \in 1..(i + 1) |-> IF j <= i THEN S0("unit") ELSE w],
                     [j \in 1..(i + 1) |-> IF j <= i THEN "$v" \o ToString(j - 1) ELSE x.t[4]])
RECURSIVE TypeOf(_), Val(_, _)
TypeOf(x) ==
  LET all == [i \in DOMAIN x.c |-> TypeOf(x.c[i])]
  IN CASE x.t[1] = "obj" -> Sc("obj", x.t[2], all, << >>)
       [] x.t[1] = "str" -> S0("string")
       [] x.t[1] \in {"u8", "unit", "hr"} -> S0(x.t[1])
       [] x.t[1] = "ustruct" -> Sc("ustruct", x.t[2], << >>, << >>)
       [] x.t[1] = "none" -> Sc("option", "", <<S0("unit")>>, << >>)
       [] x.t[1] = "some" -> Sc("option", "", all, << >>)
       [] x.t[1] \in {"nstruct", "tstruct"} -> Sc(x.t[1], x.t[2], all, << >>)
       [] x.t[1] \in {"seq", "tuple", "map"} -> Sc(x.t[1], "", all, << >>)
       [] x.t[1] = "struct" -> Sc("struct", x.t[2], all, SubSeq(x.t, 5, Len(x.t)))
       [] x.t[1] = "uvariant" -> Vars(x, S0("unit"))
       [] x.t[1] = "nvariant" -> Vars(x, Sc("newtype", "", all, << >>))
       [] x.t[1] = "tvariant" -> Vars(x, Sc("tuple", "", all, << >>))
       [] x.t[1] = "svariant" -> Vars(x, Sc("struct", "", all, SubSeq(x.t, 7, Len(x.t))))
Val(x, hr) ==
  LET all == [i \in DOMAIN x.c |-> Val(x.c[i], hr)]
  IN CASE x.t[1] = "obj" -> D!Br("obj", x.t[2] \o "|" \o x.t[3], all)
       [] x.t[1] \in {"u8", "str"} -> D!Leaf(x.t[1], x.t[2])
       [] x.t[1] = "hr" -> D!Br("hrseen", hr, <<D!Leaf("bool", hr)>>)
       [] x.t[1] \in {"unit", "none"} -> D!Leaf(x.t[1], "")
       [] x.t[1] = "ustruct" -> D!Leaf("ustruct", x.t[2])
       [] x.t[1] = "some" -> D!Br("some", "", all)
       [] x.t[1] \in {"nstruct", "tstruct", "struct"} -> D!Br(x.t[1], x.t[2], all)
       [] x.t[1] \in {"seq", "tuple", "map"} -> D!Br(x.t[1], "", all)
       [] x.t[1] = "uvariant" -> D!Leaf("uvariant", x.t[4])
       [] OTHER -> D!Br(x.t[1], x.t[4], all)

(* ---- what can not come back, see the statement ---- *)
(* the keys an internally tagged object would give its own value *)
RECURSIVE Own(_), OwnTag(_)
Own(x) ==
  CASE x.t[1] = "nstruct" -> Own(x.c[1])
    [] x.t[1] = "struct" -> {SubSeq(x.t, 5, Len(x.t))[i] : i \in DOMAIN x.c}
    [] x.t[1] = "map" -> IF Moves # {0} THEN {x.c[i].t[2] : i \in {j \in DOMAIN x.c : j % 2 = 1 /\ x.c[j].t[1] = "str"}} ELSE {}
    [] x.t[1] \in {"uvariant", "nvariant", "tvariant", "svariant"} -> IF Moves # {0} THEN {x.t[4]} ELSE {}
    [] x.t[1] \in {"unit", "none", "ustruct"} -> {}
    [] x.t[1] = "obj" -> CASE Cfg[x.t[2]].rep = "adj" -> {Cfg[x.t[2]].tag, Cfg[x.t[2]].content}
                           [] Moves = {0} -> IF Cfg[x.t[2]].rep = "int" THEN Own(x.c[1]) ELSE {}
                           [] Cfg[x.t[2]].rep = "int" -> {Cfg[x.t[2]].tag} \cup Own(x.c[1])
                           [] OTHER -> {x.t[3]}
    [] OTHER -> IF Moves # {0} THEN {"value"} ELSE {}
OwnTag(x) ==
  \/ x.t[1] = "obj" /\ Cfg[x.t[2]].rep = "int" /\ Cfg[x.t[2]].tag \in Own(x.c[1])
  \/ \E i \in DOMAIN x.c : OwnTag(x.c[i])

(* ---- the trip; a component that looks at the readability of the format  *)
(*      writes it down and looks again when it is read (C21) ---- *)
HRs == {"true", "false"}
Env(hr) == [buf |-> FALSE, hr |-> hr = "true", k2 |-> FALSE]
In == Parse(inp)
RoundTrip ==
  (Done /\ err = << >>) =>
     IF OwnTag(In) THEN TRUE
     ELSE \A m \in Moves, hr \in HRs :
            LET back == D!Des(TypeOf(In), DocOf(Written(out), m, hr), Env(hr))
                direct == D!Des(TypeOf(In.c[1]), DocOf(Written(Flat(Form(In.c[1]))), m, hr), Env(hr))
            IN  (direct.ok /\ direct.v = Val(In.c[1], hr)) => back.ok /\ back.v = Val(In, hr)
(* the format keeps what it is given *)
Kept ==
  (Done /\ err = << >> /\ ~Plain /\ ~OwnTag(In)) =>
     LET direct == D!Des(TypeOf(In.c[1]), DocOf(Written(Flat(Form(In.c[1]))), 0, "true"), Env("true"))
     IN  direct.ok /\ direct.v = Val(In.c[1], "true")
=============================================================================
