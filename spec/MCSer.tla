------------------------------- MODULE MCSer -------------------------------
(***************************************************************************)
(* Every value up to a bounded number of calls, serialized through every   *)
(* combination of trait objects: the machine agrees with the declarative   *)
(* wire forms, keeps the protocol, and announces exact sizes.              *)
(***************************************************************************)
EXTENDS SerDecl, Json

CONSTANTS MaxLen,      \* calls of the value
          ObjCfgs,     \* trait objects that may appear
          MaxObj,      \* how many of them
          Dump         \* print complete behaviours for replay

VARIABLES inp, fs, out, box, ex, objs, err
vars == <<inp, fs, out, box, ex, objs, err>>

TAG == "A"

(* what a value may begin with: token and what is expected after it *)
V == <<"V">>
Atoms == { <<"u8", "1">>, <<"str", TAG>>, <<"str", "x">>, <<"unit">>, <<"none">>, <<"hr">>,
           <<"ustruct", "N">>, <<"uvariant", "E", "1", "X">> }
Pref  == { <<"some">>, <<"nstruct", "N">>, <<"nvariant", "E", "0", "V">> }
El(n) == [i \in 1..n |-> <<"E">>]
En(n) == [i \in 1..(2*n) |-> IF i % 2 = 1 THEN <<"K">> ELSE <<"W">>]
Fl(ns) == [i \in DOMAIN ns |-> <<"F", ns[i]>>]
S(n) == ToString(n)
FieldSets == { << >>, <<"x">>, <<"type">>, <<"x","type">>, <<"type","x">>, <<"x","y">> }
Boxes ==
  { <<<<"seq", S(n), S(n)>>, El(n)>> : n \in 0..2 } \cup
  { <<<<"seq", "?", S(n)>>, El(n)>> : n \in 0..1 } \cup
  { <<<<"tuple", S(n), S(n)>>, El(n)>> : n \in 1..2 } \cup
  { <<<<"tstruct", "N", S(n), S(n)>>, El(n)>> : n \in 1..2 } \cup
  { <<<<"tvariant", "E", "2", "T", S(n), S(n)>>, El(n)>> : n \in 1..2 } \cup
  { <<<<"map", S(n), S(n)>>, En(n)>> : n \in 0..1 } \cup
  { <<<<"map", "?", S(n)>>, En(n)>> : n \in 0..1 } \cup
  { <<<<"struct", "N", S(Len(ns)), S(Len(ns))>> \o ns, Fl(ns)>> : ns \in FieldSets } \cup
  { <<<<"svariant", "E", "3", "S", S(Len(ns)), S(Len(ns))>> \o ns, Fl(ns)>> :
       ns \in { << >>, <<"x">>, <<"type">> } }

(* the least number of calls still to come *)
RECURSIVE Cost(_)
Cost(e) == IF e = << >> THEN 0
           ELSE (CASE e[1] = V -> 1 [] e[1] = <<"end">> -> 1 [] e[1] = <<"endobj">> -> 1
                   [] OTHER -> 2) + Cost(Tail(e))

Init == /\ inp = << >> /\ fs = << >> /\ out = << >> /\ box = Box0 /\ objs = 0 /\ err = << >>
        /\ ex = <<V>>

RECURSIVE BoxAll(_, _)
BoxAll(b, ts) == IF ts = << >> THEN b ELSE BoxAll(BoxStep(b, Head(ts)), Tail(ts))

Emit(t, e) ==
  /\ err = << >>
  /\ Len(inp) + 1 + Cost(e) <= MaxLen
  /\ LET r == Feed(fs, t)
     IN  /\ fs' = r.fs /\ out' = out \o r.out /\ err' = r.err
         /\ box' = BoxAll(box, r.out)
  /\ inp' = Append(inp, t)
  /\ ex' = e

Obj(c)  == /\ ex # << >> /\ Head(ex) = V /\ objs < MaxObj
           /\ objs' = objs + 1
           /\ Emit(<<"obj", c, TAG>>, <<V, <<"endobj">>>> \o Tail(ex))
Atom(t) == /\ ex # << >> /\ Head(ex) = V /\ objs > 0 /\ Emit(t, Tail(ex)) /\ UNCHANGED objs
Pre(t)  == /\ ex # << >> /\ Head(ex) = V /\ objs > 0 /\ Emit(t, ex) /\ UNCHANGED objs
Open(b) == /\ ex # << >> /\ Head(ex) = V /\ objs > 0
           /\ Emit(b[1], b[2] \o << <<"end">> >> \o Tail(ex)) /\ UNCHANGED objs
Mark    == /\ ex # << >> /\ Head(ex)[1] \in {"E", "K", "W", "F"}
           /\ Emit(CASE Head(ex)[1] = "E" -> <<"e">> [] Head(ex)[1] = "K" -> <<"k">>
                     [] Head(ex)[1] = "W" -> <<"v">> [] OTHER -> <<"f", Head(ex)[2]>>,
                   <<V>> \o Tail(ex))
           /\ UNCHANGED objs
Close   == /\ ex # << >> /\ Head(ex) \in {<<"end">>, <<"endobj">>}
           /\ Emit(Head(ex), Tail(ex)) /\ UNCHANGED objs
Next == \/ \E c \in ObjCfgs : Obj(c)
        \/ \E t \in Atoms : Atom(t)
        \/ \E t \in Pref : Pre(t)
        \/ \E b \in Boxes : Open(b)
        \/ Mark
        \/ Close
Spec == Init /\ [][Next]_vars

Done == ex = << >>
(* ---- what must hold ---- *)
MachineIsForm ==
  Done => LET f == Form(Parse(inp))
          IN  IF err # << >> THEN Poisoned(f) ELSE ~Poisoned(f) /\ out = [i \in DOMAIN Flat(f) |-> Flat(f)[i]]
FaithfulErr == err # << >> => err[1] # "protocol"
Unwrap(b) == [b EXCEPT !.bad = {}]
Protocol == "protocol" \notin box.bad
Sizes == "size" \notin box.bad
Complete == (Done /\ err = << >>) => BoxDone(box) /\ fs = << >>
(* the tag comes first and the key is there once, whatever the value *)
TagFirst ==
  (Done /\ err = << >> /\ Cfg[inp[1][2]].rep = "int") =>
     /\ out[1][1] = "map"
     /\ out[2] = <<"k">> /\ out[3] = <<"str", Cfg[inp[1][2]].tag>>
     /\ out[4] = <<"v">> /\ out[5] = <<"str", inp[1][3]>>
(* what the value wrote inside ext and adj is passed on unchanged *)
Transparent ==
  (Done /\ err = << >> /\ Cfg[inp[1][2]].rep # "int" /\ objs = 1) =>

     SubSeq(out, 5, Len(out) - 1) = [j \in 1..(Len(inp) - 2) |-> Bare(inp[j + 1])]
Dumped == (Dump /\ Done /\ err = << >>) => PrintT("B " \o ToJson(inp))
=============================================================================
