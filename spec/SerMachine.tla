---------------------------- MODULE SerMachine ----------------------------
(***************************************************************************)
(* Serialization of trait objects as a token-stream machine.               *)
(*                                                                          *)
(* The concrete value's own event stream goes in token by token; what the  *)
(* format receives comes out.  `["obj", cfg, tag]` opens a trait object    *)
(* (a frame is pushed), `["endobj"]` closes it.  What the inner frame puts *)
(* out is fed to the next outer frame, the outermost output is what the    *)
(* format sees.  One operator, Feed, is the transition function; the       *)
(* model-checking module and the trace specification both step with it.    *)
(*                                                                          *)
(* Tokens: <<"bool",v>> .. <<"str",s>> <<"bytes",hex>> <<"unit">>          *)
(* <<"none">> <<"some">> <<"ustruct",n>> <<"uvariant",n,i,v>>              *)
(* <<"nstruct",n>> <<"nvariant",n,i,v>> <<"seq",ann,act>>                  *)
(* <<"tuple",ann,act>> <<"tstruct",n,ann,act>>                             *)
(* <<"tvariant",n,i,v,ann,act>> <<"map",ann,act>> <<"struct",n,ann,act>>   *)
(* <<"svariant",n,i,v,ann,act>> and inside containers <<"e">> <<"k">>      *)
(* <<"v">> <<"f",name>> <<"end">>.  ann is the announced size ("?" when    *)
(* unknown), act the number of items that follow.  <<"hr">> writes the     *)
(* format's human readability, <<"fail">> is a value that fails.           *)
(* Inside the machine a struct token also lists its field names.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Configs

Digit == [s \in {ToString(n) : n \in 0..9} |-> CHOOSE n \in 0..9 : ToString(n) = s]
RECURSIVE Num(_)
Num(s) == IF Len(s) = 1 THEN Digit[s] ELSE 10 * Num(SubSeq(s, 1, Len(s) - 1)) + Digit[SubSeq(s, Len(s), Len(s))]
Plus(s, n) == IF s = "?" THEN "?" ELSE ToString(Num(s) + n)

Openers  == {"seq", "tuple", "tuple|tstruct", "tstruct", "tvariant", "map", "struct", "svariant"}
Prefixes == {"some", "nstruct", "nvariant"}
Marks    == {"e", "k", "v", "f"}
IsAtom(t) == t[1] \notin (Openers \cup Prefixes \cup Marks \cup {"end", "obj", "endobj", "fail"})

VALUE == "value"

(***************************************************************************)
(* Frames                                                                  *)
(***************************************************************************)
NewFrame(cfg, tag) ==
  [cfg |-> cfg, tag |-> tag, rep |-> Cfg[cfg].rep,
   mode |-> IF Cfg[cfg].rep = "int" THEN "start" ELSE "through",
   d |-> 0,         \* open containers inside the part being passed on
   buf |-> FALSE]   \* inside a part that is copied before it is passed on

TagKey(fr) == Cfg[fr.cfg].tag

(* what a frame puts out when it opens and closes *)
Head0(fr) ==
  CASE fr.rep = "ext" -> << <<"map","1","1">>, <<"k">>, <<"str",fr.tag>>, <<"v">> >>
    [] fr.rep = "adj" -> << <<"struct","*","2","2",TagKey(fr),Cfg[fr.cfg].content>>,
                            <<"f",TagKey(fr)>>, <<"str",fr.tag>>,
                            <<"f",Cfg[fr.cfg].content>> >>
    [] fr.rep = "int" -> << >>
Tail0(fr) == IF fr.rep = "int" THEN << >> ELSE << <<"end">> >>

(* the opening of an internally tagged map with n further entries *)
IntHead(fr, ann, act) ==
  << <<"map", ann, act>>, <<"k">>, <<"str",TagKey(fr)>>, <<"v">>, <<"str",fr.tag>> >>
IntOne(fr, key) ==
  IntHead(fr, "2", "2") \o << <<"k">>, <<"str",key>>, <<"v">> >>

(* fields of a struct that carry the tag key *)
Names(t) == IF Len(t) > 4 THEN SubSeq(t, 5, Len(t)) ELSE << >>
Clash(fr, t) == Cardinality({i \in DOMAIN Names(t) : Names(t)[i] = TagKey(fr)})

(* the copy may turn an unknown size into the actual one *)
Copied(fr, t) ==
  IF fr.buf /\ t[1] \in {"seq","map"} /\ t[2] = "?" THEN <<t[1], "?=", t[3]>> ELSE t

Res(fr, out) == [fr |-> fr, out |-> out, err |-> << >>]
Mismatch(fr, got) == [fr |-> fr, out |-> << >>, err |-> <<TagKey(fr), fr.tag, got>>]

(* one token passing through; sz: what to put out when the value is complete *)
PassOne(fr, t) ==
  LET d2 == CASE t[1] \in Openers -> fr.d + 1
              [] t[1] = "end" -> fr.d - 1
              [] OTHER -> fr.d
      complete == d2 = 0 /\ (IsAtom(t) \/ t[1] = "end")
  IN  Res([fr EXCEPT !.d = d2, !.mode = IF complete THEN "done" ELSE "pass"],
          IF complete THEN <<Copied(fr, t), <<"end">> >> ELSE <<Copied(fr, t)>>)

(* first token of the value of an internally tagged object *)
IntStart(fr, t) ==
  LET one(key, first) ==
        LET r == PassOne([fr EXCEPT !.buf = first[1] \in Openers], first)
        IN  Res(r.fr, IntOne(fr, key) \o r.out)
  IN CASE t[1] \in {"unit", "none", "ustruct"} ->
            Res([fr EXCEPT !.mode = "done"], IntHead(fr, "1", "1") \o << <<"end">> >>)
       [] t[1] = "nstruct" -> Res(fr, << >>)
       [] t[1] = "some" -> Res([fr EXCEPT !.mode = "pass"], IntOne(fr, VALUE))
       [] t[1] = "uvariant" ->
            Res([fr EXCEPT !.mode = "done"], IntOne(fr, t[4]) \o << <<"unit">>, <<"end">> >>)
       [] t[1] = "nvariant" -> Res([fr EXCEPT !.mode = "pass"], IntOne(fr, t[4]))
       [] t[1] = "seq" -> one(VALUE, <<"seq", IF t[2] = "?" THEN "?=" ELSE t[2], t[3]>>)
       [] t[1] \in {"tuple", "tstruct"} -> one(VALUE, t)
       [] t[1] = "tvariant" -> one(t[4], <<"tuple|tstruct", t[5], t[6]>>)
       [] t[1] = "svariant" -> one(t[4], <<"struct", "*", t[5], t[6]>>)
       [] t[1] = "map" ->
            Res([fr EXCEPT !.mode = "entries"], IntHead(fr, Plus(t[2],1), Plus(t[3],1)))
       [] t[1] = "struct" ->
            LET n == Clash(fr, t)
            IN  Res([fr EXCEPT !.mode = "fields"],
                    IntHead(fr, ToString(Num(t[3]) + 1 - n), ToString(Num(t[4]) + 1 - n)))
       [] OTHER -> one(VALUE, t)

(* entries of a map or fields of a struct *)
IntInside(fr, t) ==
  CASE t[1] = "end" /\ fr.d = 0 -> Res([fr EXCEPT !.mode = "done"], <<t>>)
    [] t[1] = "f" /\ fr.d = 0 ->
         IF t[2] = TagKey(fr) THEN Res([fr EXCEPT !.mode = "own"], << >>)
         ELSE Res(fr, << <<"k">>, <<"str",t[2]>>, <<"v">> >>)
    [] OTHER -> Res([fr EXCEPT !.d = CASE t[1] \in Openers -> fr.d + 1
                                       [] t[1] = "end" -> fr.d - 1
                                       [] OTHER -> fr.d], <<t>>)

(* the value of a field named like the tag key *)
IntOwn(fr, t) ==
  CASE t[1] \in {"some", "nstruct"} -> Res(fr, << >>)
    [] t[1] \in {"str", "char"} ->
         IF t[2] = fr.tag THEN Res([fr EXCEPT !.mode = "fields"], << >>)
         ELSE Mismatch(fr, t[2])
    [] OTHER -> Mismatch(fr, "")

(* one token into one frame *)
Into(fr, t) ==
  CASE fr.mode = "through" -> Res(fr, <<t>>)
    [] fr.mode = "start"   -> IntStart(fr, t)
    [] fr.mode = "pass"    -> PassOne(fr, t)
    [] fr.mode = "entries" -> IntInside(fr, t)
    [] fr.mode = "fields"  -> IntInside(fr, t)
    [] fr.mode = "own"     -> IntOwn(fr, t)
    [] fr.mode = "done"    -> [fr |-> fr, out |-> << >>, err |-> <<"protocol", "", "">>]

(* tokens, left to right, into frame i and what comes out into i-1 ... *)
RECURSIVE Many(_, _, _)
Many(fr, ts, acc) ==
  IF ts = << >> \/ acc.err # << >> THEN [acc EXCEPT !.fr = fr]
  ELSE LET r == Into(fr, Head(ts))
       IN  Many(r.fr, Tail(ts), [fr |-> r.fr, out |-> acc.out \o r.out, err |-> r.err])

(* field names are not part of what the format sees *)
Bare(t) == CASE t[1] = "struct" -> SubSeq(t, 1, 4)
             [] t[1] = "svariant" -> SubSeq(t, 1, 6)
             [] OTHER -> t

RECURSIVE Down(_, _, _, _)
Down(fs, i, ts, err) ==
  IF i = 0 \/ ts = << >> THEN [fs |-> fs, out |-> [j \in DOMAIN ts |-> Bare(ts[j])], err |-> err]
  ELSE LET r == Many(fs[i], ts, [fr |-> fs[i], out |-> << >>, err |-> << >>])
       IN  Down([fs EXCEPT ![i] = r.fr], i - 1, r.out, IF r.err # << >> THEN r.err ELSE err)

(* The transition function: one token of the value's own stream.           *)
Feed(fs, t) ==
  CASE t[1] = "obj" ->
         LET fr == NewFrame(t[2], t[3])
             r == Down(fs, Len(fs), Head0(fr), << >>)
         IN  [r EXCEPT !.fs = Append(r.fs, fr)]
    [] t[1] = "endobj" ->
         LET fr == fs[Len(fs)]
             rest == SubSeq(fs, 1, Len(fs) - 1)
             r == Down(rest, Len(rest), Tail0(fr), << >>)
         IN  IF fr.rep = "int" /\ fr.mode # "done"
             THEN [r EXCEPT !.err = <<"protocol", "", "">>] ELSE r
    [] OTHER -> Down(fs, Len(fs), <<t>>, << >>)

(***************************************************************************)
(* Names of the fields of the struct opened at position i of stream s      *)
(***************************************************************************)
RECURSIVE FieldsFrom(_, _, _, _)
FieldsFrom(s, j, d, acc) ==
  IF j > Len(s) THEN acc
  ELSE CASE s[j][1] = "end" /\ d = 0 -> acc
         [] s[j][1] = "end" -> FieldsFrom(s, j + 1, d - 1, acc)
         [] s[j][1] \in Openers -> FieldsFrom(s, j + 1, d + 1, acc)
         [] s[j][1] = "f" /\ d = 0 -> FieldsFrom(s, j + 1, d, Append(acc, s[j][2]))
         [] OTHER -> FieldsFrom(s, j + 1, d, acc)
Enriched(s, i) ==
  IF s[i][1] = "struct" THEN s[i] \o FieldsFrom(s, i + 1, 0, << >>) ELSE s[i]

(***************************************************************************)
(* Does a call recorded from the code agree with the one the machine made? *)
(* Sizes are compared separately (module SizeMachine); here a size known   *)
(* to the value must stay known, an unknown one may become known only in a *)
(* copied part.                                                            *)
(***************************************************************************)
SizeAgrees(e, o) ==
  CASE e = "?=" -> TRUE
    [] e = "?" -> o = "?"
    [] OTHER -> o # "?"

Agrees(e, o) ==
  CASE e[1] = "map" \/ e[1] = "seq" -> o[1] = e[1]
    [] e[1] = "tuple" -> o[1] = "tuple" /\ o[2] = e[2]
    [] e[1] = "tstruct" -> o[1] = "tstruct" /\ o[2] = e[2] /\ o[3] = e[3]
    [] e[1] = "tuple|tstruct" ->
         \/ o[1] = "tuple" /\ o[2] = e[2]
         \/ o[1] = "tstruct" /\ o[3] = e[2]
    [] e[1] = "struct" -> o[1] = "struct" /\ (e[2] = "*" \/ o[2] = e[2]) /\ o[3] = e[3]
    [] e[1] \in {"tvariant", "svariant"} ->
         o[1] = e[1] /\ SubSeq(o, 2, 5) = SubSeq(e, 2, 5)
    [] OTHER -> o = e
=============================================================================
