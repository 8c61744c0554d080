------------------------------ MODULE TraceSer ------------------------------
(***************************************************************************)
(* Recorded serializations of the real code against the machine: every     *)
(* call the format received has to be the one the machine makes next.      *)
(* Lines that do not conform are printed with what is wrong:               *)
(*   shape     a call differs, is missing or surplus                       *)
(*   known     a size was announced that the value does not know, or not   *)
(*             announced although it does                                  *)
(*   size      an announced size differs from the number of items          *)
(*   K1        ... in the one way that is a recorded finding               *)
(*   protocol  calls that no format allows                                 *)
(*   result    success where failure was due, or the reverse               *)
(*   message   an error without the required contents                      *)
(*   after     calls after the failure                                     *)
(*   panic                                                                 *)
(***************************************************************************)
EXTENDS SizeMachine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == Num(IOEnv.CHUNKS)

VARIABLES ch,    \* chunk this behaviour walks through
          c,     \* case
          i,     \* next token of the value
          fs,    \* frames of the machine
          op,    \* calls matched so far
          box,   \* protocol and size automaton over the recorded calls
          er,    \* the clash the machine stopped at
          short, \* the recording ended before the machine did
          fl     \* what is wrong with the case
vars == <<ch, c, i, fs, op, box, er, short, fl>>

FMT == "injected-format-failure"
VAL == "injected-value-failure"
Contains(s, x) == \E j \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, j, j + Len(x) - 1) = x
(* Texts are recorded with %xx for each byte of a character that is not a  *)
(* plain one.  Messages may quote what is not printable; anything else is  *)
(* in them as it is.                                                       *)
Plain(s) ==
  /\ \A j \in 1..Len(s) : SubSeq(s, j, j) # "%" \/ SubSeq(s, j + 1, j + 1) \in {"8", "9", "A", "B", "C", "D", "E", "F"}
  /\ \A x \in {"%E2%80%AE", "%EF%BB%BF", "%C2%A0", "%CC%81"} : ~Contains(s, x)

First(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Last(k) == (k * Len(Trace)) \div Chunks
L == Trace[c]

Init == /\ ch \in 1..Chunks
        /\ c = First(ch)
        /\ i = 1 /\ fs = << >> /\ op = 0 /\ box = Box0 /\ er = << >> /\ short = FALSE /\ fl = {}

(* what the field named like the tag key does to the announced size *)
ClashHere(t) ==
  IF fs = << >> THEN 0
  ELSE IF fs[Len(fs)].mode # "start" THEN 0
  ELSE IF t[1] = "struct" THEN Clash(fs[Len(fs)], t)
  ELSE IF t[1] = "obj" /\ Cfg[t[2]].rep = "adj"
       THEN Clash(fs[Len(fs)], Head0(NewFrame(t[2], t[3]))[1]) ELSE 0

RECURSIVE Walk(_, _, _)
Walk(outs, j, b) ==
  IF j > Len(outs) \/ op + j > Len(L.out) THEN b ELSE Walk(outs, j + 1, BoxStep(b, L.out[op + j]))

(* sizes: exact, or off in the recorded way *)
SizeFlag(e, o, clash) ==
  IF e[1] \notin {"map", "seq", "struct", "tuple", "tstruct"} THEN {}
  ELSE LET a == Announced(e) b == Announced(o)
       IN  IF a \in {"?", "?="} \/ b = "?" \/ a = b THEN {}
           ELSE IF clash > 0 /\ b = ToString(Num(a) + clash) THEN {"K1"} ELSE {"size"}

KnownFlag(e, o) == IF e[1] \in {"map", "seq"} /\ ~SizeAgrees(e[2], o[2]) THEN {"known"} ELSE {}

Token ==
  /\ c <= Last(ch) /\ ~L.panic /\ "shape" \notin fl
  /\ i <= Len(L.in) /\ L.in[i][1] # "fail"
  /\ LET t0 == L.in[i]
         t == CASE t0[1] = "hr" -> <<"bool", IF L.hr THEN "true" ELSE "false">>
                [] t0[1] = "hrstr" -> <<"str", IF L.hr THEN t0[2] ELSE t0[3]>>
                [] OTHER -> Enriched(L.in, i)
         r == Feed(fs, t)
         n == IF op + Len(r.out) <= Len(L.out) THEN Len(r.out) ELSE Len(L.out) - op
         agree == \A j \in 1..n : Agrees(r.out[j], L.out[op + j])
         sizes == UNION {SizeFlag(r.out[j], L.out[op + j], ClashHere(t)) \cup KnownFlag(r.out[j], L.out[op + j]) : j \in 1..n}
     IN  /\ fs' = r.fs
         /\ op' = op + n
         /\ short' = (short \/ n < Len(r.out))
         /\ box' = Walk(r.out, 1, box)
         /\ fl' = fl \cup (IF agree THEN sizes ELSE {"shape"})
         /\ er' = r.err
         /\ i' = IF r.err # << >> THEN Len(L.in) + 2 ELSE i + 1
         /\ UNCHANGED <<ch, c>>

(* a field under the tag key is being read: the failing value may be masked *)
InOwn == \E k \in DOMAIN fs : fs[k].mode = "own"
(* the error names the tag key, the tag and what the field held *)
ClashMessage == \A x \in {er[1], er[2], er[3]} : Plain(x) => Contains(L.err, x)

Verdict ==
  LET stopped == i = Len(L.in) + 2          \* clash
      failed  == i <= Len(L.in)             \* at a failing value
      more    == op < Len(L.out)
  IN CASE L.panic -> {"panic"}
       [] "shape" \in fl -> {"shape"}
       [] L.fired ->
            (IF more THEN {"shape"} ELSE {}) \cup
            (IF L.ok THEN {"result"} ELSE {}) \cup
            (IF Len(L.out) # L.fault THEN {"after"} ELSE {}) \cup
            (IF L.err # FMT THEN {"message"} ELSE {})
       [] failed ->
            (IF more THEN {"after"} ELSE {}) \cup
            (IF L.ok THEN {"result"} ELSE {}) \cup
            (IF L.err # VAL /\ ~InOwn THEN {"message"} ELSE {})
       [] stopped ->
            (IF more THEN {"after"} ELSE {}) \cup
            (IF L.ok THEN {"result"} ELSE {}) \cup
            (IF ~L.ok /\ ~ClashMessage THEN {"message"} ELSE {})
       [] OTHER ->
            (IF more \/ short THEN {"shape"} ELSE {}) \cup
            (IF ~L.ok THEN {"result"} ELSE {})

Over == c <= Last(ch)
        /\ IF L.panic \/ "shape" \in fl \/ i > Len(L.in) THEN TRUE ELSE L.in[i][1] = "fail"

Flags ==
  Verdict \cup (fl \cap {"size", "K1", "known"}) \cup
  (IF L.panic THEN {} ELSE
     IF "protocol" \in box.bad \/ (L.ok /\ "shape" \notin fl /\ op = Len(L.out) /\ ~BoxDone(box))
     THEN {"protocol"} ELSE {}) \cup
  (IF "size" \in box.bad /\ "K1" \notin fl THEN {"size"} ELSE {})

Finish ==
  /\ Over
  /\ IF Flags # {} THEN PrintT("BAD " \o L.id \o " " \o ToString(Flags)) ELSE TRUE
  /\ c' = c + 1 /\ i' = 1 /\ fs' = << >> /\ op' = 0 /\ box' = Box0
  /\ er' = << >> /\ short' = FALSE /\ fl' = {} /\ UNCHANGED ch
  /\ IF c = Last(ch) THEN PrintT("DONE " \o ToString(Last(ch) - First(ch) + 1)) ELSE TRUE

Next == Token \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
