---------------------------- MODULE SizeMachine ----------------------------
(***************************************************************************)
(* The protocol of the calls on a format: one value, items only inside      *)
(* containers, keys and values in turn, and as many items as announced.    *)
(***************************************************************************)
EXTENDS SerMachine

Box0 == [stk |-> << >>, need |-> TRUE, bad |-> {}]

Kind(t) == CASE t[1] = "map" -> "map"
             [] t[1] \in {"struct", "svariant"} -> "fields"
             [] OTHER -> "elems"
Announced(t) == t[Len(t) - 1]

(* the container that is open, and whether an item may come now *)
Top(b) == b.stk[Len(b.stk)]
Flag(b, x) == [b EXCEPT !.bad = @ \cup {x}]
Item(b, kind, ph, next, cnt) ==
  IF b.need \/ b.stk = << >> THEN Flag(b, "protocol")
  ELSE IF Top(b).kind # kind \/ Top(b).ph # ph THEN Flag(b, "protocol")
  ELSE [b EXCEPT !.need = TRUE,
                 !.stk[Len(b.stk)].ph = next,
                 !.stk[Len(b.stk)].n = @ + cnt]

BoxStep(b, t) ==
  CASE t[1] \in Openers ->
         IF ~b.need THEN Flag(b, "protocol")
         ELSE [b EXCEPT !.need = FALSE,
                        !.stk = Append(@, [kind |-> Kind(t), ann |-> Announced(t), n |-> 0,
                                           ph |-> "item"])]
    [] t[1] \in Prefixes -> IF b.need THEN b ELSE Flag(b, "protocol")
    [] t[1] = "e" -> Item(b, "elems", "item", "item", 1)
    [] t[1] = "f" -> Item(b, "fields", "item", "item", 1)
    [] t[1] = "k" -> Item(b, "map", "item", "val", 1)
    [] t[1] = "v" -> Item(b, "map", "val", "item", 0)
    [] t[1] = "end" ->
         IF b.need \/ b.stk = << >> THEN Flag(b, "protocol")
         ELSE LET c == Top(b)
                  r == [b EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
              IN  IF c.ph # "item" THEN Flag(r, "protocol")
                  ELSE IF c.ann \notin {"?", "?=", ToString(c.n)} THEN Flag(r, "size")
                  ELSE r
    [] OTHER -> IF b.need THEN [b EXCEPT !.need = FALSE] ELSE Flag(b, "protocol")

BoxDone(b) == b.stk = << >> /\ ~b.need
=============================================================================
