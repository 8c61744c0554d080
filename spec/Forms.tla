------------------------------- MODULE Forms -------------------------------
(***************************************************************************)
(* Declarations: a trait with an implementation, each with attribute, as    *)
(* records of the features they are written with, and which of them are     *)
(* supported.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* the first value of each feature is what the plain declaration has *)
Features ==
  [mode    |-> <<"serde", "serialize", "deserialize">>,
   rep     |-> <<"ext", "int", "adj">>,
   item    |-> <<"trait", "struct", "enum", "union", "fn", "const", "static", "mod", "use", "type", "extern", "macro", "inherent",
                 "inherent generic", "unsafe fn", "async fn", "extern fn", "struct body">>,
   vis     |-> <<"pub", "", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)">>,
   unsafe  |-> <<"no", "yes">>,
   super   |-> <<"", "Debug", "Send", "Send + Sync", "'static", "Super<u8>", "Debug + Send + 'static", "std::fmt::Display", "for<'x> Hr<'x>",
                 "crate::prelude::Plain", "Assoc<Out = u8>">>,
   tgen    |-> <<"", "type", "bound", "lifetime", "const", "default", "two", "where">>,
   where   |-> <<"", "Debug", "Send", "two">>,
   assoc   |-> <<"", "const", "const default", "type", "type bound", "type sized", "type sized and more", "type sized last", "type sized apart",
                 "type sized twice", "type other sized", "gat sized last", "type where more",
                 "type where debug", "two types", "gat sized", "gat", "type then const">>,
   methods |-> <<"", "ref", "mut", "box", "default", "generic sized", "static sized", "lifetime", "names", "names of the macro", "many",
                 "async sized", "macro made", "self rc">>,
   tattrs  |-> <<"", "doc", "allow", "cfg", "above", "two docs", "cfg inside">>,
   place   |-> <<"mod", "fn", "macro", "nested", "path", "block">>,
   self    |-> <<"path", "self path", "crate path", "generic", "generic path", "macro ty", "macro ident", "named tuple", "named array",
                 "named unit", "named qself", "named macro tuple", "tuple", "unit", "array", "qself", "macro tuple", "vec", "string", "alias",
                 "nonascii", "std path", "named std path", "box", "macro qself">>,
   igen    |-> <<"", "type", "lifetime", "const", "bound", "where">>,
   iassoc  |-> <<"", "const">>,
   iattrs  |-> <<"", "doc", "allow", "cfg", "above">>,
   iattr   |-> <<"yes", "no">>,
   derives |-> <<"both", "Serialize", "Deserialize">>,
   count   |-> <<"one", "two impls", "two traits", "no impl", "ten impls">>,
   edition |-> <<"2021", "2018", "2024">>,
   prelude |-> <<"", "shadowed", "own serde">>]

Plain == [f \in DOMAIN Features |-> Features[f][1]]
Values(f) == {Features[f][i] : i \in DOMAIN Features[f]}

Reads(d) == d.mode \in {"serde", "deserialize"}
Writes(d) == d.mode \in {"serde", "serialize"}

Underivable == {"tuple", "unit", "array", "qself", "macro tuple", "macro qself"}
Unrestricted == {"type", "type bound", "type where debug", "type other sized", "two types", "gat"}
Consts == {"const", "const default", "type then const"}

(* why a declaration is rejected; rejections of the language itself are not listed *)
Reasons(d) ==
  IF d.item # "trait" THEN {IF d.item \in {"inherent", "inherent generic"} THEN "inherent impl" ELSE "no trait or impl"}
  ELSE LET impl == d.count # "no impl" IN
       (IF d.assoc \in Consts THEN {"associated const"} ELSE {})
  \cup (IF d.assoc \in Unrestricted THEN {"associated type"} ELSE {})
  \cup (IF Reads(d) /\ d.tgen # "" THEN {"generic trait"} ELSE {})
  \cup (IF impl /\ d.iassoc = "const" THEN {"associated const"} ELSE {})
  \cup (IF impl /\ Reads(d) /\ d.igen # "" THEN {"generic impl"} ELSE {})
  \cup (IF impl /\ d.self \in Underivable /\ d.igen = "" /\ d.iattr = "yes" THEN {"no name"} ELSE {})
  \cup (IF impl /\ d.iattr = "no" THEN {"attribute missing"} ELSE {})
  \cup (IF impl /\ ((Writes(d) /\ d.derives = "Deserialize") \/ (Reads(d) /\ d.derives = "Serialize")) THEN {"type"} ELSE {})
Supported(d) == Reasons(d) = {}

(* what Rust itself does not allow to be combined, or that would say nothing *)
Sensible(d) ==
  /\ d.item # "trait" => \A f \in DOMAIN Features \ {"item", "mode", "edition", "vis", "place", "rep"} : d[f] = Features[f][1]
  /\ d.item # "trait" => d.vis \in {"pub", "", "pub(crate)"} /\ d.place \in {"mod", "fn"}
  /\ d.igen # "" => d.self = "path" /\ d.derives = "both"
  /\ d.derives # "both" => d.self \in {"path", "self path", "crate path", "macro ty", "macro ident"}
  /\ d.place = "macro" => d.self \notin {"macro ty", "macro ident", "macro tuple", "macro qself", "named macro tuple"}
  /\ d.count = "no impl" => \A f \in {"self", "igen", "iassoc", "iattrs", "iattr", "derives"} : d[f] = Features[f][1]
  /\ d.count = "ten impls" => d.assoc = "" /\ d.igen = "" /\ d.methods = ""
  /\ d.place = "path" => d.vis \notin {"", "pub(self)"}
  /\ d.prelude # "" => d.self \in {"path", "self path", "crate path", "generic", "generic path", "named tuple", "tuple", "unit"} /\ d.methods \notin {"box", "many", "self rc"}
                       /\ d.super # "std::fmt::Display"
  /\ d.where # "" => d.tgen # "where"
  (* dyn Trait of a 'static trait needs 'static parameters; see DESIGN *)
  /\ d.super \in {"'static", "Debug + Send + 'static"} => d.tgen \in {"", "const"} /\ d.igen \in {"", "const"}
  (* foreign types do not implement what the supertraits ask for *)
  /\ d.self \notin {"path", "self path", "crate path", "generic", "generic path", "macro ty", "macro ident", "alias", "nonascii"}
       => d.super \in {"", "Send", "Send + Sync", "'static"} /\ d.where \in {"", "Send"}
  (* where the interesting part is left out *)
  /\ d.iattr = "no" => d.self \notin {"macro ty", "macro ident", "named macro tuple", "macro tuple", "macro qself"} /\ d.iattrs # "above"
=============================================================================
