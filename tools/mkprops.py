#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
S = "calls received by the Serializer the caller passes in"
D = "value or error returned to the caller of deserialize"
p("C01", "Externally tagged form is one map with one entry, tag to value",
  "Serializing a trait object of an externally tagged trait always hands the format exactly one map, announced with size 1 and holding exactly one entry: the key is the implementation's tag, the value is the concrete value's own serialization. That inner serialization reaches the format unchanged in kind, width, names, variant indices, order and announced sizes, for every value of every kind of the serde data model.",
  ["inputs"], "every registered implementation, every value of the serde data model at any nesting",
  "The tests serialize one struct, one empty struct, one unit struct and one unit variant to JSON; the statement is about every value shape and every format.",
  ["src/externally.rs", "src/ser.rs", "impl/src/tagged_trait.rs"], [("externally::serialize", "src/externally.rs"), ("Wrap", "src/ser.rs")], [S])
p("C02", "Internally tagged form: tag entry first, then the value, by kind",
  "Serializing a trait object of an internally tagged trait always hands the format one map whose first entry is the tag key with the implementation's tag. A struct's fields and a map's entries follow in their own order; an enum variant follows as one entry keyed by the inner variant name (null for a unit variant, the payload, tuple or struct of fields otherwise); unit, unit struct and None add nothing; newtype structs are transparent; everything else, including the inside of Some, follows as one entry keyed \"value\".",
  ["inputs"], "every registered implementation, every value of the serde data model at any nesting",
  "The tests reach only flat structs; 28 of the 29 serializer entry points are never exercised.",
  ["src/internally.rs", "src/ser.rs"], [("InternallyTaggedSerializer", "src/ser.rs"), ("SerializeStructAsMap", "src/ser.rs")], [S])
p("C03", "Adjacently tagged form is a struct of tag then content",
  "Serializing a trait object of an adjacently tagged trait always hands the format a two-field struct: first the tag key with the implementation's tag, then the content key with the concrete value's own serialization. The inner serialization reaches the format unchanged in kind, width, names, variant indices, order and announced sizes, for every value of every kind of the serde data model.",
  ["inputs"], "every registered implementation, every value of the serde data model at any nesting",
  "The tests serialize one flat struct to JSON.",
  ["src/adjacently.rs", "src/ser.rs"], [("adjacently::serialize", "src/adjacently.rs")], [S])
p("C04", "Content nested under internal tagging is delivered unaltered",
  "Under internal tagging, whatever is nested inside a sequence, tuple, tuple struct, option, map, struct or enum variant reaches the format exactly as it serializes itself: same kind and integer width, same struct, field and variant names and indices, same order, same nesting. No element is lost, repeated, merged or coerced, at any depth and any length.",
  ["inputs"], "every nested value at any depth and length, in every containing position",
  "No test nests anything inside an internally tagged sequence, tuple or enum variant, so the intermediate copy of such content is never observed.",
  ["src/ser.rs"], [("ser::Content", "src/ser.rs"), ("ContentSerializer", "src/ser.rs")], [S],
  [dict(name="fields", meaning="elements buffered until the container ends", where="src/ser.rs Serialize*AsMapValue")])
p("C05", "Announced container sizes are exact",
  "Whenever a trait object is serialized and a sequence, tuple, map or struct is announced to the format with a size, exactly that many elements, entries or fields follow before it is closed, in the tagging layer as well as in every nested value that itself announces sizes truthfully.",
  ["inputs", "configurations"], "every representation, every value, including skipped fields and containers of unknown size",
  "JSON ignores sizes; the three binary tests use one-field structs only.",
  ["src/ser.rs", "src/externally.rs", "src/adjacently.rs"], [("serialize_map(len + 1)", "src/ser.rs"), ("Content::serialize", "src/ser.rs")], [S])
p("C06", "A struct's own tag field must agree with the tag and is written once",
  "When a struct serialized under internal tagging has a field whose name equals the tag key, the object serializes only if that field is the string (or char, possibly inside Some or a newtype) equal to the implementation's tag, and then the tag key appears exactly once. Any other value in that field makes serialization fail with an error naming the tag key, the implementation's tag and the offending string; fields with any other name are never affected.",
  ["inputs"], "every struct, every field position, every value in the colliding field",
  "Three values of one generic one-field struct are tested.",
  ["src/ser.rs", "src/is_serialize_str.rs"], [("SerializeStructAsMap::serialize_field", "src/ser.rs"), ("expect_str", "src/is_serialize_str.rs")], [S, "error returned to the caller of serialize"])
p("C07", "Round trip through self-describing formats",
  "For every representation, serializing a trait object to a self-describing format (JSON text or tree, CBOR, RON, a generic token tree) and deserializing it as a boxed trait object succeeds and yields the same implementation holding an equal value, provided the same format brings the concrete value back on its own (as an entry of a map where it is written as one). Content that itself has an entry or field under the tag key is the subject of C06 and excluded, as are implementations other than map-like ones that leave their type to the input (deserialize_any) under internal tagging.",
  ["inputs", "configurations"], "every implementation and value of the serde data model, every representation, several formats",
  "One JSON round trip per representation for flat structs.",
  ["src/externally.rs", "src/internally.rs", "src/adjacently.rs", "src/content.rs", "src/ser.rs"], [("serialize/deserialize pairs", "src/*ly.rs")], [S, D])
p("C08", "Round trip through compact non-self-describing formats",
  "For every representation, serializing a trait object to a compact format that records no types (postcard, bincode, a strictly typed token stream) and deserializing it as a boxed trait object succeeds, consumes the input exactly, and yields the same implementation holding an equal value; every read asks for exactly the type that was written. As in C07 the format must bring back the concrete value on its own, and content with an entry or field of its own under the tag key is excluded.",
  ["inputs", "configurations"], "every implementation and value of the serde data model, every representation, several formats",
  "Three representations are tested with a one-field u8 struct in postcard only, although the README promises all types in all compact formats.",
  ["src/internally.rs", "src/adjacently.rs", "src/externally.rs", "src/ser.rs"], [("MapWithStringKeys", "src/internally.rs"), ("MapEntryAsEnum", "src/internally.rs"), ("visit_seq", "src/adjacently.rs")], [S, D])
p("C09", "The tag alone selects the implementation",
  "Deserialization constructs the one implementation registered under the tag found in the input and no other, whatever the rest of the input looks like and whatever other implementations could also have parsed it. An unregistered tag, a missing tag (without a default), or a tag that is not a string is an error and never falls back to some implementation; exactly one tag decides, the first one met, and in the external form the input is rejected unless it has exactly one entry.",
  ["inputs", "configurations"], "every document over tag, content and other keys, every registered or unregistered tag string",
  "Only well-formed documents naming one of two implementations are tested.",
  ["src/de.rs", "src/externally.rs", "src/internally.rs", "src/adjacently.rs"], [("MapLookupVisitor", "src/de.rs"), ("FnApply", "src/de.rs")], [D])
p("C10", "Internal tag position does not matter",
  "For an internally tagged trait and a self-describing format, moving the tag entry to any position among the entries changes neither whether deserialization succeeds, nor the implementation chosen, nor the value obtained; the remaining entries are all delivered to the implementation, once, in order.",
  ["inputs"], "every document, every position of the tag, every kind of implementation (struct, map, enum, primitive, sequence, option, unit)",
  "The tag is always first in the tests, so the out-of-order path is reached only through default_variant on one flat struct.",
  ["src/internally.rs", "src/content.rs"], [("TaggedVisitor::visit_map", "src/internally.rs"), ("MapWithStringKeys", "src/internally.rs")], [D],
  [dict(name="entries", meaning="entries seen before the tag", where="src/internally.rs visit_map")])
p("C11", "Adjacent keys: any order, others ignored or denied, no duplicates",
  "For an adjacently tagged trait the tag and content keys may come in either order with the same outcome, and other keys anywhere in the map are skipped, value included, without influence; with deny_unknown_fields any such key makes the whole deserialization fail. A second tag or content key anywhere is a duplicate-field error, a missing tag (without default) a missing-field error, and a missing content is accepted only by implementations that accept a unit.",
  ["inputs", "configurations"], "every sequence of tag, content and foreign keys, with and without deny_unknown_fields and default_variant",
  "Four documents are tested; the state machine over key sequences has far more paths (order, duplicates, foreign keys in each gap).",
  ["src/adjacently.rs"], [("TaggedVisitor::visit_map", "src/adjacently.rs"), ("TagContentOtherFieldVisitor", "src/adjacently.rs")], [D],
  [dict(name="next_relevant_key", meaning="protocol position in the map", where="src/adjacently.rs visit_map")])
p("C12", "The default variant is used exactly when the tag is absent",
  "With default_variant, an input without the tag key deserializes as the implementation registered under the default tag, with the same outcome as the same input with that tag added; an input with the tag key never uses the default, even when its tag is unknown or its content unsuitable. (Adjacently tagged input with neither tag nor content key is a missing-field error with or without a default.) Without default_variant an absent tag is always a missing-field error, and a default naming no implementation fails only when it is needed.",
  ["inputs", "configurations"], "every document with and without tag, internal and adjacent, with and without default",
  "Two documents per representation are tested.",
  ["src/internally.rs", "src/adjacently.rs", "impl/src/parse.rs"], [("default_variant", "src/internally.rs, src/adjacently.rs")], [D])
p("C13", "Holding input back until the tag is known is invisible",
  "When part of the input has to be held back because the tag comes later, the implementation afterwards deserializes from it exactly as it would have from the input directly: same success or failure and same value, for every kind of input item (all integer widths including 128 bits, floats, chars, strings and bytes borrowed or owned, options, newtypes, sequences, maps, nested to any depth) and every kind of request (including structs from sequences, enums of all variant forms, and integers where floats are wanted). Left open: formats' own leniencies such as a unit read from an empty map, and input items a format can only show to one kind of request.",
  ["inputs"], "every input item by every requested type, any nesting and length",
  "No test holds back anything but a one-field struct of a small integer.",
  ["src/content.rs"], [("de::Content", "src/content.rs"), ("ContentDeserializer", "src/content.rs")], [D])
p("C14", "Registry: complete, per trait, duplicates poison only themselves",
  "Every implementation linked into the program, in whatever crate, is reachable under its tag in its own trait and in no other trait. A tag registered more than once in a trait (two, three or more times) is always rejected as non-unique, while all other tags of that trait keep working, and the error for an unknown tag lists the registered tags, no others, in sorted order.",
  ["programs", "configurations", "inputs"], "every set of registrations (including repeated tags) across traits and crates, every tag looked up",
  "No test registers a duplicate, looks up an unknown tag, or spans crates.",
  ["impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs", "src/de.rs", "src/private.rs"], [("static_registry", "impl/src/tagged_trait.rs"), ("MapLookupVisitor::visit_str", "src/de.rs")], [D],
  [dict(name="Registry.map", meaning="tag to constructor, None when non-unique", where="src/private.rs"), dict(name="Registry.names", meaning="sorted tags", where="src/private.rs")])
p("C15", "Concurrent first use is safe and consistent",
  "However many threads deserialize trait objects of a trait for the first time at once, in any interleaving, every one of them gets the outcome it would have got alone: no registered tag is ever reported unknown, no non-unique tag is ever accepted, and nothing blocks forever. Later and nested deserializations on any thread see the same registry.",
  ["schedules"], "every interleaving of any number of threads performing first and later deserializations",
  "Tests of one trait run once each; the lazily built registry is never raced.",
  ["impl/src/tagged_trait.rs"], [("OnceBox::get_or_init", "impl/src/tagged_trait.rs")], [D],
  [dict(name="TYPETAG", meaning="lazily built registry", where="impl/src/tagged_trait.rs static_registry")])
p("C16", "Every failure is reported, and nothing is written after it",
  "If the format fails at any point while writing, or the concrete value's own serialization fails, serialization returns that error and makes no further call on the format; the calls made until then are a prefix of the calls of the undisturbed run. If the format fails at any point while being read, or the implementation's own deserialization fails, deserialization returns an error carrying that failure's message; no failure is ever swallowed or turned into a value. (A failure inside a struct's own field under the tag key may be reported as the tag mismatch of C06.)",
  ["fault_sequences", "inputs"], "a failure at every single call into the format or the value, for every representation and value",
  "No test injects a failure.",
  ["src/ser.rs", "src/internally.rs", "src/adjacently.rs", "src/externally.rs", "src/de.rs", "src/content.rs"], [("? propagation", "all adapters"), ("map_err(custom)", "src/de.rs")], [S, D])
p("C17", "Deserialization is total: object or error, never a panic",
  "For every input whatsoever, well-formed for the format or not, related to the trait or not, serializing and deserializing trait objects return normally with either a result or an error. Input that is not of the representation's form (wrong outer kind, truncated, surplus elements, non-string keys or tags where a tag or adjacent key belongs) is rejected with an error and never yields an object, except where the format itself is lenient. Resource limits of formats and values that announce false sizes are out of scope.",
  ["inputs"], "arbitrary documents and byte strings, every representation",
  "Only well-formed input is tested.",
  ["src/externally.rs", "src/internally.rs", "src/adjacently.rs", "src/content.rs"], [("Visitor impls", "src/*ly.rs"), ("ContentDeserializer", "src/content.rs")], [D])
p("C18", "Trait attribute arguments mean what they say",
  "The trait attribute accepts exactly: nothing; tag; tag and default_variant; tag and content optionally followed by default_variant and deny_unknown_fields each at most once in either order; each with an optional trailing comma. Every accepted form configures exactly the representation, keys, default and strictness written, every other argument sequence is a compile error, and the impl attribute accepts exactly nothing or one name expression.",
  ["programs", "configurations"], "every sequence of attribute arguments",
  "Six accepted forms appear in tests, and no rejected argument sequence.",
  ["impl/src/parse.rs", "impl/src/tagged_trait.rs"], [("TraitArgs::parse", "impl/src/parse.rs"), ("ImplArgs::parse", "impl/src/parse.rs")], ["compiler diagnostics", S, D])
p("C19", "Send and Sync trait objects behave like the plain one",
  "Serialize is available for the trait object with every combination of Send and Sync, and produces the same output as the plain trait object. Deserialize is available for a boxed trait object with a combination of Send and Sync exactly when each of them is named, as Send or Sync, in the trait's list of supertraits, and yields the same outcome as the plain box.",
  ["programs", "inputs"], "every combination of supertraits and marker bounds, every value and document",
  "Availability is sampled at compile time; no marker object is ever serialized or deserialized, and no forbidden combination is checked.",
  ["impl/src/tagged_trait.rs"], [("marker impls, Strictest", "impl/src/tagged_trait.rs"), ("has_supertrait", "impl/src/tagged_trait.rs")], ["compiler diagnostics", S, D])
p("C20", "The tag is the given name, or else the type's own name",
  "An implementation's tag is the value of its name expression (literal, constant or other expression) when given, and otherwise the last path segment of the type's name without generic arguments; the same tag is used when serializing and when deserializing, in each trait independently. The tag and key strings are used verbatim whatever characters they contain. A type alias counts by the name written; how a raw identifier is spelled is left open.",
  ["programs", "inputs"], "every way of naming the type or the tag, every string",
  "All tests use plain identifiers and the default name.",
  ["impl/src/tagged_impl.rs"], [("type_name", "impl/src/tagged_impl.rs"), ("typetag_name", "impl/src/tagged_impl.rs")], [S, D])
p("C21", "Both directions agree on human readability",
  "For every component of a trait object, the deserializing side sees the same answer to \"is the format human readable\" as the serializing side saw, in every representation, position and format, so that values with a text form and a compact form are read back in the form they were written; every component, the outermost value included, sees the format's own answer.",
  ["inputs", "configurations"], "every position of a component in every kind of value, human-readable and compact formats",
  "No test contains a value whose form depends on human readability.",
  ["src/ser.rs", "src/internally.rs", "src/content.rs"], [("is_human_readable", "adapters in src/ser.rs, src/internally.rs")], [S, D])
p("C22", "Trait objects nest in any combination",
  "A trait object stored inside the value of another trait object, of the same or another trait and representation, to any depth and in any container, serializes to the outer form with the inner form in place and deserializes back to the same implementations and values, also when tags are out of order on some or all levels.",
  ["inputs", "configurations"], "every combination of representations, every nesting of trait objects and containers, every tag order",
  "No test nests trait objects.",
  ["src/externally.rs", "src/internally.rs", "src/adjacently.rs", "src/content.rs", "src/ser.rs"], [("adapters composed with themselves", "src/*ly.rs")], [S, D])
p("C23", "Outcomes do not depend on what happened before",
  "The outcome of each serialization or deserialization is a function of its own input only: in any sequence of operations on any traits and threads, successful or failing, each operation gives the same outcome it gives as the first operation of a fresh process.",
  ["histories"], "every sequence of serializations and deserializations, including failed ones",
  "Each test performs one or two operations in a fixed order.",
  ["impl/src/tagged_trait.rs", "src/de.rs"], [("static registry", "impl/src/tagged_trait.rs")], [S, D])
p("C24", "Unsupported declarations are compile errors, supported ones compile",
  "Compilation is rejected for: an attributed trait or impl with an associated const, a trait with an associated type not restricted to sized Self, a deserializable generic trait or impl, an inherent impl, an item that is no trait or impl, an implementation without a derivable name and no explicit one, and an implementation of an attributed trait lacking the attribute. Serialize-only traits may be generic and need no Deserialize, and all other trait and impl forms that Rust itself allows for trait objects (methods, supertraits, visibility, unsafe, macro-generated types) compile. Associated types restricted by the bound Self: Sized are allowed.",
  ["programs"], "every combination of mode (serialize, deserialize, both) and declaration form",
  "Six rejected programs are sampled.",
  ["impl/src/parse.rs", "impl/src/tagged_impl.rs", "impl/src/tagged_trait.rs", "impl/src/lib.rs"], [("Input::parse", "impl/src/parse.rs"), ("expand", "impl/src/tagged_impl.rs")], ["compiler diagnostics"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
