#!/usr/bin/env python3
"""Single source of the trait configurations under test.

Writes harness/core/src/traits.rs, harness/ext/src/lib.rs and
spec/Configs.tla.  Run by hand after a change; the results are committed.
"""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


SLOW = "\ue000"   # stands for the long text of harness/core/src/long.txt


def enc(s):
    if SLOW in s:
        return "%~".join(map(enc, s.split(SLOW)))
    out = []
    for b in s.encode():
        c = chr(b)
        if c.isascii() and (c.isalnum() or c in "_-.: +#$*?/"):
            out.append(c)
        else:
            out.append("%%%02X" % b)
    return "".join(out)


UNI = "ünï \"q\"\\\n%"
UTAG = "t\u00e4g \"k\""

# id, representation, tag, content, default variant, deny_unknown_fields
CFG = []


def cfg(id, rep, tag="", content="", default=None, deny=False, order="", mode="serde", sup="", full=True):
    CFG.append(dict(id=id, rep=rep, tag=tag, content=content, default=default, deny=deny,
                    order=order, mode=mode, sup=sup, full=full))


cfg("ext0", "ext")
cfg("int0", "int", "type")
cfg("int1", "int", "t", default="A")
cfg("int2", "int", "value")
cfg("int3", "int", "")
cfg("int4", "int", UTAG)
cfg("int5", "int", "t", default="nope")
cfg("int6", "int", "t", default="dup")
cfg("int7", "int", "a")
cfg("adj0", "adj", "t", "c")
cfg("adj1", "adj", "t", "c", default="A")
cfg("adj2", "adj", "t", "c", deny=True)
cfg("adj3", "adj", "t", "c", default="A", deny=True, order="dd")
cfg("adj4", "adj", "t", "c", default="B", deny=True, order="rev")
cfg("adj5", "adj", "t", "c", default="nope")
cfg("adj6", "adj", "c", "t")
cfg("adj7", "adj", "value", "type")
cfg("adj8", "adj", "", UTAG)
cfg("adj9", "adj", "t", "c", default="dup")
# one direction only
cfg("sero", "int", "t", mode="serialize", full=False)
cfg("serx", "ext", mode="serialize", full=False)
cfg("sera", "adj", "t", "c", mode="serialize", full=False)
cfg("deo", "int", "t", default="B", mode="deserialize", full=False)
cfg("dex", "ext", mode="deserialize", full=False)
cfg("dea", "adj", "t", "c", mode="deserialize", full=False)
# many registrations
cfg("big", "int", "t", full=False)
# tags that take long to compare
cfg("slowe", "ext", full=False)
cfg("slowi", "int", "t", full=False)
cfg("slowa", "adj", "t", "c", full=False)
# marker supertraits
for rep, kw in (("ext", {}), ("int", dict(tag="t")), ("adj", dict(tag="t", content="c"))):
    for s, sup in (("n", ""), ("s", "Send"), ("y", "Sync"), ("b", "Send + Sync")):
        cfg("m%s%s" % (rep, s), rep, sup=sup, full=False, **kw)

# type name, tag expression or None for the default, tag, what it says it is
COMMON = [
    ("A", None, "A"),
    ("B", "\"B\"", "B"),
    ("C", None, "C"),
    ("Value", "\"value\"", "value"),
    ("Empty", "\"\"", ""),
    ("Uni", json.dumps(UNI, ensure_ascii=False), UNI),
    ("Konst", "KONST", "K"),
    ("Cat", "concat!(\"ca\", \"t\")", "cat"),
    ("Dup1", "\"dup\"", "dup"),
    ("Dup2", "\"dup\"", "dup"),
    ("Trip1", "\"trip\"", "trip"),
    ("Trip2", "\"trip\"", "trip"),
    ("Trip3", "\"trip\"", "trip"),
    ("Quad1", "\"quad\"", "quad"),
    ("Quad2", "\"quad\"", "quad"),
    ("Quad3", "\"quad\"", "quad"),
    ("Quad4", "\"quad\"", "quad"),
    ("DupX1", "\"dupx\"", "dupx"),
    ("Sizeless", "\"sizeless\"", "sizeless"),
    ("Wide", "\"wide\"", "wide"),
]
BIG = 288
EXT = [("XA", None, "XA"), ("DupX2", "\"dupx\"", "dupx"), ("XZ", "\"~last\"", "~last")]


def lit(s):
    if s.startswith(SLOW):
        return "slow!(%s)" % lit(s[1:])
    return json.dumps(s, ensure_ascii=False)


def types_of(c):
    """(type, name expression, tag) registered in the core crate"""
    if "types" in c:
        return c["types"]
    if c["id"] == "big":
        l = [("N::<%d>" % i, "\"n%03d\"" % i, "n%03d" % i) for i in range(BIG)]
        l += [("N::<%d>" % (BIG + i), "\"n%03d\"" % (10 * i), "n%03d" % (10 * i)) for i in range(BIG // 10)]
        return l
    if c["id"].startswith("slow"):
        l = [("N::<%d>" % i, "slow!(\"%02d\")" % i, SLOW + "%02d" % i) for i in range(40)]
        return l + [("N::<%d>" % (40 + i), "slow!(\"%02d\")" % (10 * i), SLOW + "%02d" % (10 * i)) for i in range(4)]
    if not c["full"]:
        l = COMMON[:3] + COMMON[8:10] + COMMON[6:7] + COMMON[-2:]
    else:
        l = list(COMMON)
    # the names are attached differently in every other trait
    if CFG.index(c) % 2:
        l = [(t, ("\"%s\"" % tag if e is None else e), tag) for (t, e, tag) in l]
    l.append(("Only", "\"only-%s\"" % c["id"], "only-" + c["id"]))
    # in some traits the tags A and B are exchanged: the registry is per trait
    if c["id"] in ("int7", "adj6"):
        l = [(t, e, tag) for (t, e, tag) in l if t not in ("A", "B")]
        l += [("A", "\"B\"", "B"), ("B", "\"A\"", "A")]
    return l


def ext_of(c):
    return EXT if c["full"] else []


def tname(c):
    return "T" + c["id"].capitalize()


def attr(c):
    if c["rep"] == "ext":
        a = ""
    elif c["rep"] == "int":
        a = "tag = " + lit(c["tag"])
        if c["default"] is not None:
            a += ", default_variant = " + lit(c["default"])
    else:
        a = "tag = %s, content = %s" % (lit(c["tag"]), lit(c["content"]))
        d = [", default_variant = " + lit(c["default"])] if c["default"] is not None else []
        n = [", deny_unknown_fields"] if c["deny"] else []
        a += "".join(n + d if c["order"] == "rev" else d + n)
    return "#[typetag::%s%s]" % (c["mode"], "(" + a + ")" if a else "")


def rust():
    o = []
    w = o.append
    w("// Generated by tools/gen_cfg.py; do not edit.\n")
    w("use crate::node::Node;")
    w("use crate::slow;")
    w("use serde::{Deserialize, Deserializer, Serialize, Serializer};\n")
    w("/// What every implementation can tell about itself.")
    w("pub trait Obj {")
    w("    fn who(&self) -> &'static str;")
    w("    fn node(&self) -> &Node;")
    w("}\n")
    w("pub const KONST: &str = \"K\";\n")
    w("#[macro_export]")
    w("macro_rules! concrete {")
    w("    ($($t:ident)*) => {$(")
    w("        pub struct $t(pub $crate::node::Node);")
    w("        impl serde::Serialize for $t {")
    w("            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {")
    w("                self.0.serialize(s)")
    w("            }")
    w("        }")
    w("        impl From<$crate::node::Node> for $t {")
    w("            fn from(n: $crate::node::Node) -> Self { $t(n) }")
    w("        }")
    w("        impl<'de> serde::Deserialize<'de> for $t {")
    w("            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {")
    w("                $crate::schema::read_top(d).map($t)")
    w("            }")
    w("        }")
    w("        impl $crate::traits::Obj for $t {")
    w("            fn who(&self) -> &'static str { stringify!($t) }")
    w("            fn node(&self) -> &$crate::node::Node { &self.0 }")
    w("        }")
    w("    )*}")
    w("}")
    names = [t for t, _, _ in COMMON if t not in ("Sizeless", "Wide")] + ["Only"]
    w("concrete! { %s }\n" % " ".join(names))
    w("thread_local! {")
    w("    static LAST: std::cell::Cell<Option<&'static Node>> = const { std::cell::Cell::new(None) };")
    w("}\n")
    w("/// A type without size; what it stands for is kept beside it, for as long as")
    w("/// no other is made.")
    w("pub struct Sizeless;")
    w("pub fn sizeless(n: Node) -> Sizeless {")
    w("    LAST.set(Some(Box::leak(Box::new(n))));")
    w("    Sizeless")
    w("}")
    w("/// A type larger and more strictly aligned than others.")
    w("#[repr(align(128))]")
    w("pub struct Wide(pub Node, pub [u64; 40]);")
    w("pub fn wide(n: Node) -> Wide {")
    w("    Wide(n, [0x5a5a; 40])")
    w("}")
    for t, make, at in (("Sizeless", "sizeless", "LAST.get().unwrap()"), ("Wide", "wide", "&self.0")):
        w("impl Serialize for %s {" % t)
        w("    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {")
        if t == "Wide":
            w("        assert!(self as *const Wide as usize % 128 == 0 && self.1 == [0x5a5a; 40]);")
        w("        self.node().serialize(s)")
        w("    }")
        w("}")
        w("impl<'de> Deserialize<'de> for %s {" % t)
        w("    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {")
        w("        crate::schema::read_top(d).map(%s)" % make)
        w("    }")
        w("}")
        w("impl Obj for %s {" % t)
        w("    fn who(&self) -> &'static str {")
        w("        %s\"%s\"" % ("assert!(self as *const Wide as usize % 128 == 0 && self.1 == [0x5a5a; 40]);\n        " if t == "Wide" else "", t))
        w("    }")
        w("    fn node(&self) -> &Node {")
        w("        %s" % at)
        w("    }")
        w("}")
    w("")
    w("/// A family of types for a trait with many implementations.")
    w("pub struct N<const I: usize>(pub Node);")
    w("impl<const I: usize> Serialize for N<I> {")
    w("    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {")
    w("        self.0.serialize(s)")
    w("    }")
    w("}")
    w("impl<'de, const I: usize> Deserialize<'de> for N<I> {")
    w("    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {")
    w("        crate::schema::read_top(d).map(N)")
    w("    }")
    w("}")
    w("impl<const I: usize> Obj for N<I> {")
    w("    fn who(&self) -> &'static str {")
    w("        crate::tok::intern(&format!(\"N::<{}>\", I))")
    w("    }")
    w("    fn node(&self) -> &Node { &self.0 }")
    w("}\n")
    for c in CFG:
        sup = "Obj" + (" + " + c["sup"] if c["sup"] else "")
        w(attr(c))
        w("pub trait %s: %s {}" % (tname(c), sup))
        for t, e, tag in types_of(c):
            w("#[typetag::%s%s]\nimpl %s for %s {}" % (c["mode"], "(name = %s)" % e if e else "", tname(c), t.replace("::<", "<")))
        w("")
    w("pub struct Make {")
    w("    pub cfg: &'static str,")
    w("    pub tag: &'static str,")
    w("    pub ty: &'static str,")
    w("}\n")
    w("/// Every registration: configuration, tag, type.")
    w("pub const ALL: &[Make] = &[")
    for c in CFG:
        for t, e, tag in types_of(c) + ext_of(c):
            w("    Make { cfg: %s, tag: %s, ty: %s }," % (lit(c["id"]), lit(tag), lit(t)))
    w("];\n")
    w("/// Configuration, representation, tag key, content key.")
    w("pub const REPS: &[(&str, &str, &str, &str)] = &[")
    for c in CFG:
        w("    (%s, %s, %s, %s)," % (lit(c["id"]), lit(c["rep"]), lit(c["tag"]), lit(c["content"])))
    w("];\n")
    w("/// The tag under which a type is registered in a trait.")
    w("pub fn tag_of(cfg: &str, ty: &str) -> &'static str {")
    w("    ALL.iter().find(|m| m.cfg == cfg && m.ty == ty).map_or(\"\", |m| m.tag)")
    w("}\n")
    w("/// Trait objects made by other crates.")
    w("pub type Maker = fn(&str, &str, Node) -> Option<Box<dyn std::any::Any>>;")
    w("pub static EXTERNAL: std::sync::OnceLock<Maker> = std::sync::OnceLock::new();\n")
    w("fn no_type(cfg: &str, ty: &str) -> ! {")
    w("    panic!(\"no implementation {} in {}\", ty, cfg)")
    w("}\n")

    def maker(c, mk="", name="make"):
        n = "%s_%s%s" % (name, c["id"], "" if not mk else "_" + mk[1])
        w("pub fn %s(ty: &str, node: Node) -> Box<dyn %s%s> {" % (n, tname(c), mk[0] if mk else ""))
        w("    match ty {")
        for t, e, tag in types_of(c):
            w("        %s => Box::new(%s(node))," % (lit(t), t.lower() if t in ("Sizeless", "Wide") else t))
        if ext_of(c):
            w("        _ => {")
            w("            let f = EXTERNAL.get().expect(\"external crate\");")
            w("            match f(%s, ty, node) {" % lit(c["id"]))
            w("                Some(x) => *x.downcast::<Box<dyn %s>>().unwrap()," % tname(c))
            w("                None => no_type(%s, ty)," % lit(c["id"]))
            w("            }")
            w("        }")
        else:
            w("        _ => no_type(%s, ty)," % lit(c["id"]))
        w("    }")
        w("}")

    MK = [(" + Send", "s"), (" + Sync", "y"), (" + Send + Sync", "b")]
    for c in CFG:
        maker(c)
        if not c["full"] and c["id"].startswith("m"):
            for mk in MK:
                maker(c, mk)
    w("")
    w("/// Serializes `node` as the trait object of type `ty` (or of the first type")
    w("/// with that tag).")
    w("pub fn ser_obj<S: Serializer>(cfg: &str, tag: &str, node: &Node, s: S) -> Result<S::Ok, S::Error> {")
    w("    let ty = ALL.iter().find(|m| m.cfg == cfg && m.tag == tag)")
    w("        .map_or_else(|| no_type(cfg, tag), |m| m.ty);")
    w("    match cfg {")
    for c in CFG:
        if c["mode"] != "deserialize" and c["full"]:
            w("        %s => make_%s(ty, node.clone()).serialize(s)," % (lit(c["id"]), c["id"]))
    w("        _ => panic!(\"configuration {}\", cfg),")
    w("    }")
    w("}\n")
    w("pub fn de_obj<'de, D: Deserializer<'de>>(cfg: &'static str, d: D) -> Result<Node, D::Error> {")
    w("    match cfg {")
    for c in CFG:
        if c["mode"] != "serialize" and c["full"]:
            w("        %s => Box::<dyn %s>::deserialize(d).map(|b| got(cfg, b.who(), b.node()))," % (lit(c["id"]), tname(c)))
    w("        _ => panic!(\"configuration {}\", cfg),")
    w("    }")
    w("}\n")
    w("fn got(cfg: &'static str, ty: &'static str, node: &Node) -> Node {")
    w("    Node::Obj(cfg, tag_of(cfg, ty), Box::new(node.clone()))")
    w("}\n")
    w("/// The traits with marker supertraits or only one direction, through every")
    w("/// combination of Send and Sync (`mk`) that exists.")
    w("pub fn ser_marker<S: Serializer>(cfg: &str, mk: &str, tag: &str, node: &Node, s: S) -> Result<S::Ok, S::Error> {")
    w("    let ty = ALL.iter().find(|m| m.cfg == cfg && m.tag == tag)")
    w("        .map_or_else(|| no_type(cfg, tag), |m| m.ty);")
    w("    match (cfg, mk) {")
    for c in CFG:
        if c["mode"] != "deserialize" and not c["full"]:
            w("        (%s, \"\") => make_%s(ty, node.clone()).serialize(s)," % (lit(c["id"]), c["id"]))
            if c["id"].startswith("m"):
                for mk in MK:
                    w("        (%s, %s) => make_%s_%s(ty, node.clone()).serialize(s)," % (lit(c["id"]), lit(mk[1]), c["id"], mk[1]))
    w("        _ => panic!(\"configuration {} {}\", cfg, mk),")
    w("    }")
    w("}\n")
    w("pub fn de_marker<'de, D: Deserializer<'de>>(cfg: &'static str, mk: &str, d: D) -> Result<Node, D::Error> {")
    w("    match (cfg, mk) {")
    for c in CFG:
        if c["mode"] != "serialize" and not c["full"]:
            mks = [("", "")]
            if c["sup"]:
                mks += [m for m in MK if set(m[0].replace("+", " ").split()) <= set(c["sup"].replace("+", " ").split())]
            for m in mks:
                w("        (%s, %s) => Box::<dyn %s%s>::deserialize(d).map(|b| got(cfg, b.who(), b.node()))," % (lit(c["id"]), lit(m[1]), tname(c), m[0]))
    w("        _ => panic!(\"configuration {} {}\", cfg, mk),")
    w("    }")
    w("}\n")
    w("pub fn de_markers(cfg: &str) -> &'static [&'static str] {")
    w("    match cfg {")
    for c in CFG:
        if c["mode"] != "serialize" and not c["full"]:
            mks = [""]
            if c["sup"]:
                mks += [m[1] for m in MK if set(m[0].replace("+", " ").split()) <= set(c["sup"].replace("+", " ").split())]
            w("        %s => &[%s]," % (lit(c["id"]), ", ".join(lit(m) for m in mks)))
    w("        _ => &[],")
    w("    }")
    w("}")
    e = []
    w = e.append
    w("// Generated by tools/gen_cfg.py; do not edit.\n")
    w("//! Implementations in another crate than their traits.\n")
    w("use vcore::node::Node;")
    w("use vcore::traits::*;\n")
    w("vcore::concrete! { %s }\n" % " ".join(t for t, _, _ in EXT))
    for c in CFG:
        for t, x, tag in ext_of(c):
            w("#[typetag::%s%s]\nimpl %s for %s {}" % (c["mode"], "(name = %s)" % x if x else "", tname(c), t))
    w("\npub fn make(cfg: &str, ty: &str, node: Node) -> Option<Box<dyn std::any::Any>> {")
    w("    match (cfg, ty) {")
    for c in CFG:
        for t, x, tag in ext_of(c):
            w("        (%s, %s) => Some(Box::new(Box::new(%s(node)) as Box<dyn %s>))," % (lit(c["id"]), lit(t), t, tname(c)))
    w("        _ => None,")
    w("    }")
    w("}")
    return "\n".join(o) + "\n", "\n".join(e) + "\n"


def tla(cfgs=None):
    cfgs = cfgs or CFG
    o = []
    w = o.append
    w("------------------------------ MODULE Configs ------------------------------")
    w("(* Generated by tools/gen_cfg.py; do not edit.                             *)")
    w("(* The attribute arguments of every trait under test and the tags that are  *)")
    w("(* registered in it: `uniq` exactly once, `dups` more than once.            *)")
    w("")
    w("ConfigIds == {%s}" % ", ".join('"%s"' % c["id"] for c in cfgs))
    w("")
    w("Cfg == [")
    rows = []
    for c in cfgs:
        cnt = {}
        for t, e, tag in types_of(c) + ext_of(c):
            cnt[tag] = cnt.get(tag, 0) + 1
        uniq = sorted(t for t in cnt if cnt[t] == 1)
        dups = sorted(t for t in cnt if cnt[t] > 1)
        names = sorted(cnt, key=lambda s: s.encode())
        q = lambda s: '"%s"' % enc(s)
        rows.append(("  %s |-> [rep |-> %s, tag |-> %s, content |-> %s, hasdef |-> %s, def |-> %s, deny |-> %s,\n"
                     "    uniq |-> {%s},\n    dups |-> {%s},\n    names |-> <<%s>>,\n    mode |-> %s, send |-> %s, sync |-> %s]") % (
            c["id"], q(c["rep"]), q(c["tag"]), q(c["content"]), "FALSE" if c["default"] is None else "TRUE",
            q(c["default"] or ""), "TRUE" if c["deny"] else "FALSE",
            ", ".join(map(q, uniq)), ", ".join(map(q, dups)), ", ".join(map(q, names)),
            q(c["mode"]), "TRUE" if "Send" in c["sup"] else "FALSE", "TRUE" if "Sync" in c["sup"] else "FALSE"))
    w(",\n".join(rows))
    w("]")
    w("=============================================================================")
    return "\n".join(o) + "\n"


def put(path, text):
    p = os.path.join(ROOT, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


if __name__ == "__main__":
    a, b = rust()
    put("harness/core/src/traits.rs", a)
    put("harness/ext/src/lib.rs", b)
    put("spec/Configs.tla", tla())
