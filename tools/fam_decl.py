"""Declarations: attribute arguments, names, markers, forms of traits and
implementations (C18, C19, C20, C24).

The cases are printed by TLC from the specification with what is due to them.
Each becomes a module of a generated crate.  Modules that do not compile are
taken out, one round after the other, until the rest compiles; what compiled
and is meant to run is linked with the driver."""
import json
import os
import re
import subprocess
import lib
import gen_cfg
import vgen as V

enc = gen_cfg.enc


# ------------------------------------------------------------------ compiling
def build_libs(ck, feats=""):
    """builds the driver's libraries; -> arguments for rustc"""
    cmd = ["cargo", "build", "--offline", "--message-format=json"]
    env = dict(os.environ, RUSTFLAGS="-Awarnings")
    p = subprocess.run(cmd, cwd=lib.HARNESS, env=env, capture_output=True, text=True)
    if p.returncode:
        q = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "typetag"], cwd=lib.HARNESS,
                           env=env, capture_output=True, text=True)
        msgs = []
        for l in p.stdout.splitlines():
            if l.startswith("{"):
                m = json.loads(l)
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                    msgs.append(m["message"]["rendered"])
        if q.returncode == 0:
            raise lib.BuildError("".join(msgs)[-4000:])
        raise lib.ToolError("build of /repo failed:\n" + "".join(msgs)[-3000:] + p.stderr[-1000:])
    ext = {}
    for l in p.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact":
            continue
        n = m["target"]["name"].replace("-", "_")
        for f in m["filenames"]:
            if f.endswith(".rlib"):
                ext.setdefault(n, f)
    args = []
    for n in ("typetag", "serde", "vcore", "vdrv"):
        args += ["--extern", "%s=%s" % (n, ext[n])]
    # a hard linked copy of its own would be safer still, but checks run one at a time
    deps = os.path.join(lib.HARNESS, "target", "debug", "deps")
    ck.log("libraries built")
    return ["-L", "dependency=" + deps] + args


def rustc(ck, libs, name, text, kind="lib", edition="2021"):
    """-> (ok, [(line, message)])"""
    d = os.path.join(ck.work, "decl")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, name + ".rs")
    open(src, "w").write(text)
    cmd = ["rustc", "--edition", edition, "--crate-name", name, "--crate-type", kind, "--error-format=json", "-Awarnings",
           "--cap-lints", "allow", "-Cdebuginfo=0"] + libs + [src]
    if kind == "lib":
        cmd += ["--emit=metadata", "-o", os.path.join(d, "lib%s.rmeta" % name)]
    else:
        cmd += ["-o", os.path.join(d, name)]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=d, timeout=800)
    errs = []
    for l in p.stderr.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if not m.get("level", "").startswith("error") or m["message"].startswith("aborting due"):
            continue
        lines = set()
        for s in m["spans"]:
            while s:
                if s["file_name"] == src:
                    lines.add((not s["is_primary"], s["line_start"]))
                s = s["expansion"]["span"] if s.get("expansion") else None
        for ch in m.get("children", []):
            for s in ch["spans"]:
                while s:
                    if s["file_name"] == src:
                        lines.add((True, s["line_start"]))
                    s = s["expansion"]["span"] if s.get("expansion") else None
        errs.append((min(lines)[1] if lines else 0, m["message"]))
    if p.returncode and not errs:
        raise lib.ToolError("rustc %s: %s" % (name, p.stderr[-2000:]))
    return p.returncode == 0, errs


def layout(head, mods):
    """-> text, first line of every module"""
    out = head.rstrip("\n") + "\n"
    at, n = [], out.count("\n") + 1
    for i, t in mods:
        t = t.rstrip("\n") + "\n"
        at.append((n, i))
        n += t.count("\n")
        out += t
    return out, at


def compiles(ck, libs, head, mods, edition="2021", name="c", parts=8, kind="lib", tail=None):
    """which modules compile: id -> [] or the messages.  tail(ids): what
    follows the modules, given those still there"""
    n = max(1, min(max(parts, len(mods) // 700), (len(mods) + 19) // 20))

    def one(k):
        left = dict(mods[k::n])
        res, rounds = {}, 0
        while left:
            rounds += 1
            if rounds > 40:
                raise lib.ToolError("no end to the errors of %s" % name)
            text, at = layout(head, list(left.items()))
            if tail:
                text += tail(list(left))
            ok, errs = rustc(ck, libs, "%s%d" % (name, k), text, kind, edition)
            if ok:
                break
            hit = {}
            for line, msg in errs:
                ids = [i for (a, i) in at if a <= line]
                if not line or not ids or (tail and line > text.count("\n") - tail(list(left)).count("\n")):
                    raise lib.ToolError("error outside of the modules: %s" % msg)
                hit.setdefault(ids[-1], []).append(msg)
            for i in hit:
                res[i] = hit[i]
                del left[i]
        for i in left:
            res[i] = []
        return res
    out = {}
    for r in ck.pool.map(one, range(n)):
        out.update(r)
    return out


# ------------------------------------------------------- attribute arguments
def literal(s, style=0):
    """Rust source of a string"""
    if style == 1 and "#" not in s and s.isprintable():
        return 'r#"%s"#' % s if '"' in s else 'r"%s"' % s
    if style == 2:
        return '"' + "".join("\\u{%x}" % ord(c) if not c.isalnum() or ord(c) > 126 else c for c in s) + '"'
    return gen_cfg.lit(s).replace("\\u0000", "\\u{0}")


def token(t, style=0):
    return literal(V_dec(t[1]), style) if t[0] == "s" else t[1]


def V_dec(s):
    import urllib.parse
    return urllib.parse.unquote(s)


def attr(mode, ts, style=0):
    return "#[typetag::%s%s]" % (mode, "(" + " ".join(token(t, style) for t in ts) + ")" if ts or style == 3 else "")


HEAD = """#![allow(warnings)]
pub mod prelude {
    pub use serde::{Serialize, Deserialize};
    pub const KONST: &str = "K";
    #[derive(Serialize, Deserialize)]
    pub struct A;
}
"""


def unique(cases, *keys):
    seen = {}
    for c in cases:
        seen.setdefault(json.dumps([c[k] for k in keys]), c)
    return list(seen.values())


def arg_module(i, case, mode="serde"):
    if case["kind"] == "trait":
        body = "%s pub trait T {}" % attr(mode, case["ts"])
    else:
        body = "#[typetag::%s] pub trait T {} %s impl T for A {}" % (mode, attr(mode, case["ts"]))
    return "mod %s { use crate::prelude::*; %s }" % (i, body)


# ------------------------------------------------------------------- running
RUNHEAD = """#![allow(warnings)]
pub mod prelude {
    pub use serde::{Serialize, Deserialize, Serializer, Deserializer};
    pub use vcore::node::Node;
    pub use vcore::traits::Obj;
    pub use vcore::rec::{Rec, RecErr};
    pub use vcore::doc::{De, DocErr};
    pub const KONST: &str = "K";
    pub type Out = Result<(), RecErr>;
    pub type In = Result<Node, DocErr>;
    pub fn no(x: &str) -> ! { panic!("no {}", x) }
    vcore::concrete! { A B D E }
}
"""
MKS = [("", ""), ("s", " + Send"), ("y", " + Sync"), ("b", " + Send + Sync")]


class Decl:
    """a trait with implementations that is to be run

    rep, tag, content, default, deny: what it is due to mean; impls: (type,
    attribute, tag, what it calls itself)"""
    def __init__(self, id, rep, tag="", content="", default=None, deny=False, mode="serde", attr="#[typetag::serde]", sup="",
                 impls=(), before="", name="T", vis="pub ", mks=("",)):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.impls = list(impls)

    def row(self):
        """as one of gen_cfg.CFG"""
        return dict(id=self.id, rep=self.rep, tag=self.tag, content=self.content, default=self.default, deny=self.deny, order="",
                    mode=self.mode, sup=self.sup, full=False, types=[(t, None, tag) for t, _, tag, _ in self.impls])

    def text(self):
        o = ["mod %s {" % self.id, "use crate::prelude::*;", self.before,
             "%s %strait %s: Obj%s {}" % (self.attr, self.vis, self.name, " + " + self.sup if self.sup else "")]
        for ty, at, tag, who in self.impls:
            o.append("%s impl %s for %s {}" % (at, self.name, ty) if not at.startswith("!") else at[1:])
        if self.mode != "deserialize":
            o.append("pub fn ser(mk: &str, tag: &str, n: &Node, r: Rec) -> Out { match mk {")
            for mk, m in MKS:
                if mk in self.mks:
                    o.append("%s => { let b: Box<dyn %s%s> = match tag {" % (literal(mk), self.name, m))
                    for ty, at, tag, who in self.impls:
                        o.append("%s => Box::new(<%s>::from(n.clone()))," % (literal(tag), ty))
                    o.append("t => no(t) }; b.serialize(r) }")
            o.append("t => no(t) } }")
        if self.mode != "serialize":
            o.append("pub fn de(mk: &str, d: De) -> In { let (w, n) = match mk {")
            for mk, m in MKS:
                if mk in self.mks and set(m.split()) <= set(("+ " + self.sup).split()) | {""}:
                    o.append("%s => Box::<dyn %s%s>::deserialize(d).map(|b| (b.who(), b.node().clone()))?," % (literal(mk), self.name, m))
            o.append("t => no(t) }; Ok(Node::Obj(%s, match w {" % literal(self.id))
            for ty, at, tag, who in self.impls:
                o.append("%s => %s," % (literal(who), literal(tag)))
            o.append("t => no(t) }, Box::new(n))) }")
        o.append("}")
        return "\n".join(o)


def tail(by):
    def f(ids):
        o = ["fn ser(c: &str, mk: &str, tag: &str, n: &vcore::node::Node, r: vcore::rec::Rec) -> prelude::Out { "
             "match c {"]
        o += ["%s => %s::ser(mk, tag, n, r)," % (literal(i), i) for i in ids if by[i].mode != "deserialize"]
        o += ["t => prelude::no(t) } }", "fn de(c: &'static str, mk: &str, d: vcore::doc::De) -> prelude::In { match c {"]
        o += ["%s => %s::de(mk, d)," % (literal(i), i) for i in ids if by[i].mode != "serialize"]
        o += ["t => prelude::no(t) } }", "fn main() { vdrv::main_with(Some(vdrv::Extra { ser, de })) }", ""]
        return "\n".join(o)
    return f


def spec_with(ck, rows, name="spec"):
    """a copy of the specification with other configurations"""
    import shutil
    d = os.path.join(ck.work, name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(lib.SPEC, d)
    open(os.path.join(d, "Configs.tla"), "w").write(gen_cfg.tla([c for c in gen_cfg.CFG if c["full"]] + rows))
    return d


class Program:
    """the declarations of one generated program in several parts"""
    def __init__(self, ck, libs, decls, name="p", head=RUNHEAD, edition="2021"):
        self.ck, self.by = ck, {d.id: d for d in decls}
        self.part, self.failed = {}, {}
        n = max(1, min(8, (len(decls) + 7) // 8))
        self.exes = [os.path.join(ck.work, "decl", "%s%d" % (name, k)) for k in range(n)]
        mods = [(d.id, d.text()) for d in decls]

        def one(k):
            r = compiles(ck, libs, head, mods[k::n], edition, "%s%d_" % (name, k), 1, "bin", tail(self.by))
            exe = self.exes[k]
            if any(not v for v in r.values()):
                os.replace(os.path.join(ck.work, "decl", "%s%d_0" % (name, k)), exe)
            return k, r
        for k, r in lib.cf.ThreadPoolExecutor(8).map(one, range(n)):
            for i, errs in r.items():
                if errs:
                    self.failed[i] = errs
                else:
                    self.part[i] = k
        for d in decls:
            V.BYID[d.id] = d.row()

    def run(self, cases):
        """-> cases that were run and their recordings"""
        groups = {}
        for c in cases:
            if cfg_of(c) in self.part:
                groups.setdefault(self.part[cfg_of(c)], []).append(c)
        out = []
        ex = lib.cf.ThreadPoolExecutor(8)
        for (k, l), r in zip(groups.items(), ex.map(lambda a: self.ck._slice(self.exes[a[0]], "x%d" % a[0], a[1]), list(groups.items()))):
            out += list(zip(l, r))
        return [c for c, _ in out], [r for _, r in out]


def probes(seed, decls, rounds, ser=40):
    """values and inputs that tell configurations apart"""
    import fam_de as FD
    import fam_ser as FS
    out = []
    for d in decls:
        if d.mode != "deserialize":
            for k in range(rounds):
                g = V.Gen("pr%s/%s/%d" % (seed, d.id, k))
                for i, v in enumerate(g.catalogue(2)[:ser]):
                    tag = g.pick(d.impls)[2]
                    out.append(FS.case("s%s-%d-%d" % (d.id, k, i), V.obj(d.id, tag, v), hr=g.r.random() < .6, mk=g.pick(d.mks)))
        if d.mode != "serialize":
            l = FD.random_objs("%s%s" % (seed, d.id), 15 * rounds, [d.id], 2, "r%s-" % d.id)
            if d.rep == "adj":
                l += FD.adjkeys(seed, [d.id], 3, 1, "k")
            elif d.rep == "int":
                l += FD.positions(seed, 1, [d.id])[:60 * rounds]
            l += FD.tagged(seed, 1, [d.id])
            g = FD.DG("pm%s/%s" % (seed, d.id))
            for j, s in enumerate([FD.L["any"], FD.L["unit"], FD.sstruct([("x", FD.L["any"])]), FD.sopt(FD.L["any"])]):
                x = g.obj(FD.sobj(d.id, s))
                if x["k"] == "map" and d.rep != "ext":
                    es = [e for e in FD.pairs(x) if FD.gen_dec(e[0]["v"]) != d.tag]
                    l.append(FD.case("m%s-%d" % (d.id, j), FD.sobj(d.id, s), FD.dmap(es), mk=""))
            for c in l:
                c["mk"] = g.pick([m for m in d.mks if d.mode == "serialize" or set(MKSUP[m]) <= set(d.sup.replace("+", " ").split())])
            out += l
    return out


MKSUP = {"": [], "s": ["Send"], "y": ["Sync"], "b": ["Send", "Sync"]}


def cfg_of(c):
    return c["node"][0][1] if c["kind"] == "ser" else c["sch"]["v"]


def arg_decls(cases):
    """the accepted argument lists, to be run"""
    out = []
    for j, c in enumerate(c for c in cases if c["ok"]):
        for m, mode in enumerate(("serde", "serialize", "deserialize")):
            if m and j % 4 != m:
                continue
            at = "#[typetag::%s]" % mode
            cfg, name = c["cfg"], "A"
            first = at
            if c["kind"] == "impl":
                first = attr(mode, c["ts"], 3 * (j % 2))
                if c["name"]:
                    name = {"s": c["name"][1], "k": "K"}[c["name"][0]]
            # sometimes through a macro that hands on the literals
            head = attr(mode, c["ts"] if c["kind"] == "trait" else [], (0, 1, 2, 3)[j % 4])
            out.append(Decl("t%d%s" % (j, "bsd"[m]), cfg["rep"], cfg["tag"], cfg["content"], cfg["def"] if cfg["hasdef"] else None, cfg["deny"],
                            mode, head, impls=[("A", first, name, "A"), ("B", at, "B", "B"), ("D", "#[typetag::%s(name = \"d\")]" % mode, "d", "D")]))
    return out


# ------------------------------------------------------------------- markers
MARKHEAD = """#![allow(warnings)]
pub mod prelude {
    pub use serde::{Serialize, Deserialize};
    pub use std::marker::PhantomData;
    pub trait Obj {}
    pub trait Clone2 { fn clone2(&self) {} }
    // called like the markers
    pub mod other {
        pub trait Send {}
        impl<T: ?Sized> Send for T {}
        pub trait Sync {}
        impl<T: ?Sized> Sync for T {}
    }
    pub struct W<T: ?Sized>(PhantomData<T>);
    pub struct R<T: ?Sized>(PhantomData<T>);
    pub trait No { const YES: bool = false; }
    impl<T: ?Sized> No for W<T> {}
    impl<T: ?Sized> No for R<T> {}
    impl<T: ?Sized + Serialize> W<T> { pub const YES: bool = true; }
    impl<T: serde::de::DeserializeOwned> R<T> { pub const YES: bool = true; }
}
"""
REPARGS = {"ext": "", "int": "(tag = \"t\")", "adj": "(tag = \"t\", content = \"c\")"}


def bounds(i, sup):
    """a list of supertraits, written in one of several ways"""
    k = V.zlib.crc32(i.encode()) % 4 if sup else 0
    sup = [x if k != 1 or x[0] == "'" else "(%s)" % x for x in sup]
    if k == 2:
        sup = [x if x[0] == "'" else "for<'z> " + x for x in sup]
    return (": " if sup else "") + " + ".join(sup) + (" +" if k == 3 else "")


def mark_module(i, c, arg=None):
    obj = "T<u8>" if c["gen"] else "T"
    lt = "'static" if "'static" in c["sup"] else "'a"
    o = ["mod %s { use crate::prelude::*;" % i,
         "#[typetag::%s%s] pub trait %s%s {}" % (c["mode"], REPARGS[c["rep"]] if arg is None else arg, ("T<X: 'static>" if "'static" in c["sup"] else "T<X>") if c["gen"] else "T",
                                                 bounds(i, c["sup"])),
         "pub fn probe<'a>() -> Vec<(bool, bool, bool)> { vec!["]
    for mk, m in MKS:
        o.append("(W::<dyn %s%s>::YES, W::<dyn %s%s + %s>::YES, R::<Box<dyn %s%s>>::YES)," % (obj, m, obj, m, lt, obj, m))
    o.append("] } }")
    return "\n".join(o)


def mark_tail(ids):
    return "fn main() { %s }\n" % " ".join('println!("{} {:?}", "%s", %s::probe());' % (i, i) for i in ids)


def markers(ck, libs, cases, name="k"):
    """-> lines for TraceMark, text by id, failures"""
    mods = [("%s%d" % (name, i), mark_module("%s%d" % (name, i), c)) for i, c in enumerate(cases)]
    n = max(1, min(8, len(mods) // 50))
    by = dict(zip([i for i, _ in mods], cases))
    failed, lines = {}, []

    def one(k):
        r = compiles(ck, libs, MARKHEAD, mods[k::n], "2021", "%s%d_" % (name, k), 1, "bin", mark_tail)
        out = ""
        if any(not v for v in r.values()):
            out = subprocess.run([os.path.join(ck.work, "decl", "%s%d_0" % (name, k))], capture_output=True, text=True, timeout=100).stdout
        return r, out
    for r, out in lib.cf.ThreadPoolExecutor(8).map(one, range(n)):
        failed.update({i: e for i, e in r.items() if e})
        for l in out.splitlines():
            i, x = l.split(" ", 1)
            v = re.findall(r"\((\w+), (\w+), (\w+)\)", x)
            has = [{"mk": MKSUP[mk], "ser": a == "true", "de": d == "true"} for (mk, _), (a, b, d) in zip(MKS, v)]
            # with a lifetime of its own
            has += [{"mk": MKSUP[mk], "ser": b == "true", "de": d == "true"} for (mk, _), (a, b, d) in zip(MKS, v)]
            lines.append(dict(id=i, panic=False, has=has, mode=by[i]["mode"], sup=by[i]["sup"]))
    return lines, dict(mods), failed


def mark_decls(cases):
    """those that are run: the same values and inputs through every combination"""
    out = []
    for j, c in enumerate(cases):
        if c["gen"] or {"Clone2", "other::Send", "other::Sync"} & set(c["sup"]) or "std::fmt::Debug" in c["sup"] or not {"Send", "Sync"} & set(c["sup"]) and j % 5:
            continue
        at = "#[typetag::%s]" % c["mode"]
        named = set(c["sup"])
        mks = [m for m in MKSUP if c["mode"] != "deserialize" or set(MKSUP[m]) <= named]
        kw = dict(ext={}, int=dict(tag="t"), adj=dict(tag="t", content="c"))[c["rep"]]
        out.append(Decl("w%d" % j, c["rep"], mode=c["mode"], attr="#[typetag::%s%s]" % (c["mode"], REPARGS[c["rep"]]),
                        sup=" + ".join(x for x in c["sup"] if x != "Obj"), mks=mks,
                        impls=[("A", at, "A", "A"), ("B", "#[typetag::%s(name = \"b\")]" % c["mode"], "b", "B")], **kw))
    return out


# --------------------------------------------------------------------- names
NAMEHEAD = RUNHEAD.replace("    vcore::concrete! { A B D E }\n}\n", """    vcore::concrete! { A B D E }
    pub const NAME: &str = "const 1";
    pub const S: &str = "const 2";
    pub const T2: &str = "const 3";
    pub struct As;
    impl As { pub const NAME: &'static str = "assoc const"; }
    pub const fn call(x: &'static str) -> &'static str { x }
    pub struct Wr(pub &'static str);
    impl Wr { pub const fn get(self) -> &'static str { self.0 } }
    pub trait Other {}
    pub trait Proj { type Out; }
    impl Proj for A { type Out = u16; }
    pub mod m {
        use super::*;
        use std::marker::PhantomData;
        vcore::concrete! { X Y Unié Z }
        pub type Alias = Z;
        macro_rules! generic {
            ($t:ident [$($p:tt)*] [$($a:tt)*] $m:ty) => {
                pub struct $t<$($p)*>(Node, PhantomData<$m>);
                impl<$($p)*> Serialize for $t<$($a)*> {
                    fn serialize<Q: Serializer>(&self, s: Q) -> Result<Q::Ok, Q::Error> { self.0.serialize(s) }
                }
                impl<$($p)*> From<Node> for $t<$($a)*> { fn from(n: Node) -> Self { $t(n, PhantomData) } }
                impl<$($p)*> Obj for $t<$($a)*> {
                    fn who(&self) -> &'static str { stringify!($t) }
                    fn node(&self) -> &Node { &self.0 }
                }
            };
        }
        generic! { G [T: ?Sized] [T] fn() -> Box<T> }
        generic! { K [const N: usize] [N] () }
        generic! { L ['a] ['a] &'a () }
        impl<'de, T: ?Sized> Deserialize<'de> for G<T> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { vcore::schema::read_top(d).map(G::from) }
        }
        impl<'de, const N: usize> Deserialize<'de> for K<N> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { vcore::schema::read_top(d).map(K::from) }
        }
        impl<'de, 'a> Deserialize<'de> for L<'a> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { vcore::schema::read_top(d).map(L::from) }
        }
    }
}
extern crate self as krate;
#[macro_export] macro_rules! wrap { ($e:expr) => { $e } }
""")


def expr(e, style=0):
    k = e[0]
    if k == "lit":
        return literal(V_dec(e[1]), style)
    if k == "raw":
        return 'r#"%s"#' % V_dec(e[1])
    if k == "stringify":
        return "stringify!(%s)" % e[1]
    if k == "const":
        return ("", "crate::prelude::", "self::")[style] + e[1]
    if k == "assoc":
        return ("As::NAME", "<As>::NAME", "crate::prelude::As::NAME")[style]
    if k == "if":
        return "if %s { %s } else { %s }" % (str(e[1]).lower(), expr(e[2], style), expr(e[3], style))
    if k == "match":
        return "match 1u8 { 1 => %s, _ => %s }" % (expr(e[1], style), expr(e[2], style))
    if k == "index":
        return "[%s, %s][%d]" % (expr(e[2], style), expr(e[3], style), e[1])
    if k == "concat":
        return "concat!(%s, %s)" % (expr(e[1], style), expr(e[2], style))
    x = expr(e[1], style)
    return {"paren": "(%s)", "block": "{ %s }", "constblock": "{ const HERE: &str = %s; HERE }", "macro": "crate::wrap!(%s)", "call": "call(%s)",
            "deref": "*&(%s)", "method": "Wr(%s).get()"}[k] % x


def type_text(t):
    p = "::".join(t["pre"])
    last = V_dec(t["last"])
    a = t["args"]
    return (p + "::" if t["pre"] else "") + last + ("" if not a else "::<%s>" % a[3:] if a.startswith("::") else "<%s>" % a)


def name_decls(seed, lines, n):
    """modules of one type with its own name and four named ones"""
    r = V.random.Random("names%d" % seed)
    ex = [l for l in lines if l["what"] == "expr"]
    ty = [l for l in lines if l["what"] == "type"]
    ks = [l for l in lines if l["what"] == "keys"]
    for l in (ex, ty, ks):
        r.shuffle(l)
    # all the plain ones first
    ex.sort(key=lambda l: l["x"][0] not in ("lit", "raw", "const", "assoc", "stringify"))
    out = []
    for j in range(n):
        k = ks[j % len(ks)]["x"]
        t, own = ty[j % len(ty)]["x"], V_dec(ty[j % len(ty)]["due"])
        mode = ("serde", "serde", "serde", "serialize", "deserialize")[j % 5]
        at = "#[typetag::%s" % mode
        text = type_text(t)
        imp = {"": "{at}] impl T for {t} {{}}",
               "ty": "macro_rules! imp {{ ($t:ty) => {{ {at}] impl T for $t {{}} }} }} imp! {{ {t} }}",
               "ident": "macro_rules! imp {{ ($t:ident) => {{ {at}] impl T for $t {{}} }} }} imp! {{ {t} }}",
               "path": "macro_rules! imp {{ ($t:path) => {{ {at}] impl T for $t {{}} }} }} imp! {{ {t} }}",
               "tyty": "macro_rules! imp {{ ($t:ty) => {{ {at}] impl T for $t {{}} }} }} macro_rules! imp2 {{ ($t:ty) => {{ imp! {{ $t }} }} }} imp2! {{ {t} }}",
               }[t["thru"]].format(at=at, t=text)
        who = {"Alias": "Z"}.get(own, own)
        impls = [(text, "!" + imp, own, who)]
        used = {own}
        for q, c in enumerate("ABDE"):
            for _ in range(30):
                e = ex[(4 * j + q) % len(ex)] if _ == 0 else r.choice(ex)
                if V_dec(e["due"]) not in used:
                    break
            else:
                continue
            tag = V_dec(e["due"])
            used.add(tag)
            style = r.randrange(3)
            x = expr(e["x"], style)
            comma = "," if r.random() < .2 else ""
            y = r.random()
            if y < .15:
                a = "!macro_rules! n%s { ($n:expr) => { %s(name = $n%s)] impl T for %s {} } } n%s! { %s }" % (c, at, comma, c, c, x)
            elif y < .25 and e["x"][0] in ("lit", "raw"):
                a = "!macro_rules! n%s { ($n:literal, $t:ty) => { %s(name = $n)] impl T for $t {} } } n%s! { %s, %s }" % (c, at, c, x, c)
            else:
                a = "%s(name = %s%s)]" % (at, x, comma)
            impls.append((c, a, tag, c))
        args = []
        if k["rep"] != "ext":
            args.append("tag = " + literal(V_dec(k["tag"]), k["style"]))
        if k["rep"] == "adj":
            args.append("content = " + literal(V_dec(k["content"]), k["style"]))
        default = None
        if k["hasdef"]:
            default = r.choice(impls)[2] if r.random() < .9 else "unregistered"
            args.append("default_variant = " + literal(default, k["style"]))
        if k["deny"]:
            args.append("deny_unknown_fields")
        out.append(Decl("n%d" % j, k["rep"], V_dec(k["tag"]), V_dec(k["content"]), default, k["deny"], mode,
                        at + ("(%s)" % ", ".join(args) if args else "") + "]", impls=impls, before="use crate::prelude::m::*;"))
    return out


# --------------------------------------------------------------------- forms
FORMHEAD = """#![allow(warnings)]
pub mod prelude {
    pub use serde::{Serialize, Deserialize};
    pub use std::fmt::Debug;
    use std::fmt;
    use std::marker::PhantomData;
    pub trait Super<T> {}
    impl<T: ?Sized, U> Super<U> for T {}
    pub trait Plain {}
    impl<T: ?Sized> Plain for T {}
    pub trait Hr<'x> {}
    impl<'x, T: ?Sized> Hr<'x> for T {}
    pub trait Assoc { type Out; }
    impl<T: ?Sized> Assoc for T { type Out = u8; }
    pub trait Proj { type Out; }
    impl Proj for A { type Out = m::B; }
    pub mod m {
        use super::*;
        macro_rules! some {
            (both; $($t:ident)*) => {$( some! { @base $t } some! { @ser $t } some! { @de $t } )*};
            (ser; $($t:ident)*) => {$( some! { @base $t } some! { @ser $t } )*};
            (de; $($t:ident)*) => {$( some! { @base $t } some! { @de $t } )*};
            (@base $t:ident) => {
                #[derive(Clone, Copy, Debug)] pub struct $t;
                impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
            };
            (@ser $t:ident) => {
                impl Serialize for $t { fn serialize<Q: serde::Serializer>(&self, s: Q) -> Result<Q::Ok, Q::Error> { s.serialize_unit() } }
            };
            (@de $t:ident) => {
                impl<'de> Deserialize<'de> for $t { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { <()>::deserialize(d).map(|_| $t) } }
            };
        }
        some! { both; A B Unié }
        some! { ser; OnlySer }
        some! { de; OnlyDe }
        pub type Alias = B;
        macro_rules! generic {
            ($t:ident [$($p:tt)*] [$($a:tt)*] $m:ty) => {
                pub struct $t<$($p)*>(PhantomData<$m>);
                impl<$($p)*> Serialize for $t<$($a)*> {
                    fn serialize<QQ: serde::Serializer>(&self, s: QQ) -> Result<QQ::Ok, QQ::Error> { s.serialize_unit() }
                }
                impl<$($p)*> Debug for $t<$($a)*> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
                impl<$($p)*> fmt::Display for $t<$($a)*> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
            };
        }
        generic! { G [T] [T] fn() -> T }
        generic! { R ['a] ['a] &'a () }
        generic! { K [const N: usize] [N] () }
        impl<'de, T> Deserialize<'de> for G<T> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { <()>::deserialize(d).map(|_| G(PhantomData)) }
        }
        impl<'de, 'a> Deserialize<'de> for R<'a> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { <()>::deserialize(d).map(|_| R(PhantomData)) }
        }
        impl<'de, const N: usize> Deserialize<'de> for K<N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { <()>::deserialize(d).map(|_| K(PhantomData)) }
        }
    }
    pub use m::{A, B, Alias, G, R, K, Unié, OnlySer, OnlyDe};
}
#[macro_export] macro_rules! meth { () => { fn f(&self) {} } }
"""
ITEMS = {"struct": "pub struct S1;", "struct body": "pub struct S1 { x: u8 }", "enum": "pub enum E1 { A, B(u8) }", "union": "pub union U1 { a: u8, b: u16 }",
         "fn": "pub fn f1() {}", "unsafe fn": "pub unsafe fn f1() {}", "async fn": "pub async fn f1() {}", "extern fn": "pub extern \"C\" fn f1() {}",
         "const": "pub const C1: u8 = 1;", "static": "pub static S1: u8 = 1;", "mod": "pub mod m1 {}", "use": "use std::fmt as f1;",
         "type": "pub type T1 = u8;", "extern": "unsafe extern \"C\" {}", "macro": "macro_rules! m1 { () => {} }",
         "inherent": "impl Local { fn f(&self) {} }", "inherent generic": "impl<Q> LocalG<Q> { fn f(&self) {} }"}
TGEN = {"": ("", "", ""), "type": ("<P>", "<u8>", ""), "bound": ("<P: Debug>", "<u8>", ""), "lifetime": ("<'p>", "<'static>", ""),
        "const": ("<const P: usize>", "<3>", ""), "default": ("<P = u8>", "", ""), "two": ("<'p, P, const Q: usize>", "<'static, u8, 3>", ""),
        "where": ("<P>", "<u8>", "where P: Debug")}
WHERE = {"": "", "Debug": "where Self: Debug", "Send": "where Self: Send", "two": "where Self: Debug, u8: Copy"}
ASSOC = {"": ("", ""), "const": ("const C: u8;", "const C: u8 = 1;"), "const default": ("const C: u8 = 1;", ""), "type": ("type X;", "type X = u8;"),
         "type bound": ("type X: Debug;", "type X = u8;"), "type sized": ("type X where Self: Sized;", "type X = u8;"),
         "type sized and more": ("type X: Debug where Self: Sized + Plain2;", "type X = u8;"),
         "type sized last": ("type X where Self: Plain2 + Sized;", "type X = u8;"),
         "type sized apart": ("type X where Self: Plain2, Self: Sized, u8: Copy;", "type X = u8;"),
         "type sized twice": ("type X where Self: Sized + Plain2 + 'static;", "type X = u8;"),
         "type other sized": ("type X where u8: Sized;", "type X = u8;"),
         "gat sized last": ("type X<'x> where Self: 'x + Sized;", "type X<'x> = &'x u8 where Self: 'x;"),
         "type where more": ("type X where u8: Copy, Self: Sized;", "type X = u8;"), "type where debug": ("type X where Self: Debug;", "type X = u8;"),
         "two types": ("type X where Self: Sized; type Y;", "type X = u8; type Y = u8;"),
         "gat sized": ("type X<'x> where Self: Sized;", "type X<'x> = &'x u8;"), "gat": ("type X<'x>;", "type X<'x> = &'x u8;"),
         "type then const": ("type X where Self: Sized; const C: u8;", "type X = u8; const C: u8 = 1;")}
METHODS = {"": ("", ""), "ref": ("fn f(&self) -> u8;", "fn f(&self) -> u8 { 1 }"), "mut": ("fn f(&mut self, a: u8);", "fn f(&mut self, _: u8) {}"),
           "box": ("fn f(self: Box<Self>);", "fn f(self: Box<Self>) {}"), "default": ("fn f(&self) -> u8 { 1 }", ""),
           "generic sized": ("fn f<Z>(&self, q: Z) where Self: Sized;", "fn f<Z>(&self, q: Z) {}"),
           "static sized": ("fn f() -> u8 where Self: Sized;", "fn f() -> u8 { 1 }"),
           "lifetime": ("fn f<'x>(&'x self, o: &'x str) -> &'x str;", "fn f<'x>(&'x self, o: &'x str) -> &'x str { o }"),
           "names": ("fn serialize(&self); fn deserialize(&self); fn name(&self) {} fn visit(&self) {} fn new() where Self: Sized {}", "fn serialize(&self) {} fn deserialize(&self) {}"),
           "names of the macro": ("fn from(&self); fn registry(&self) {} fn get(&self) {} fn object(&self) {} fn tag(&self) {}", "fn from(&self) {}"),
           "async sized": ("async fn f(&self) where Self: Sized;", "async fn f(&self) {}"), "macro made": ("crate::meth! {}", "crate::meth! {}"),
           "self rc": ("fn f(self: std::rc::Rc<Self>);", "fn f(self: std::rc::Rc<Self>) {}")}
METHODS["many"] = tuple(" ".join(re.sub(r"\bf\b", "f%d" % n, METHODS[k][w]) for n, k in enumerate(("ref", "mut", "box", "default", "generic sized", "static sized", "lifetime")))
                        for w in (0, 1))
SELF = {"path": "A", "self path": "self::A", "crate path": "crate::prelude::A", "generic": "G<u8>", "generic path": "crate::prelude::m::G<crate::prelude::m::B>",
        "macro ty": "A", "macro ident": "A", "named tuple": "(A, u8)", "named array": "[u8; 2]", "named unit": "()", "named qself": "<A as Proj>::Out",
        "named macro tuple": "(A, u8)", "tuple": "(A, u8)", "unit": "()", "array": "[u8; 2]", "qself": "<A as Proj>::Out", "macro tuple": "(A, u8)",
        "macro qself": "<A as Proj>::Out", "vec": "Vec<u8>", "string": "String", "alias": "Alias", "nonascii": "Unié",
        "std path": "std::string::String", "named std path": "std::string::String", "box": "Box<u8>"}
IGEN = {"type": ("<Q>", "G<Q>", ""), "lifetime": ("<'q>", "R<'q>", ""), "const": ("<const Q: usize>", "K<Q>", ""), "bound": ("<Q: Debug>", "G<Q>", ""),
        "where": ("<Q>", "G<Q>", "where Q: Debug")}
DECOR = {"": ("", ""), "doc": ("", '#[doc = "x"]'), "allow": ("", "#[allow(dead_code)]"), "cfg": ("", '#[cfg_attr(all(), doc = "x")]'),
         "above": ('#[allow(dead_code)] #[doc = "x"]', ""), "two docs": ('#[doc = "x"]', '#[doc = "y"]'), "cfg inside": ("", "")}
SHADOW = {"": "", "shadowed": "pub struct Option; pub struct Result; pub struct Vec; pub struct Box; pub struct String; pub struct Some; pub struct Ok; "
          "pub trait Fn {} pub trait Into {} pub trait Iterator {} mod std {} mod core {} mod alloc {}",
          "own serde": "mod serde {} mod inventory {} mod erased_serde {} mod once_cell {}"}


def form_module(i, d):
    mode = d["mode"]
    at = "#[typetag::%s]" % mode
    tat = "#[typetag::%s%s]" % (mode, REPARGS[d["rep"]])
    # what is in scope under names that may be shadowed is imported by name
    use = "use crate::prelude::{A, B, Alias, G, R, K, Unié, OnlySer, OnlyDe, Debug, Proj, Super, Hr, Assoc, Plain as Plain2};"
    if d["item"] != "trait":
        body = "struct Local; struct LocalG<Q>(Q); %s %s" % (tat, ITEMS[d["item"]])
        if d["place"] == "fn":
            body = "fn place() { %s }" % body
        return "mod %s { %s %s }" % (i, use, body)
    g, ga, gw = TGEN[d["tgen"]]
    w = " ".join(x for x in (gw, WHERE[d["where"]]) if x)
    vis = d["vis"]
    inner = d["place"] in ("nested", "path")
    above, below = DECOR[d["tattrs"]]
    never = "#[cfg(any())] fn never(&self, n: Nowhere);" if d["tattrs"] == "cfg inside" else ""
    t = "%s %s %s %s %strait T%s%s %s { %s %s %s }" % (
        above, tat, below, vis, "unsafe " if d["unsafe"] == "yes" else "", g, ": " + d["super"] if d["super"] else "", w,
        ASSOC[d["assoc"]][0], METHODS[d["methods"]][0], never)
    trait = "T" + ga
    path = ("inner::" if d["place"] == "path" else "") + trait
    un = "unsafe " if d["unsafe"] == "yes" else ""

    def impl(ty, attrib, gen="", wh="", tr=path, decor=("", ""), extra=""):
        return "%s %s %s %simpl%s %s for %s %s { %s %s %s }" % (decor[0], attrib, decor[1], un, gen, tr, ty, wh, ASSOC[d["assoc"]][1],
                                                               METHODS[d["methods"]][1], extra)
    out = ""
    if d["count"] != "no impl":
        s = d["self"]
        ty = SELF[s]
        if d["derives"] != "both" and s:
            ty = {"Serialize": "OnlySer", "Deserialize": "OnlyDe"}[d["derives"]]
            ty = {"self path": "self::", "crate path": "crate::prelude::"}.get(s, "") + ty
        a = at if not s.startswith("named") else "#[typetag::%s(name = \"nm\")]" % mode
        gen, wh = "", ""
        if d["igen"]:
            gen, ty, wh = IGEN[d["igen"]]
        if d["iattr"] == "no":
            a = ""
        extra = "const C2: u8 = 1;" if d["iassoc"] == "const" else ""
        if "macro" in s:
            frag = "ident" if s == "macro ident" else "ty"
            out = "macro_rules! imp { ($t:%s) => { %s } } imp! { %s }" % (frag, impl("$t", a, gen, wh, decor=DECOR[d["iattrs"]], extra=extra), ty)
        else:
            out = impl(ty, a, gen, wh, decor=DECOR[d["iattrs"]], extra=extra)
        if d["count"] == "two impls":
            out += " " + impl("B" if s not in ("alias", "qself", "macro qself", "named qself") else "A", at)
        if d["count"] == "two traits":
            out += " %s trait T2 {} %s impl T2 for A {} %s impl T2 for B {}" % (at, at, at)
        if d["count"] == "ten impls":
            out += " ".join(" " + impl("G<[u8; %d]>" % k, "#[typetag::%s(name = \"g%d\")]" % (mode, k)) for k in range(10))
    both = SHADOW[d["prelude"]] + " " + t + " " + out
    if d["place"] == "fn":
        both = "fn place() { %s }" % both
    elif d["place"] == "block":
        both = "const PLACE: () = { %s };" % both
    elif d["place"] == "macro":
        both = "macro_rules! all { () => { %s } } all! {}" % both.replace("$t", "$ t")
    elif d["place"] == "nested":
        both = "mod inner { %s %s }" % (use, both)
    elif d["place"] == "path":
        both = "mod inner { %s %s %s } %s" % (use, SHADOW[d["prelude"]], t, out)
    both = both.replace("pub(in crate)", "pub(in crate::%s)" % i)
    return "mod %s { %s %s }" % (i, use, both)


# supported declarations that are also run
FORMRUNHEAD = NAMEHEAD.replace("    pub trait Other {}\n", """    pub trait Other {}
    pub use std::fmt::Debug;
    pub trait Super<T> {}
    impl<T: ?Sized, U> Super<U> for T {}
    pub trait Plain2 {}
    impl<T: ?Sized> Plain2 for T {}
    pub use self::Plain2 as Plain;
    pub trait Hr<'x> {}
    impl<'x, T: ?Sized> Hr<'x> for T {}
    pub trait Assoc { type Out; }
    impl<T: ?Sized> Assoc for T { type Out = u8; }
""") + "#[macro_export] macro_rules! meth { () => { fn f(&self) {} } }\n"
RUNSELF = {"path": ("A", "A"), "self path": ("self::A", "A"), "crate path": ("crate::prelude::A", "A"), "generic": ("G<u8>", "G"),
           "generic path": ("crate::prelude::m::G<crate::prelude::m::Z>", "G"), "macro ty": ("A", "A"), "macro ident": ("A", "A"),
           "alias": ("Alias", "Alias"), "nonascii": ("Unié", "Unié")}
RUNIGEN = {"type": ("<Q>", "G<Q>", "", "G<u8>"), "lifetime": ("<'q>", "L<'q>", "", "L<'static>"), "const": ("<const Q: usize>", "K<Q>", "", "K<7>"),
           "bound": ("<Q: Debug>", "G<Q>", "", "G<u16>"), "where": ("<Q>", "G<Q>", "where Q: Debug", "G<u32>")}
RUNSUP = {"": "", "Send": "Send", "Send + Sync": "Send + Sync", "'static": "'static", "Super<u8>": "Super<u8>", "for<'x> Hr<'x>": "for<'x> Hr<'x>",
          "crate::prelude::Plain": "crate::prelude::Plain", "Assoc<Out = u8>": "Assoc<Out = u8>"}


def runs(d):
    return (d["item"] == "trait" and d["super"] in RUNSUP and d["where"] in ("", "Send") and d["self"] in RUNSELF and d["derives"] == "both"
            and d["count"] in ("one", "two impls") and (not d["igen"] or d["self"] == "path"))


class Form(Decl):
    def __init__(self, id, d):
        at = "#[typetag::%s]" % d["mode"]
        kw = dict(ext={}, int=dict(tag="t"), adj=dict(tag="t", content="c"))[d["rep"]]
        ty, own = RUNSELF[d["self"]]
        real = ty
        if d["igen"]:
            ty, real = RUNIGEN[d["igen"]][1], RUNIGEN[d["igen"]][3]
            own = ty[0]
        mks = list(MKSUP) if d["mode"] == "serialize" else [m for m in MKSUP if set(MKSUP[m]) <= set(d["super"].replace("+", " ").split())]
        Decl.__init__(self, id, d["rep"], mode=d["mode"], mks=mks, sup="Send + Sync" if d["super"] == "Send + Sync" else
                      "Send" if d["super"] == "Send" else "", impls=[(real, at, own, {"Alias": "Z"}.get(own, own)), ("B", at, "B", "B"),
                                                                      ("D", "#[typetag::%s(name = \"nm\")]" % d["mode"], "nm", "D")], **kw)
        self.d, self.ty, self.tatt = d, ty, "#[typetag::%s%s]" % (d["mode"], REPARGS[d["rep"]])

    def text(self):
        d = self.d
        g, ga, gw = TGEN[d["tgen"]]
        w = " ".join(x for x in (gw, WHERE[d["where"]]) if x)
        place = "nested" if d["prelude"] and d["place"] != "path" else d["place"]
        if place in ("nested", "path") and d["vis"] in ("", "pub(self)"):
            place = "mod"
        above, below = DECOR[d["tattrs"]]
        never = "#[cfg(any())] fn never(&self, n: Nowhere);" if d["tattrs"] == "cfg inside" else ""
        un = "unsafe " if d["unsafe"] == "yes" else ""
        trait = "%s %s %s %s %strait T%s: Obj%s %s { %s %s %s }" % (
            above, self.tatt, below, d["vis"], un, g, " + " + RUNSUP[d["super"]] if d["super"] else "", w,
            ASSOC[d["assoc"]][0], METHODS[d["methods"]][0], never)
        path = ("inner::" if place == "path" else "") + "T" + ga
        out = ""
        for k, (ty, at, tag, who) in enumerate(self.impls):
            gen, wh, decor = "", "", ("", "")
            if not k:
                ty, decor = self.ty, DECOR[d["iattrs"]]
                if d["igen"]:
                    gen, wh = RUNIGEN[d["igen"]][0], RUNIGEN[d["igen"]][2]
            m = not k and "macro" in d["self"]
            o = "%s %s %s %simpl%s %s for %s %s { %s %s }" % (decor[0], at, decor[1], un, gen, path, "$t" if m else ty, wh, ASSOC[d["assoc"]][1],
                                                             METHODS[d["methods"]][1])
            if m:
                o = "macro_rules! imp { ($t:%s) => { %s } } imp! { %s }" % ("ident" if d["self"] == "macro ident" else "ty", o, ty)
            out += o + " "
        use = "use crate::prelude::{A, B, D, Debug, Super, Hr, Assoc, Plain2, Obj}; use crate::prelude::m::{G, K, L, Alias, Unié};"
        shadow = SHADOW[d["prelude"]] if place in ("nested", "path") else ""
        if place == "nested":
            decl = "mod inner { %s %s %s %s } use inner::T;" % (use, shadow, trait, out)
        elif place == "path":
            decl = "mod inner { %s %s %s } use inner::T; %s" % (use, shadow, trait, out)
        elif place == "macro":
            decl = "macro_rules! all { () => { %s } } all! {}" % (trait + out)
        else:
            decl = trait + out
        decl = decl.replace("pub(in crate)", "pub(in crate::%s)" % self.id)
        fns = {"ser": ("fn ser(mk: &str, tag: &str, n: &Node, r: Rec) -> Out", "ser(mk, tag, n, r)"),
               "de": ("fn de(mk: &str, d: De) -> In", "de(mk, d)")}
        code = {}
        if self.mode != "deserialize":
            o = [fns["ser"][0], "{ match mk {"]
            for mk, m in MKS:
                if mk in self.mks:
                    o.append("%s => { let b: Box<dyn T%s%s> = match tag {" % (literal(mk), ga, m))
                    for ty, at, tag, who in self.impls:
                        o.append("%s => Box::new(<%s as From<Node>>::from(n.clone()))," % (literal(tag), ty))
                    o.append("t => no(t) }; b.serialize(r) }")
            code["ser"] = "\n".join(o + ["t => no(t) } }"])
        if self.mode != "serialize":
            o = [fns["de"][0], "{ let (w, n) = match mk {"]
            for mk, m in MKS:
                if mk in self.mks:
                    o.append("%s => Box::<dyn T%s>::deserialize(d).map(|b| (b.who(), b.node().clone()))?," % (literal(mk), m))
            o.append("t => no(t) }; Ok(Node::Obj(%s, match w {" % literal(self.id))
            for ty, at, tag, who in self.impls:
                o.append("%s => %s," % (literal(who), literal(tag)))
            code["de"] = "\n".join(o + ["t => no(t) }, Box::new(n))) }"])
        top = "mod %s { use crate::prelude::*; use crate::prelude::m::{Alias, Unié, G, K, L};\n" % self.id
        if place in ("fn", "block"):
            # the declarations are in there, once for every direction
            for k, c in code.items():
                inner = "{ %s\n%s\n%s }" % (decl, c, fns[k][1])
                top += "pub %s %s\n" % (fns[k][0], inner if place == "fn" else "{ loop { if true { return %s } } }" % inner)
        else:
            top += decl + "\n" + "\n".join("pub " + c for c in code.values())
        return top + "\n}"


def form_decls(seed, cases, n):
    l = [c["d"] for c in cases if not c["why"] and runs(c["d"])]
    r = V.random.Random("forms%s" % seed)
    r.shuffle(l)
    # each value of each feature first
    seen, first, rest = set(), [], []
    for d in l:
        new = {(f, v) for f, v in d.items()} - seen
        seen |= new
        (first if new else rest).append(d)
    return [(d["edition"], Form("o%d" % j, d)) for j, d in enumerate((first + rest)[:max(n, len(first))])]
