"""Generators: values of the serde data model (token streams), requests
(schemas) and inputs (documents) for the conformance driver.

A value is a tree (token, children); `toks` flattens it.  All strings are
percent escaped like in the recordings."""
import random
import zlib
import gen_cfg

enc = gen_cfg.enc
INTS = ["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"]
EDGE = {}
for k in INTS:
    w = int(k[1:])
    EDGE[k] = (["0", "1", str(2**w - 1)] if k[0] == "u" else ["0", "1", "-1", str(-2**(w - 1)), str(2**(w - 1) - 1)])
FLOATS = {"f32": ["0.0", "1.0", "-2.5", "1e30", "inf", "-inf"], "f64": ["0.0", "1.0", "-2.5", "1e30", "0.1", "inf", "-inf"]}
TEXTS = ["", "a", "x", "value", "type", "t", "c", "A", "null", "0", "\u00fcn\u00ef", "\"q\"\\", "line\nbreak", "100%"]
CHARS = ["x", "A", "\u00fc", "\"", "\U0001F600", "\0"]
FIELDS = ["x", "y", "z", "value", "content", "c", "t", "type", "a", "\u00fcn\u00ef"]
VARIANTS = ["V", "W", "value", "type", "t", "Ok", "\u00fcn\u00ef", ""]


def mixed(i, c, m, j):
    return "x" * i + c * m + "x" * j


# long texts, with characters of several bytes at every offset
LONGS = [mixed(i, c, n // len(c.encode()), j) for n in (14, 24, 36, 70, 132, 260) for c in ("\u00e9", "\u20ac", "\U0001f600")
         for i, j in ((0, 0), (1, 0), (2, 3), (3, 1))]
LONGS += [mixed(i, "\U0001f600", 330, 1) for i in range(4)] + ["a" * n for n in (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025, 70000)]
# texts a reader or printer could stumble upon
ODD = ["two\nlines", "\n", "\r\n", "tab\there", "\0", "a\0b", "'q'", "\"", "{}", "{0}", "{{", "%s", "%d", "\\n", "`x`", "r#type", "::", "a::b", "<A>", "A<B>",
       "\u202e", "\ufeffA", "\u00a0", "e\u0301", "\u212a", "\u0130", "\u1e9e"]


BYTES = ["", "00", "ff", "616263", "00ff7f80"]


def T(t, *c):
    return (list(t), list(c))


def seq(c, known=True):
    n = str(len(c))
    return (["seq", n if known else "?", n], list(c))


def tup(c):
    return (["tuple", str(len(c)), str(len(c))], list(c))


def tstruct(n, c):
    return (["tstruct", enc(n), str(len(c)), str(len(c))], list(c))


def tvariant(n, i, v, c):
    return (["tvariant", enc(n), str(i), enc(v), str(len(c)), str(len(c))], list(c))


def mapp(es, known=True):
    n = str(len(es))
    return (["map", n if known else "?", n], [x for e in es for x in e])


def struct(n, fs):
    return (["struct", enc(n), str(len(fs)), str(len(fs)), [enc(k) for k, _ in fs]], [v for _, v in fs])


def svariant(n, i, va, fs):
    return (["svariant", enc(n), str(i), enc(va), str(len(fs)), str(len(fs)), [enc(k) for k, _ in fs]], [v for _, v in fs])


def some(x):
    return T(["some"], x)


def nstruct(n, x):
    return T(["nstruct", enc(n)], x)


def nvariant(n, i, v, x):
    return T(["nvariant", enc(n), str(i), enc(v)], x)


def uvariant(n, i, v):
    return T(["uvariant", enc(n), str(i), enc(v)])


def ustruct(n):
    return T(["ustruct", enc(n)])


def st(s):
    return T(["str", enc(s)])


UNIT = T(["unit"])
NONE = T(["none"])
HR = T(["hr"])
FAIL = T(["fail"])


def obj(cfg, tag, x):
    return T(["obj", enc(cfg), enc(tag)], x)


def toks(n, out=None):
    if out is None:
        out = []
    t, c = n
    k = t[0]
    names = None
    if isinstance(t[-1], list):
        names, t = t[-1], t[:-1]
    out.append(t)
    if k in ("obj", "some", "nstruct", "nvariant"):
        toks(c[0], out)
        if k == "obj":
            out.append(["endobj"])
    elif k in ("seq", "tuple", "tstruct", "tvariant"):
        for x in c:
            out.append(["e"])
            toks(x, out)
        out.append(["end"])
    elif k == "map":
        for i, x in enumerate(c):
            out.append(["v"] if i % 2 else ["k"])
            toks(x, out)
        out.append(["end"])
    elif k in ("struct", "svariant"):
        for nm, x in zip(names, c):
            out.append(["f", nm])
            toks(x, out)
        out.append(["end"])
    return out


def tree(ts):
    """the inverse of toks"""
    def val(i):
        t = list(ts[i])
        k = t[0]
        if k in ("obj", "some", "nstruct", "nvariant"):
            x, j = val(i + 1)
            return (t, [x]), j + (k == "obj")
        if k in ("seq", "tuple", "tstruct", "tvariant", "map", "struct", "svariant"):
            fields = k in ("struct", "svariant")
            t = t[:4 if k == "struct" else 6 if k == "svariant" else len(t)]
            c, names, j = [], [], i + 1
            while ts[j][0] != "end":
                if fields:
                    names.append(ts[j][1])
                x, j = val(j + 1)
                c.append(x)
            return (t + [names] if fields else t, c), j + 1
        return (t, []), i + 1
    return val(0)[0]


def size(n):
    return 1 + sum(size(x) for x in n[1])


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        # what may appear
        self.hr = False
        self.objs = False
        self.plain_keys = False
        self.unknown = True
        self.finite = False
        self.nobool = False

    def pick(self, l):
        return l[self.r.randrange(len(l))]

    def text(self):
        x = self.r.random()
        return self.pick(TEXTS if x < .9 else ODD if x < .97 else LONGS[:72])

    def atoms(self):
        """one of every kind of atom"""
        l = [] if self.nobool else [T(["bool", self.pick(["true", "false"])])]
        for k in INTS:
            l.append(T([k, self.pick(EDGE[k])]))
        for k in FLOATS:
            l.append(T([k, self.pick(FLOATS[k][:4] if self.finite else FLOATS[k])]))
        l.append(T(["char", enc(self.pick(CHARS))]))
        l.append(st(self.text()))
        l.append(T(["bytes", self.pick(BYTES)]))
        l += [UNIT, NONE, ustruct(self.pick(["U", "Unit"])), uvariant("E", self.r.randrange(4), self.pick(VARIANTS))]
        if self.hr:
            l += [HR, HR, HR]
        return l

    def atom(self):
        return self.pick(self.atoms())

    def key(self):
        if self.plain_keys or self.r.random() < .6:
            return st(self.text())
        return self.pick([T(["u8", "7"]), T(["i64", "-3"]), T(["bool", "true"]), T(["char", "x"]),
                          uvariant("E", 1, "W"), nstruct("N", st("k")), UNIT, T(["u64", "9"]),
                          some(st("k")), tup([st("a"), T(["u8", "1"])]), T(["i128", "5"]), T(["bytes", "0102"])])

    def compound(self, depth, kind=None, width=None):
        r = self.r
        v = lambda: self.value(depth - 1)
        n = width if width is not None else r.choice([0, 1, 1, 2, 2, 3, 4])
        known = not self.unknown or r.random() < .7
        kind = kind or self.pick(COMPOUND)
        if kind == "seq":
            return seq([v() for _ in range(n)], known)
        if kind == "tuple":
            return tup([v() for _ in range(n)])
        if kind == "tstruct":
            return tstruct(self.pick(["TS", "P"]), [v() for _ in range(n)])
        if kind == "tvariant":
            return tvariant("E", r.randrange(4), self.pick(VARIANTS), [v() for _ in range(n)])
        if kind == "map":
            ks = {}
            for _ in range(n):
                k = self.key()
                ks[str(toks(k))] = k
            return mapp([(k, v()) for k in ks.values()], known)
        if kind in ("struct", "svariant"):
            names = r.sample(FIELDS, min(n, len(FIELDS)))
            fs = [(k, v()) for k in names]
            return struct(self.pick(["S", "Point"]), fs) if kind == "struct" else \
                svariant("E", r.randrange(4), self.pick(VARIANTS), fs)
        if kind == "some":
            return some(v())
        if kind == "nstruct":
            return nstruct("W", v())
        if kind == "nvariant":
            return nvariant("E", r.randrange(4), self.pick(VARIANTS), v())
        if kind == "obj":
            cfg = self.pick(OBJCFGS)
            return obj(cfg, self.pick(tags(cfg)), self.value(depth - 1))
        raise KeyError(kind)

    def value(self, depth):
        if depth <= 0 or self.r.random() < .25:
            return self.atom()
        if self.objs and self.r.random() < .3:
            return self.compound(depth, "obj")
        return self.compound(depth)

    def catalogue(self, depth=2):
        """one value of every kind, compounds with several widths"""
        l = self.atoms()
        for k in COMPOUND:
            if k in ("some", "nstruct", "nvariant"):
                l.append(self.compound(depth, k))
            else:
                for w in (0, 1, 2, 3):
                    l.append(self.compound(depth, k, w))
        return l

    def contexts(self, x):
        """x in every containing position"""
        y = self.atom
        return [some(x), nstruct("W", x), nvariant("E", 1, "V", x),
                seq([x]), seq([y(), x, y()], False), tup([x]), tup([y(), x]),
                tstruct("TS", [x]), tstruct("TS", [x, y()]),
                tvariant("E", 2, "W", [x]), tvariant("E", 2, "W", [y(), x]),
                mapp([(st("k"), x)]), mapp([(st("k"), y()), (st("l"), x)], False),
                struct("S", [("f", x)]), struct("S", [("f", y()), ("g", x), ("h", y())]),
                svariant("E", 0, "V", [("f", x)]), svariant("E", 0, "V", [("f", y()), ("g", x)])]


COMPOUND = ["seq", "tuple", "tstruct", "tvariant", "map", "struct", "svariant", "some", "nstruct", "nvariant"]
FULL = [c for c in gen_cfg.CFG if c["full"]]
BYID = {c["id"]: c for c in gen_cfg.CFG}
OBJCFGS = [c["id"] for c in FULL]


def tags(cfg, dups=False):
    """registered tags; only those registered once unless dups"""
    c = BYID[cfg]
    l = [t for (_, _, t) in gen_cfg.types_of(c) + gen_cfg.ext_of(c)]
    return [t for t in l if l.count(t) == 1] if not dups else sorted(set(l))


def cfgs(rep):
    return [c["id"] for c in FULL if c["rep"] == rep]


def marker_cfgs(rep):
    return [c["id"] for c in gen_cfg.CFG if not c["full"] and c["rep"] == rep and c["id"].startswith("m")]
