"""Generators of requests (schemas) and inputs (documents)."""
import random
import gen_cfg
from vgen import INTS, EDGE, FLOATS, TEXTS, LONGS, ODD, CHARS, BYID, FULL, tags

enc = gen_cfg.enc
IDX = ["u8", "u16", "u32", "u64"]
LEAVES = ["bool"] + INTS + ["f32", "f64", "char", "str", "string", "bytes", "bytebuf", "ident"]
BVALS = [b"", b"abc", b"x", b"\xff\x00", b"value", b"\x80", b"a", "ü".encode()]
DFLOATS = {"f32": ["0.0", "1.0", "-2.5", "inf"], "f64": ["0.0", "1.0", "-2.5", "0.1", "inf"]}


# ------------------------------------------------------------------- schemas
def S(k, v="", c=(), f=()):
    return {"k": k, "v": enc(v) if k not in ("take", "mtake") else str(v), "c": list(c), "f": [enc(x) for x in f]}


def sopt(s): return S("option", "", [s])
def snew(s, n="W"): return S("nstruct", n, [s])
def sseq(*s): return S("seq", "", s)
def stup(*s): return S("tuple", "", s)
def sts(*s, n="TS"): return S("tstruct", n, s)
def smap(k, v): return S("map", "", [k, v])
def sstruct(fs, n="S", deny=False): return S("structdeny" if deny else "struct", n, [s for _, s in fs], [k for k, _ in fs])
def sobj(cfg, s): return S("obj", cfg, [s])
def senum(vs, n="E"): return S("enum", n, [w for _, w in vs], [k for k, _ in vs])
def wunit(): return S("unit")
def wnew(s): return S("newtype", "", [s])
def wtup(*s): return S("tuple", "", s)
def wstruct(fs): return S("struct", "", [s for _, s in fs], [k for k, _ in fs])
def take(n, s): return S("take", n, [s])
def mtake(n, k, v): return S("mtake", n, [k, v])


L = {k: S(k) for k in LEAVES + ["strb", "bytesb", "unit", "any", "ignored", "fail", "hr"]}
UST = S("ustruct", "U")


def failafter(s): return S("failafter", "", [s])


# ----------------------------------------------------------------- documents
def D(k, v="", c=()):
    return {"k": k, "v": v, "c": list(c)}


def ds(s, kind="str"):
    d = D(kind, enc(s))
    d["t"] = s.encode().hex()
    return d


def dby(b, kind="bytes"):
    d = D(kind, b.hex())
    try:
        d["t"], d["u"] = enc(b.decode()), True
    except UnicodeDecodeError:
        d["t"], d["u"] = "", False
    return d


def dmap(es): return D("map", "", [x for e in es for x in e])
def dseq(*l): return D("seq", "", l)
def dsome(x): return D("some", "", [x])
def dnew(x): return D("newtype", "", [x])
def denum(k, v): return D("enum", "", [k, v])


DUNIT, DNONE, BAD = D("unit"), D("none"), D("bad")


def dint(k, v): return D(k, str(v))
def dbool(b): return D("bool", "true" if b else "false")


def case(cid, sch, doc, hr=True, fault=0, mk=None, th=None):
    c = {"id": cid, "kind": "de", "sch": sch, "doc": doc, "hr": hr, "fault": fault}
    if mk is not None:
        c["mk"] = mk
    if th is not None:
        c["th"] = th
    return c


def wants_mk(cfg):
    return None if BYID[cfg]["full"] else ""


class DG:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.bad = 0.0       # unreadable or enum items
        self.match = 0.85    # documents that fit the schema
        self.objs = 0.0
        self.hr = 0.1
        self.fails = 0.0
        self.strb = True
        self.textkeys = False

    def pick(self, l):
        return l[self.r.randrange(len(l))]

    def text(self, s=None):
        k = self.pick(["str", "strb", "stro"])
        if s is None:
            x = self.r.random()
            s = self.pick(TEXTS if x < .9 else ODD if x < .97 else LONGS[:72])
        return ds(s, k)

    def bytes(self, b=None):
        return dby(self.pick(BVALS) if b is None else b, self.pick(["bytes", "bytesb", "byteso"]))

    def int(self, kinds=INTS):
        k = self.pick(kinds)
        return dint(k, self.pick(EDGE[k]))

    def float(self):
        k = self.pick(["f32", "f64"])
        return D(k, self.pick(DFLOATS[k]))

    # one document of every atomic kind
    def atoms(self):
        l = [dbool(True), dbool(False)]
        for k in INTS:
            l += [dint(k, v) for v in EDGE[k][-2:]]
        for k in DFLOATS:
            l.append(D(k, self.pick(DFLOATS[k])))
        l.append(D("char", enc(self.pick(CHARS))))
        for k in ("str", "strb", "stro"):
            l += [ds(self.pick(TEXTS), k), ds("x", k)]
        for k in ("bytes", "bytesb", "byteso"):
            l += [dby(self.pick(BVALS), k)]
        return l + [DUNIT, DNONE]

    def atom(self):
        return self.pick(self.atoms())

    def key(self):
        if self.textkeys or self.r.random() < .75:
            return self.text()
        return self.pick([self.int(), self.bytes(), D("char", "x"), dbool(True), DUNIT, dnew(self.text()), dsome(self.int())])

    def anydoc(self, depth):
        r = self.r
        if depth > 0 and r.random() < self.bad:
            return self.pick([BAD, denum(self.text(), self.anydoc(depth - 1))])
        if depth <= 0 or r.random() < .35:
            return self.atom()
        k = r.randrange(6)
        if k == 0:
            return dsome(self.anydoc(depth - 1))
        if k == 1:
            return dnew(self.anydoc(depth - 1))
        if k in (2, 3):
            return dseq(*[self.anydoc(depth - 1) for _ in range(r.choice([0, 1, 2, 3]))])
        return dmap([(self.key(), self.anydoc(depth - 1)) for _ in range(r.choice([0, 1, 2, 3]))])

    # ------------------------------------------------------------- schemas
    def leaf(self):
        x = self.r.random()
        if x < self.hr:
            return L["hr"]
        if x < self.hr + self.fails:
            return self.pick([L["fail"], failafter(self.pick([L["any"], L["str"], UST]))])
        return self.pick([L[k] for k in LEAVES] + [L["unit"], UST, L["any"], L["any"], L["ignored"]] +
                         ([L["strb"], L["bytesb"]] if self.strb else []))

    def keyschema(self):
        return self.pick([L["str"], L["string"], L["any"], L["ident"], L["str"], L["char"], L["bytes"], L["u8"], L["i64"],
                          snew(L["str"]), sopt(L["str"]), L["bool"], senum([("x", wunit()), ("a", wunit())]), L["unit"]][:6 if self.textkeys else 14])

    def schema(self, depth):
        r = self.r
        if depth <= 0 or r.random() < .2:
            return self.leaf()
        if r.random() < self.objs:
            return sobj(self.pick([c["id"] for c in FULL]), self.schema(depth - 1))
        sub = lambda: self.schema(depth - 1)
        k = r.randrange(13)
        if k == 0:
            return sopt(sub())
        if k == 1:
            return snew(sub())
        if k == 2:
            return sseq(*[sub() for _ in range(r.choice([0, 1, 1, 2, 3]))])
        if k == 3:
            return take(r.choice([0, 1, 2]), sub())
        if k == 4:
            return stup(*[sub() for _ in range(r.choice([0, 1, 2, 3]))])
        if k == 5:
            return sts(*[sub() for _ in range(r.choice([1, 2]))])
        if k == 6:
            return smap(self.keyschema(), sub())
        if k == 7:
            return mtake(r.choice([0, 1, 2]), self.keyschema(), sub())
        if k in (8, 9, 10):
            return self.struct(sub)
        return self.enum(sub)

    def struct(self, sub):
        n = self.r.choice([0, 1, 2, 2, 3])
        names = self.r.sample(["x", "y", "z", "value", "t", "c", "type", "a", "ü"], n)
        return sstruct([(k, sub()) for k in names], deny=self.r.random() < .3)

    def enum(self, sub):
        vs = [("V", wunit()), ("value", wunit()), ("N", wnew(sub())), ("T", wtup(*[sub() for _ in range(self.r.choice([1, 2, 2, 3]))])),
              ("S", wstruct([(k, sub()) for k in self.r.sample(["x", "y", "value"], self.r.choice([1, 2]))])), ("t", wnew(sub()))]
        self.r.shuffle(vs)
        return senum(vs[:self.r.choice([2, 4, 6])])

    # ------------------------------------------------- documents for schemas
    def doc(self, s, depth=3):
        """mostly one that fits"""
        r = self.r
        if r.random() > self.match:
            return self.anydoc(2)
        k, c = s["k"], s["c"]
        if k in INTS:
            return self.int()
        if k in ("f32", "f64"):
            return self.pick([self.float(), self.float(), self.int()])
        if k == "bool" or k == "hr":
            return dbool(r.random() < .5)
        if k == "char":
            return self.pick([D("char", enc(self.pick(CHARS))), self.text()])
        if k in ("str", "string"):
            return self.pick([self.text(), self.text(), self.bytes()])
        if k in ("bytes", "bytebuf"):
            return self.pick([self.bytes(), self.bytes(), self.text(), dseq(*[self.int() for _ in range(2)])])
        if k == "ident":
            return self.pick([self.text(), self.bytes(), self.int(IDX)])
        if k == "strb":
            return ds(self.pick(TEXTS), "strb")
        if k == "bytesb":
            return self.pick([dby(self.pick(BVALS), "bytesb"), ds("x", "strb")])
        if k in ("unit", "ustruct"):
            return DUNIT
        if k == "option":
            return self.pick([DNONE, DUNIT, dsome(self.doc(c[0])), dsome(self.doc(c[0])), self.doc(c[0])])
        if k in ("nstruct", "failafter"):
            x = self.doc(c[0])
            return dnew(x) if k == "nstruct" and r.random() < .6 else x
        if k == "seq":
            n = r.choice([0, 1, 2, 3, 4]) if c else r.choice([0, 0, 1])
            return dseq(*[self.doc(c[min(i, len(c) - 1)]) if c else self.atom() for i in range(n)])
        if k == "take":
            n = int(s["v"])
            n = r.choice([n, n, n, max(0, n - 1), n + 1])
            return dseq(*[self.doc(c[0]) for _ in range(n)])
        if k in ("tuple", "tstruct"):
            l = [self.doc(x) for x in c]
            if r.random() < .15:
                l = l[:-1] if l and r.random() < .5 else l + [self.atom()]
            return dseq(*l)
        if k in ("map", "mtake"):
            n = r.choice([0, 1, 2, 3])
            if k == "mtake":
                m = int(s["v"])
                n = r.choice([m, m, m, max(0, m - 1), m + 1])
            return dmap([(self.fitkey(c[0]), self.doc(c[1])) for _ in range(n)])
        if k in ("struct", "structdeny"):
            return self.fields(s)
        if k == "enum":
            return self.variant(s)
        if k == "obj":
            return self.obj(s)
        return self.anydoc(2)

    def fitkey(self, s):
        if self.textkeys:
            return self.text()
        return self.doc(s)

    def name(self, f, i, positions=True):
        x = self.r.random()
        nm = f[i]
        raw = gen_dec(nm)
        if positions and not self.textkeys and x < .08:
            return dint(self.pick(IDX), i)
        if x < .14 and not self.textkeys:
            return self.bytes(raw.encode())
        return self.text(raw)

    def entries(self, s, positions=True):
        r = self.r
        es = [(self.name(s["f"], i, positions), self.doc(x)) for i, x in enumerate(s["c"])]
        r.shuffle(es)
        if r.random() < .25:
            es.insert(r.randrange(len(es) + 1), (self.text("other"), self.anydoc(2)))
        if es and r.random() < .08:
            es.append(es[0])
        if es and r.random() < .12:
            es.pop()
        return es

    def fields(self, s):
        if self.r.random() < .2:
            l = [self.doc(x) for x in s["c"]]
            if self.r.random() < .2:
                l = l[:-1] if l and self.r.random() < .5 else l + [self.atom()]
            return dseq(*l)
        return dmap(self.entries(s))

    def variant(self, s, positions=True):
        i = self.r.randrange(len(s["c"]))
        w = s["c"][i]
        if w["k"] == "unit" and self.r.random() < .6:
            return self.text(gen_dec(s["f"][i]))
        return dmap([(self.name(s["f"], i, positions), self.payload(w))])

    def payload(self, w):
        k = w["k"]
        if k == "unit":
            return DUNIT
        if k == "newtype":
            return self.doc(w["c"][0])
        if k == "tuple":
            l = [self.doc(x) for x in w["c"]]
            if self.r.random() < .12:
                l = l[:-1] if self.r.random() < .5 else l + [self.atom()]
            return dseq(*l)
        return self.fields(w)

    # what an internally tagged object of this content has besides its tag
    def rest(self, s):
        k, c = s["k"], s["c"]
        if k in ("unit", "ustruct"):
            return []
        if k == "nstruct" or k == "failafter":
            return self.rest(c[0])
        if k == "option":
            return [] if self.r.random() < .3 else [(self.text("value"), self.doc(c[0]))]
        if k in ("map", "mtake", "any"):
            d = self.doc(s if k != "any" else smap(L["str"], L["any"]))
            if d["k"] == "map":
                return pairs(d)
            return [(self.text("value"), d)]
        if k in ("struct", "structdeny"):
            return self.entries(s, False)
        if k == "enum":
            i = self.r.randrange(len(c))
            return [(self.name(s["f"], i, False), self.payload(c[i]))]
        if k == "obj":
            d = self.doc(s)
            return pairs(d) if d["k"] == "map" else [(self.text("value"), d)]
        return [(self.text("value"), self.doc(s))]

    def obj(self, s, cfg=None, tag=None, order=None):
        """an object of trait cfg; order: where the tag goes"""
        cfg = cfg or gen_dec(s["v"])
        s = s["c"][0]
        C = BYID[cfg]
        r = self.r
        tag = tag if tag is not None else self.pick(tags(cfg))
        td = self.text(tag)
        if C["rep"] == "ext":
            return dmap([(td, self.doc(s))])
        if C["rep"] == "int":
            es = self.rest(s)
            p = r.randrange(len(es) + 1) if order is None else min(order, len(es))
            if C["default"] and tag == C["default"] and r.random() < .5:
                return dmap(es)
            es.insert(p, (self.text(C["tag"]), td))
            return dmap(es)
        if r.random() < .15:
            return dseq(td, self.doc(s))
        es = [(self.text(C["tag"]), td), (self.text(C["content"]), self.doc(s))]
        if (r.random() < .5) if order is None else order:
            es.reverse()
        if C["default"] and tag == C["default"] and r.random() < .4:
            es = [e for e in es if gen_dec(e[0]["v"]) != C["tag"]]
        if r.random() < (.05 if C["deny"] else .3):
            es.insert(r.randrange(len(es) + 1), (self.text("extra"), self.anydoc(2)))
        return dmap(es)


def pairs(d):
    return list(zip(d["c"][::2], d["c"][1::2]))


def gen_dec(s):
    import urllib.parse
    return urllib.parse.unquote(s)


def size(d):
    return 1 + sum(size(x) for x in d["c"])
