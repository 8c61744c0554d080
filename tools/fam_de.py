"""Cases of the deserialization part."""
import itertools
import json
import vgen as V
import dgen as G
from dgen import *


def random_objs(seed, n, cfgs, depth=3, pre="r", **kw):
    out = []
    g = DG("%s/%s" % (pre, seed))
    for k, v in kw.items():
        setattr(g, k, v)
    while len(out) < n:
        cfg = g.pick(cfgs)
        s = g.schema(depth)
        d = g.obj(sobj(cfg, s), tag=g.pick(V.tags(cfg, dups=True)) if g.r.random() < .1 else None)
        if size(d) > 150:
            continue
        if g.r.random() > g.match:
            d = mutate(g, d)
        out.append(case("%s%d" % (pre, len(out)), sobj(cfg, s), d, hr=g.r.random() < .5, mk=wants_mk(cfg)))
    return out


def mutate(g, d):
    """something else somewhere"""
    import copy
    d = copy.deepcopy(d)
    spots = []

    def walk(x):
        for i, y in enumerate(x["c"]):
            spots.append((x, i))
            walk(y)
    walk(d)
    if not spots:
        return g.anydoc(2)
    x, i = g.pick(spots)
    k = g.r.randrange(6)
    if k == 0:
        x["c"][i] = g.anydoc(2)
    elif k == 1 and x["k"] == "seq":
        del x["c"][i]
    elif k == 1 and x["k"] == "map":
        j = i - i % 2
        del x["c"][j:j + 2]
    elif k == 2 and x["k"] == "map":
        j = i - i % 2
        x["c"] += x["c"][j:j + 2]
    elif k == 2 and x["k"] == "seq":
        x["c"].append(x["c"][i])
    elif k == 3 and x["k"] == "map":
        ps = pairs(x)
        g.r.shuffle(ps)
        x["c"] = [y for p in ps for y in p]
    elif k == 4:
        x["c"][i] = dsome(x["c"][i])
    else:
        x["c"][i] = g.atom()
    return d


# C13: every request on every item, directly and held back
def table(seed, deep, textkeys=False):
    out = []
    g = DG("t%s" % seed)
    docs = g.atoms() + [dseq(), dseq(dint("u8", 1), dint("u8", 2)), dseq(ds("a"), DUNIT), dmap([]), dmap([(ds("x"), dint("u8", 1))]),
                        dmap([(ds("V"), DUNIT)]), dmap([(ds("N"), dint("i16", -7))]), dmap([(ds("T", "strb"), dseq(dbool(True), ds("q")))]),
                        dmap([(ds("S"), dmap([(ds("x"), dint("u64", 9))]))]), dmap([(ds("S"), dseq(dint("u64", 9)))]),
                        dmap([(ds("x"), dint("u8", 1)), (ds("y"), ds("b", "strb"))]), dmap([(dint("u8", 0), dint("u8", 1))]),
                        dmap([(dint("u64", 2), dint("i16", 5))]), dmap([(dint("i64", -4), dbool(True)), (dint("u128", 4), DNONE)]),
                        dsome(dint("u8", 1)), dsome(DUNIT), dsome(dsome(ds("x"))), dnew(dint("u8", 1)), dnew(dnew(ds("x", "strb"))), dnew(DUNIT),
                        ds("V", "str"), ds("V", "strb"), ds("V", "stro"), dsome(dmap([(ds("x"), DNONE)])), dnew(dseq(dint("i8", 1))),
                        dmap([(dby(b"x"), dint("u8", 1))]), dint("u8", 0), dint("u16", 2), dint("u32", 3), dint("u64", 1), dint("u128", 1), dint("i8", 1),
                        dmap([(ds("x"), dint("u8", 1)), (ds("x"), dint("u8", 2))]), dseq(dseq(), dmap([])), dmap([(DUNIT, DUNIT)]),
                        dmap([(dseq(dint("u8", 1)), DUNIT)]), dmap([(dsome(ds("a")), dnew(DNONE))])]
    # variants whose payload does not fit
    docs += [dmap([(ds(v), p)]) for v, ps in (("T", [dseq(dbool(True), ds("q"), DUNIT), dseq(dbool(True), ds("q"), DUNIT, DUNIT), dseq(dbool(True)), dseq(), dmap([]), DUNIT,
                                                     dmap([(ds("0"), dbool(True)), (ds("1"), ds("q"))]), dsome(dseq(dbool(True), ds("q"))), dnew(dseq(dbool(True), ds("q")))]),
                                              ("S", [dseq(dint("u64", 9), DUNIT), dseq(), dmap([]), dmap([(ds("x"), dint("u64", 9)), (ds("y"), DUNIT)]),
                                                     dmap([(ds("x"), dint("u64", 9)), (ds("x"), dint("u64", 9))]), DUNIT, dint("u64", 9), dsome(dmap([(ds("x"), dint("u64", 9))])),
                                                     dnew(dmap([(ds("x"), dint("u64", 9))]))]),
                                              ("N", [dseq(dint("i16", 1)), DUNIT, DNONE, dsome(dint("i16", 1)), dnew(dint("i16", 1)), dmap([])]),
                                              ("V", [dseq(), dmap([]), DNONE, dint("u8", 0), dnew(DUNIT), dsome(DUNIT), dbool(False), ds("")]),
                                              ("Z", [DUNIT]), ("", [DUNIT])) for p in ps]
    docs += [dmap([(ds("V"), DUNIT), (ds("W"), DUNIT)]), dmap([(ds("V"), DUNIT), (ds("V"), DUNIT)]), dseq(ds("V")), dseq(ds("N"), dint("i16", 1)), dsome(ds("V")), dnew(ds("V")),
             dint("u8", 4), dint("u8", 5), dint("i8", 0), dmap([(dint("u32", 3), dseq(dbool(True), ds("q")))]), dmap([(dint("u8", 9), DUNIT)]), dmap([(dby(b"V"), DUNIT)])]
    E = senum([("V", wunit()), ("W", wunit()), ("N", wnew(L["i16"])), ("T", wtup(L["bool"], L["str"])), ("S", wstruct([("x", L["u64"])]))])
    schemas = [L[k] for k in LEAVES + ["strb", "bytesb", "unit", "any", "ignored", "hr", "fail"]] + [
        UST, sopt(L["any"]), sopt(sopt(L["u8"])), sopt(L["unit"]), snew(L["any"]), snew(L["u8"]), snew(snew(L["str"])), sopt(snew(L["u8"])), snew(sopt(L["any"])),
        sseq(L["any"]), sseq(), sseq(L["u8"]), take(0, L["any"]), take(1, L["any"]), take(2, L["any"]), stup(), stup(L["any"], L["any"]), stup(L["u8"], L["u8"]),
        sts(L["any"], L["any"]), sts(L["any"]), smap(L["any"], L["any"]), smap(L["str"], L["any"]), smap(L["u8"], L["u8"]), smap(L["ident"], L["any"]),
        smap(sopt(L["str"]), L["any"]), smap(L["i64"], L["any"]), smap(L["unit"], L["unit"]),
        mtake(0, L["any"], L["any"]), mtake(1, L["any"], L["any"]), sstruct([("x", L["any"])]), sstruct([("x", L["u8"]), ("y", sopt(L["str"]))]),
        sstruct([("x", L["any"])], deny=True), sstruct([]), sstruct([], deny=True), E, senum([("V", wnew(L["unit"])), ("x", wunit()), ("y", wstruct([]))]),
        failafter(L["any"]), sstruct([("a", sopt(L["any"])), ("b", sopt(L["any"]))])]
    n = 0

    def emit(s, d):
        nonlocal n
        hr = n % 2 == 0
        t = ds("A", ("str", "strb", "stro")[n % 3])
        out.append(case("t%d-cd" % n, sobj("adj0", s), dmap([(ds("t"), t), (ds("c"), d)]), hr))
        out.append(case("t%d-ch" % n, sobj("adj0", s), dmap([(ds("c"), d), (ds("t"), t)]), hr))
        out.append(case("t%d-ih" % n, sobj("int0", s), dmap([(ds("value"), d), (ds("type"), t)]), hr))
        if n % 4 == 0:
            out.append(case("t%d-id" % n, sobj("int0", s), dmap([(ds("type"), t), (ds("value"), d)]), hr))
            out.append(case("t%d-e" % n, sobj("ext0", s), dmap([(t, d)]), hr))
        n += 1
    for s in schemas:
        for d in docs:
            emit(s, d)
    # the same below something else
    wraps = [(lambda s: sopt(s), lambda d: dsome(d)), (lambda s: sopt(s), lambda d: d), (lambda s: snew(s), lambda d: dnew(d)),
             (lambda s: sseq(s), lambda d: dseq(d, d)), (lambda s: stup(L["any"], s), lambda d: dseq(DUNIT, d)),
             (lambda s: sts(s), lambda d: dseq(d)), (lambda s: smap(L["str"], s), lambda d: dmap([(ds("k"), d)])),
             (lambda s: sstruct([("f", s)]), lambda d: dmap([(ds("f"), d)])), (lambda s: sstruct([("f", s)]), lambda d: dseq(d)),
             (lambda s: senum([("N", wnew(s))]), lambda d: dmap([(ds("N"), d)])),
             (lambda s: senum([("T", wtup(s, L["any"]))]), lambda d: dmap([(ds("T"), dseq(d, DNONE))])),
             (lambda s: senum([("S", wstruct([("f", s)]))]), lambda d: dmap([(ds("S"), dmap([(ds("f"), d)]))])),
             (lambda s: senum([("S", wstruct([("f", s)]))]), lambda d: dmap([(ds("S"), dseq(d))])),
             (lambda s: smap(s, L["any"]), lambda d: dmap([(d, DUNIT)]))]
    for ws, wd in wraps:
        for s in schemas:
            for d in g.r.sample(docs, len(docs) if deep else 4):
                emit(ws(s), wd(d))
    return out


# C10: the tag in every position
def positions(seed, rounds, cfgs, pre="p"):
    out = []
    for cfg in cfgs:
        C = V.BYID[cfg]
        for k in range(rounds):
            g = DG("%s%s/%s/%d" % (pre, seed, cfg, k))
            g.match = (1.0, .97, .9)[k % 3]
            g.textkeys = k % 5 != 4
            g.strb = False
            if k % 4 == 3:
                g.objs = .3
            sub = lambda: g.schema(2)
            schemas = [L["any"], smap(L["str"], L["any"]), smap(L["string"], sub()), smap(L["any"], sub()), g.struct(sub), g.struct(sub), g.struct(sub),
                       g.enum(sub), g.enum(sub), sopt(sub()), snew(g.struct(sub)), snew(sub()), snew(smap(L["str"], sub())), L["unit"], UST, sub(), g.leaf(), g.leaf(),
                       sseq(sub()), stup(sub(), sub()), sts(sub()), L["ignored"], mtake(1, L["str"], sub()), sopt(sopt(sub())), smap(L["char"], sub()),
                       smap(L["u8"], sub()), sobj("int7", g.struct(sub)), sobj("adj7", sub()), sobj("ext0", sub())]
            for j, s in enumerate(schemas):
                es = g.rest(s)
                if g.r.random() < .2:
                    es.append((g.text("surplus"), g.anydoc(1)))
                # a second entry under the tag key is like any other
                if g.r.random() < .1:
                    es.append((g.text(C["tag"]), g.atom()))
                tag = g.pick(V.tags(cfg)) if g.r.random() < .9 else g.pick(V.tags(cfg, dups=True) + ["unknown"])
                hr = g.r.random() < .5
                for p in range(min(len(es), 5) + 1):
                    q = len(es) if p == 5 else p
                    e2 = es[:q] + [(g.text(C["tag"]), g.text(tag))] + es[q:]
                    if C["tag"] in [gen_dec(e[0]["v"]) for e in es[:q]]:
                        continue
                    out.append(case("%s%s-%d-%d-%d" % (pre, cfg, k, j, p), sobj(cfg, s), dmap(e2), hr, mk=wants_mk(cfg)))
                if C["default"]:
                    out.append(case("%s%s-%d-%d-n" % (pre, cfg, k, j), sobj(cfg, s), dmap(es), hr, mk=wants_mk(cfg)))
    return out


# C11, C12: every sequence of keys of an adjacently tagged map
def adjkeys(seed, cfgs, maxlen, sample, pre="k"):
    out = []
    for cfg in cfgs:
        C = V.BYID[cfg]
        g = DG("%s%s/%s" % (pre, seed, cfg))
        seqs = [q for n in range(maxlen + 1) for q in itertools.product("TCoO", repeat=n)]
        schemas = [L["any"], UST, L["u8"], sopt(L["str"]), sstruct([("x", L["any"])]), L["unit"], senum([("V", wunit()), ("N", wnew(L["any"]))]),
                   sseq(L["any"]), L["fail"], L["ignored"], snew(L["any"]), smap(L["str"], L["any"]), L["hr"]]
        for i, q in enumerate(seqs):
            for k in range(sample if len(q) < 4 else 1):
                s = schemas[(i * 7 + k) % len(schemas)]
                g.match = .9
                es = []
                for ch in q:
                    if ch == "T":
                        x = g.r.random()
                        v = g.text(g.pick(V.tags(cfg))) if x < .8 else g.text(g.pick(["dup", "nobody", "trip"])) if x < .93 else g.anydoc(1)
                        es.append((g.text(C["tag"]), v))
                    elif ch == "C":
                        es.append((g.text(C["content"]), g.doc(s)))
                    elif ch == "o":
                        es.append((g.text(g.pick(["other", C["tag"] + "x", "", "T", "value", g.pick(V.ODD), g.pick(V.LONGS[:-1]), C["tag"][:-1], C["content"][:-1], C["content"] + " ", C["tag"].upper() + "_"])) if g.r.random() < .97 else g.key(), g.anydoc(2)))
                    else:
                        es.append((g.text("zz"), g.pick([denum(ds("V"), DUNIT), g.anydoc(1), DUNIT] + [BAD] * (k == 1))))
                # other keys that happen to be tag or content
                out.append(case("%s%s-%d-%d" % (pre, cfg, i, k), sobj(cfg, s), dmap(es), g.r.random() < .5, mk=wants_mk(cfg)))
    return out


# C12: the same inputs with and without the default tag
def defaults(seed, rounds, pre="f"):
    out = []
    cfgs = [c["id"] for c in V.gen_cfg.CFG if c["default"]]
    for cfg in cfgs:
        C = V.BYID[cfg]
        for k in range(rounds):
            g = DG("%s%s/%s/%d" % (pre, seed, cfg, k))
            g.match = (1.0, .9, .95)[k % 3]
            g.textkeys = True
            g.strb = False
            for j in range(30):
                s = g.schema(2)
                hr = g.r.random() < .5
                if C["rep"] == "int":
                    es = g.rest(s)
                else:
                    es = [(g.text(C["content"]), g.doc(s))]
                    if g.r.random() < .2:
                        es.insert(g.r.randrange(2), (g.text("extra"), g.anydoc(1)))
                es = [e for e in es if gen_dec(e[0]["v"]) != C["tag"]]
                ins = [None, C["default"], g.pick(V.tags(cfg)), g.pick(["nobody", "dup", "quad", ""])]
                for n, t in enumerate(ins):
                    e2 = list(es)
                    if t is not None:
                        e2.insert(g.r.randrange(len(es) + 1), (g.text(C["tag"]), g.text(t)))
                    out.append(case("%s%s-%d-%d-%d" % (pre, cfg, k, j, n), sobj(cfg, s), dmap(e2), hr, mk=wants_mk(cfg)))
                if j % 6 == 0:
                    e2 = list(es)
                    e2.insert(g.r.randrange(len(es) + 1), (g.text(C["tag"]), g.pick([dint("u8", 1), DUNIT, DNONE, dsome(g.text("A")), dby(b"A"), D("char", "A"), dseq(), BAD])))
                    out.append(case("%s%s-%d-%d-x" % (pre, cfg, k, j), sobj(cfg, s), dmap(e2), hr, mk=wants_mk(cfg)))
            if C["rep"] == "adj":
                out.append(case("%s%s-%d-e" % (pre, cfg, k), sobj(cfg, L["any"]), dmap([]), mk=wants_mk(cfg)))
                out.append(case("%s%s-%d-s" % (pre, cfg, k), sobj(cfg, L["any"]), dseq(DUNIT), mk=wants_mk(cfg)))
    # without a default
    for c in V.gen_cfg.CFG:
        if not c["default"] and c["mode"] != "serialize":
            g = DG("%sn%s/%s" % (pre, seed, c["id"]))
            for j, s in enumerate([L["any"], L["unit"], sstruct([("x", L["any"])]), sopt(L["any"])]):
                d = g.obj(sobj(c["id"], s))
                if d["k"] == "map":
                    es = [e for e in pairs(d) if gen_dec(e[0]["v"]) != c["tag"]] if c["rep"] != "ext" else []
                    out.append(case("%sn%s-%d" % (pre, c["id"], j), sobj(c["id"], s), dmap(es), mk=wants_mk(c["id"])))
    return out


# C09, C14: tags
def tagged(seed, rounds, cfgs, pre="g"):
    out = []
    alltags = sorted({t for c in cfgs for t in V.tags(c, dups=True)})
    for cfg in cfgs:
        C = V.BYID[cfg]
        own = V.tags(cfg, dups=True)
        g = DG("%s%s/%s" % (pre, seed, cfg))
        g.match = .95
        near = ["", "a", "A ", "AA", "Aa", "nobody", "TInt0", "vcore::A", "Uni", "Konst", "Value", "Dup1", "Cat", "KONST"] + \
            [t[:-1] for t in own if t] + [t + "x" for t in own] + [t.swapcase() for t in own]
        some = g.r.sample(own, min(len(own), 6))
        near2 = [f % t for t in some for f in (" %s", "%s ", "\n%s", "%s\n", "x::%s", "::%s", "%s::x", "%s<T>", "%s\0", "r#%s", '"%s"', "%s%%", "\ufeff%s", "%s.", "dyn %s")] + \
            ["%d" % i for i in (0, 1, 2, len(own) - 1, len(own), len(own) + 1)] + [t[1:] for t in some] + [t[::-1] for t in some] + \
            [t[:n] for t in some for n in range(len(t))] + g.r.sample(V.ODD, 6) + g.r.sample(V.LONGS[:-1], 14)
        near += near2
        names = sorted(set(own + alltags + near) if len(own) < 60 else set(own) | set(near[:40] + near2))
        for k in range(rounds):
            for t in names:
                s = g.pick([L["unit"], L["any"], sstruct([("x", L["any"])]), L["u8"], g.schema(2)])
                d = g.obj(sobj(cfg, s), tag=t)
                out.append(case("%s%s-%d-%s" % (pre, cfg, k, enc(t[:80]).replace(" ", "%20") + ("-%d" % len(out) if len(t) > 80 else "")), sobj(cfg, s), d, g.r.random() < .5, mk=wants_mk(cfg)))
    return out


def oddtags(seed, rounds, cfgs, pre="o"):
    """tags that are not strings, several tags, bodies of other implementations"""
    out = []
    for cfg in cfgs:
        C = V.BYID[cfg]
        g = DG("%s%s/%s" % (pre, seed, cfg))
        n = 0

        def emit(s, d):
            nonlocal n
            out.append(case("%s%s-%d" % (pre, cfg, n), sobj(cfg, s), d, n % 2 == 0, mk=wants_mk(cfg)))
            n += 1
        for k in range(rounds):
            for s in (L["any"], L["unit"], sstruct([("x", L["any"])]), smap(L["str"], L["any"]), L["u8"], g.schema(2)):
                body = g.doc(s)
                rest = g.rest(s)
                for t in [dint("u8", 1), dint("i64", 0), dbool(True), DUNIT, DNONE, dby(b"A"), dby(b"A", "bytesb"), dby(b"A", "byteso"), D("char", "A"),
                          dsome(ds("A")), dnew(ds("A")), dseq(ds("A")), dmap([(ds("A"), DUNIT)]), denum(ds("A"), DUNIT), BAD, ds("A"), D("f64", "1.0")]:
                    if C["rep"] == "ext":
                        emit(s, dmap([(t, body)]))
                    elif C["rep"] == "int":
                        emit(s, dmap([(g.text(C["tag"]), t)] + rest))
                        emit(s, dmap(rest + [(g.text(C["tag"]), t)]))
                    else:
                        emit(s, dmap([(g.text(C["tag"]), t), (g.text(C["content"]), body)]))
                        emit(s, dmap([(g.text(C["content"]), body), (g.text(C["tag"]), t)]))
                        emit(s, dseq(t, body))
                # numbers for names, as derived enums have them
                for t in numbers(g, len(V.tags(cfg, dups=True)), 3):
                    if C["rep"] == "ext":
                        emit(s, dmap([(t, body)]))
                    elif C["rep"] == "int":
                        emit(s, dmap([(g.text(C["tag"]), t)] + rest))
                        emit(s, dmap(rest + [(g.text(C["tag"]), t)]))
                    else:
                        emit(s, dmap([(g.text(C["tag"]), t), (g.text(C["content"]), body)]))
                        emit(s, dseq(t, body))
                        emit(s, dmap([(dint(t["k"], g.r.randrange(3)), g.text("A")), (g.text(C["content"]), body)]))
                        emit(s, dmap([(dint("u8", 0), t), (dint("u8", 1), body)]))
                # several tags
                for a, b in [("A", "B"), ("B", "A"), ("A", "A"), ("A", "nobody"), ("nobody", "A"), ("dup", "A"), ("A", "dup")]:
                    ta, tb = g.text(a), g.text(b)
                    if C["rep"] == "ext":
                        emit(s, dmap([(ta, body), (tb, g.doc(s))]))
                    else:
                        key = lambda: g.text(C["tag"])
                        if C["rep"] == "int":
                            emit(s, dmap([(key(), ta), (key(), tb)] + rest))
                            emit(s, dmap([(key(), ta)] + rest + [(key(), tb)]))
                            emit(s, dmap(rest + [(key(), ta), (key(), tb)]))
                        else:
                            c = (g.text(C["content"]), body)
                            emit(s, dmap([(key(), ta), (key(), tb), c]))
                            emit(s, dmap([(key(), ta), c, (key(), tb)]))
                            emit(s, dmap([c, (key(), ta), (key(), tb)]))
                            emit(s, dseq(ta, body, tb))
                # the other representations
                for d in (dmap([(g.text("A"), body)]), dmap([]), dmap([(g.text("A"), body), (g.text("B"), body)]), dmap([(g.text("type"), g.text("A"))] + rest),
                          dmap([(g.text("t"), g.text("A")), (g.text("c"), body)]), dseq(g.text("A"), body), dseq(g.text("A")), dseq(), dseq(g.text("A"), body, body),
                          g.text("A"), DUNIT, DNONE, dsome(dmap([(g.text("A"), body)])), dnew(dmap([(g.text("A"), body)])), denum(g.text("A"), body), BAD, dint("u8", 1),
                          dby(b"A"), dsome(dseq(g.text("A"), body))):
                    emit(s, d)
                    if C["default"]:
                        emit(s, dmap(rest))
    return out


def loosen(case, r):
    """the same, from a format that offers what it has, whatever is asked for;
    only where it is typetag that asks, and not for characters, which are
    taken for texts"""
    import copy
    if case["sch"]["k"] != "obj" or case["sch"]["v"] not in V.BYID:
        return case
    C = V.BYID[case["sch"]["v"]]
    d = case["doc"] = json.loads(json.dumps(case["doc"]))

    def mark(x):
        if x["k"] != "char" and r.random() < .8:
            x["loose"] = True
    mark(d)
    if d["k"] == "seq" and d["c"]:
        if C["rep"] == "adj":
            mark(d["c"][0])
    elif d["k"] == "map" and d["c"]:
        seen = False
        for k, v in pairs(d):
            tag = k["k"] in ("str", "strb", "stro") and gen_dec(k["v"]) == C["tag"]
            if C["rep"] == "ext":
                mark(k)
                break
            if C["rep"] == "adj":
                mark(k)
            if tag and not seen:
                seen = True
                mark(k)
                mark(v)
    return case


def numbers(g, n, k):
    return [dint(g.pick(V.INTS if i < 128 else ["u16", "u32", "u64", "u128", "i16", "i64"]), i)
            for i in sorted({0, 1, 2, max(0, n - 1), n} | set(g.r.sample(range(n + 2), min(k, n))))]


def bare(seed, cfgs, pre="b"):
    """inputs that are a tag, or a content, and nothing else; all in other forms than objects have"""
    out = []
    for cfg in cfgs:
        C = V.BYID[cfg]
        g = DG("%s%s/%s" % (pre, seed, cfg))
        own = V.tags(cfg, dups=True)
        own = own if len(own) < 60 else g.r.sample(own, 20)
        key = C["content"] if C["rep"] == "adj" else "value"
        for t in own + ["nobody", "", "type", "value"] + V.LONGS[::9]:
            if len(t) > 2000:
                continue
            tx = g.text(t)
            docs = [ds(t, k) for k in ("str", "strb", "stro")] + [dby(t.encode(), k) for k in ("bytes", "bytesb", "byteso")] + [
                dsome(tx), dnew(tx), dseq(tx), dseq(tx, DUNIT), dseq(tx, DNONE), dseq(dseq(tx, DUNIT)), dsome(dseq(tx, DUNIT)), denum(tx, DUNIT), dmap([(tx, DUNIT)]),
                dmap([(tx, DNONE)]), dmap([(tx, dmap([]))]), dmap([(tx, dseq())]), dmap([(tx, DUNIT), (tx, DUNIT)]), dsome(dmap([(tx, DUNIT)])), dnew(dmap([(tx, DUNIT)])),
                dseq(dmap([(tx, DUNIT)])), dmap([(dsome(tx), DUNIT)]), dmap([(dnew(tx), DUNIT)]), dmap([(dby(t.encode()), DUNIT)]),
                dmap([(ds(C["tag"] or "type"), tx)]), dmap([(ds(C["tag"] or "type"), tx), (ds(key), DUNIT)]), dmap([(ds(key), DUNIT), (ds(C["tag"] or "type"), tx)]),
                dmap([(ds(C["tag"] or "type"), dsome(tx))]), dmap([(ds(C["tag"] or "type"), dseq(tx))]), dmap([(ds(C["tag"] or "type"), dmap([(tx, DUNIT)]))]),
                dmap([(ds(key), dmap([(tx, DUNIT)]))]), dmap([(ds(key), tx)]), dmap([(tx, tx)])]
            if len(t) > 40:
                docs = g.r.sample(docs, 12)
            for d in docs:
                s = g.pick([L["unit"], UST, L["any"], sopt(L["any"]), sstruct([]), L["ignored"], stup(), sseq(L["any"]), smap(L["str"], L["any"]), L["str"],
                            senum([("V", wunit()), (t, wunit())]), snew(L["unit"]), sopt(L["unit"])])
                out.append(case("%s%s-%d" % (pre, cfg, len(out)), sobj(cfg, s), d, len(out) % 2 == 0, mk=wants_mk(cfg)))
    return out


# C22: objects inside objects
def nest(seed, n, depth=3, pre="n"):
    out = []
    g = DG("%s%s" % (pre, seed))
    g.match = .985
    full = [c["id"] for c in FULL]
    i = 0
    while len(out) < n:
        i += 1
        g.textkeys = i % 4 != 0
        g.strb = i % 2 == 0

        def obj(dep):
            if dep == 0:
                return g.leaf() if g.r.random() < .5 else g.struct(g.leaf)
            x = sobj(g.pick(full), obj(dep - 1))
            return g.pick([lambda: x, lambda: sopt(x), lambda: sseq(x), lambda: stup(x, L["any"]), lambda: sstruct([("x", x), ("y", sopt(L["any"]))]),
                           lambda: smap(L["str"], x), lambda: snew(x), lambda: senum([("N", wnew(x)), ("V", wunit())]), lambda: senum([("S", wstruct([("f", x)]))]),
                           lambda: senum([("T", wtup(L["any"], x))]), lambda: x])()
        s = sobj(g.pick(full), obj(g.r.choice([1, 2, depth])))
        d = g.doc(s)
        if size(d) > 160:
            continue
        out.append(case("%s%d" % (pre, len(out)), s, d, g.r.random() < .5))
    return out


# C21: components that look at the readability, everywhere
def readability(seed, rounds, cfgs, pre="h"):
    out = []
    for cfg in cfgs:
        g = DG("%s%s/%s" % (pre, seed, cfg))
        g.match = 1.0
        g.textkeys = True
        n = 0
        for k in range(rounds):
            g.strb = k % 2 == 1
            h = L["hr"]
            a = g.leaf()
            inner = [h, sopt(h), snew(h), sseq(h), take(2, h), stup(h, a), stup(a, h), sts(h), sts(a, h), smap(L["str"], h), smap(h, h), smap(h, a),
                     mtake(1, L["str"], h), sstruct([("x", h)]), sstruct([("x", a), ("y", h)]), sstruct([("x", h)], deny=True),
                     sstruct([("x", h), ("y", sopt(h))]), senum([("V", wunit()), ("N", wnew(h))]), senum([("T", wtup(a, h))]),
                     senum([("S", wstruct([("f", h), ("g", a)]))])]
            deep = [w(x) for x in (inner if k else inner[:6]) for w in g.r.sample([sopt, snew, sseq, sts, lambda y: stup(a, y), lambda y: smap(L["str"], y),
                    lambda y: sstruct([("q", y)]), lambda y: senum([("N", wnew(y))]), lambda y: senum([("T", wtup(y, y))]),
                    lambda y: senum([("S", wstruct([("f", y)]))]), lambda y: sobj(g.pick([c["id"] for c in FULL]), y)], 3)]
            for s in inner + deep:
                g.textkeys = not (s["k"] == "map" and s["c"][0]["k"] == "hr")
                for order in (0, 1, 2):
                    d = g.obj(sobj(cfg, s), order=order)
                    for hr in (True, False):
                        out.append(case("%s%s-%d-%d" % (pre, cfg, n, hr), sobj(cfg, s), d, hr, mk=wants_mk(cfg)))
                    n += 1
    return out


def dumped(lines, pre):
    """pairs printed by MCDe: one case each"""
    import json
    return [case("%s-%d" % (pre, i), x["sch"], x["doc"], i % 2 == 0) for i, x in enumerate(map(json.loads, lines))]


def wrapped(lines, pre, every=1, forms=(0, 1, 2)):
    """pairs printed by MCBuf: as content that is held back, and directly"""
    import json
    out = []
    for i, l in enumerate(lines):
        if i % every:
            continue
        x = json.loads(l)
        s, d = x["sch"], x["doc"]
        t = ds("A", ("str", "strb", "stro")[i % 3])
        f = [lambda: (sobj("adj0", s), dmap([(ds("c"), d), (ds("t"), t)])),
             lambda: (sobj("adj0", s), dmap([(ds("t"), t), (ds("c"), d)])),
             lambda: (sobj("int0", s), dmap([(ds("value"), d), (ds("type"), t)])),
             lambda: (sobj("ext0", s), dmap([(t, d)]))]
        for k in forms:
            a, b = f[k]()
            out.append(case("%s-%d-%d" % (pre, i, k), a, b, i % 2 == 0))
    return out


def faulty(seed, n):
    """readings to be disturbed"""
    out = random_objs(seed, n, [c["id"] for c in V.FULL] + ["deo", "dex", "dea"], pre="q", objs=.15)
    return [c for c in out if size(c["doc"]) < 30]


def scale(seed, cfgs, deep=(12, 40, 100), many=(300, 1100), long=(300, 5000, 70000), pre="z"):
    """inputs that are deep, have many parts, or long ones"""
    out = []
    for cfg in cfgs:
        g = DG("%s%s/%s" % (pre, seed, cfg))
        g.strb = False
        pairs = []
        wraps = [(sopt, dsome), (snew, dnew), (snew, lambda d: d), (sseq, lambda d: dseq(d)), (stup, lambda d: dseq(d)), (sts, lambda d: dseq(d)),
                 (lambda s: smap(L["str"], s), lambda d: dmap([(g.text("k"), d)])), (lambda s: sstruct([("f", s)]), lambda d: dmap([(g.text("f"), d)])),
                 (lambda s: senum([("N", wnew(s)), ("V", wunit())]), lambda d: dmap([(g.text("N"), d)])),
                 (lambda s: senum([("T", wtup(s, L["any"]))]), lambda d: dmap([(g.text("T"), dseq(d, DUNIT))])),
                 (lambda s: senum([("S", wstruct([("f", s)]))]), lambda d: dmap([(g.text("S"), dmap([(g.text("f"), d)]))]))]
        for n in deep:
            sets = [[w] for w in wraps] + [g.r.sample(wraps, len(wraps)) for _ in range(4)]
            for j, ws in enumerate(sets):
                s = g.leaf() if j % 3 else L["u8"]
                d = g.doc(s) if j % 3 else dint("u8", 7)
                for k in range(n):
                    a, b = ws[k % len(ws)]
                    s, d = a(s), b(d)
                pairs.append((s, d))
                if j % 2:
                    pairs.append((g.pick([L["any"], L["ignored"]]), d))
        for n in many:
            u = dseq(*[dint("u8", i % 251) for i in range(n)])
            for s in (L["any"], sseq(L["u8"]), take(n, L["u8"]), take(n - 1, L["u8"]), take(n + 1, L["u8"]), L["ignored"], L["bytebuf"], L["bytes"]):
                pairs.append((s, u))
            pairs.append((sstruct([("f", sseq(L["any"])), ("g", L["u8"])]), dmap([(g.text("f"), u), (g.text("g"), dint("u8", 1))])))
            if n <= 300:
                m = dmap([(g.text("k%d" % i), dint("u8", i % 251)) for i in range(n)])
                pairs += [(L["any"], m), (smap(L["str"], L["u8"]), m), (mtake(n, L["str"], L["any"]), m), (L["ignored"], m), (sstruct([("k%d" % (n // 2), L["u8"])]), m),
                          (stup(*[L["u8"]] * n), u), (sts(*[L["u8"]] * (n - 1)), u),
                          (sstruct([("k%d" % i, L["u8"]) for i in range(n)], deny=True), m)]
        for n in long:
            for x in ("a" * n, "\u20ac" * (n // 3)):
                for k in ("str", "strb", "stro"):
                    pairs += [(g.pick([L["str"], L["string"], L["any"]]), ds(x, k)), (sopt(L["str"]), dsome(ds(x, k))), (smap(L["str"], L["u8"]), dmap([(ds(x, k), dint("u8", 1))])),
                              (sstruct([("f", L["string"]), ("g", L["any"])]), dmap([(g.text("f"), ds(x, k)), (g.text("g"), ds("x", k))]))]
            for k in ("bytes", "bytesb", "byteso"):
                pairs += [(g.pick([L["bytes"], L["bytebuf"], L["any"]]), dby(b"\x7f\x80" * (n // 2), k)), (sseq(L["bytes"]), dseq(dby(b"\x00" * n, k)))]
        for i, (s, d) in enumerate(pairs):
            for o in (0, 9):
                x = sobj(cfg, s)
                g.match = 1.0
                out.append(case("%s%s-%d-%d" % (pre, cfg, i, o), x, around(g, cfg, s, d, o), hr=i % 2 == 0))
        # many and long entries around the tag; objects inside objects
        for n in many:
            if n > 300:
                continue
            m = dmap([(g.text("k%d" % i), dint("u8", i % 251)) for i in range(n)])
            for o in (0, n // 2, n):
                for s in (L["any"], smap(L["str"], L["any"]), sstruct([("k0", L["u8"]), ("k%d" % (n - 1), L["any"])]), L["ignored"]):
                    out.append(case("%s%s-m%d-%d-%d" % (pre, cfg, n, o, len(out)), sobj(cfg, s), around(g, cfg, s, m, o)))
        for n in (8, 30):
            for k in range(6):
                s = g.pick([L["any"], L["u8"]])
                d = dint("u8", 3)
                for j in range(n):
                    c = cfg if k == 0 else g.pick([f["id"] for f in FULL])
                    # the outer object's value is this one
                    a, b = (s, d) if j == 0 else g.pick([(s, d), (sstruct([("x", s)]), dmap([(g.text("x"), d)])), (sseq(s), dseq(d)), (sopt(s), dsome(d))])
                    s, d = sobj(c, a), around(g, c, a, b, 9 if k % 2 else 0)
                out.append(case("%s%s-o%d-%d" % (pre, cfg, n, k), s, d))
    # TLC reads 255 levels of JSON
    return [c for c in out if max(levels(c["sch"]), levels(c["doc"])) <= 118]


def levels(x):
    return 1 + max(map(levels, x["c"]), default=0)


def around(g, cfg, s, d, order):
    """an object whose value is d, read by s"""
    C = BYID[cfg]
    t = g.text(g.pick(tags(cfg)))
    if C["rep"] == "ext":
        return dmap([(t, d)])
    if C["rep"] == "adj":
        es = [(g.text(C["content"]), d)]
        es.insert(order, (g.text(C["tag"]), t))
        return dmap(es)
    while s["k"] == "nstruct":
        s = s["c"][0]
        d = d["c"][0] if d["k"] == "newtype" else d
    if s["k"] in ("map", "struct", "structdeny", "mtake", "any", "ignored") and d["k"] == "map":
        es = list(zip(d["c"][::2], d["c"][1::2]))
    elif s["k"] == "enum":
        es = [(d["c"][0], d["c"][1])]
    elif s["k"] == "option":
        es = [(g.text("value"), d["c"][0] if d["k"] == "some" else d)]
    else:
        es = [(g.text("value"), d)]
    es.insert(order, (g.text(C["tag"]), t))
    return dmap(es)
