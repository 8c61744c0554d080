"""Cases of the serialization part."""
import json
import vgen as V
from vgen import *


def case(cid, node, hr=True, fault=0, mk=None):
    c = {"id": cid, "kind": "ser", "node": V.toks(node), "hr": hr, "fault": fault}
    if mk is not None:
        c["mk"] = mk
    return c


def dumped(r, prefix):
    """behaviours printed by MCSer"""
    out = []
    for i, l in enumerate(r.lines("B")):
        ts = json.loads(l)
        for t in ts:
            if t[0] == "struct":
                del t[4:]
            if t[0] == "svariant":
                del t[6:]
        out.append({"id": "%s-%d" % (prefix, i), "kind": "ser", "node": ts, "hr": i % 3 != 0, "fault": 0})
    return out


def forms(seed, rep, rounds, depth, wide):
    """every kind of value under every configuration of a representation"""
    out = []
    for cfg in V.cfgs(rep):
        tags = V.tags(cfg, dups=True)
        for k in range(rounds):
            g = V.Gen("%s/%s/%d" % (seed, cfg, k))
            g.hr = True
            g.objs = k % 3 == 2
            vals = g.catalogue(depth)
            if wide:
                vals += [x for a in g.atoms() for x in g.contexts(a)]
            for i, v in enumerate(vals):
                out.append(case("%s-%d-%d" % (cfg, k, i), obj(cfg, g.pick(tags), v), hr=g.r.random() < .6))
    only = {"ext": "serx", "int": "sero", "adj": "sera"}[rep]
    for cfg in [only] + V.marker_cfgs(rep):
        g = V.Gen("%s/%s" % (seed, cfg))
        for i, v in enumerate(g.catalogue(2)):
            out.append(case("%s-%d" % (cfg, i), obj(cfg, g.pick(V.tags(cfg)), v), mk=""))
    return out


def nested(seed, rounds, cfgs, long=False):
    """a value of every kind in every containing position, twice"""
    out = []
    for cfg in cfgs:
        for k in range(rounds):
            g = V.Gen("n%s/%s/%d" % (seed, cfg, k))
            g.hr = k % 2 == 0
            inner = g.atoms() + [g.compound(2, c) for c in V.COMPOUND]
            if k % 2:
                inner = [g.pick(g.contexts(x)) for x in inner]
            i = 0
            for x in inner:
                for y in g.contexts(x):
                    out.append(case("%s-n%d-%d" % (cfg, k, i), obj(cfg, g.pick(V.tags(cfg)), y), hr=g.r.random() < .6))
                    i += 1
        if long:
            g = V.Gen("l%s/%s" % (seed, cfg))
            for n in (5, 16, 17, 33, 64, 65, 130, 300):
                es = [g.value(1) for _ in range(n)]
                for j, y in enumerate((seq(es, False), seq(es), tup(es), tstruct("TS", es), tvariant("E", 1, "V", es),
                                       mapp([(st("k%d" % q), e) for q, e in enumerate(es)], n % 2 == 0),
                                       struct("S", [("f%d" % q, e) for q, e in enumerate(es)]),
                                       svariant("E", 2, "V", [("f%d" % q, e) for q, e in enumerate(es)]),
                                       some(seq(es)), nstruct("W", tup(es)))):
                    out.append(case("%s-l%d-%d" % (cfg, n, j), obj(cfg, g.pick(V.tags(cfg)), y)))
    return out


def deep(seed, n, depth, cfgs, objs=False, pre="d"):
    out = []
    g = V.Gen("d%s" % seed)
    g.hr, g.objs = True, objs
    i = 0
    while len(out) < n:
        cfg = g.pick(cfgs)
        v = g.compound(depth)
        i += 1
        if V.size(v) > 120:
            continue
        out.append(case("%s%d" % (pre, i), obj(cfg, g.pick(V.tags(cfg)), v), hr=g.r.random() < .5))
    return out


def clashes(seed, rounds):
    """structs with fields named like the tag key"""
    out = []
    for cfg in V.cfgs("int"):
        key = V.BYID[cfg]["tag"]
        for tag in V.tags(cfg):
            for k in range(rounds):
                g = V.Gen("c%s/%s/%s/%d" % (seed, cfg, tag, k))
                good = [st(tag), some(st(tag)), nstruct("W", st(tag)), some(nstruct("W", some(st(tag))))]
                good += [T(["hrstr", enc(tag), enc(tag)])]
                if len(tag) == 1:
                    good += [T(["char", enc(tag)]), some(T(["char", enc(tag)]))]
                bad = [st(tag + "x"), st("other"), st("" if tag else "q"), st(tag.lower() if tag.lower() != tag else "no"),
                       T(["char", "q"]), some(st("nope")), nstruct("W", T(["char", "Z"])), NONE, UNIT, T(["u8", "1"]),
                       T(["bool", "true"]), T(["bytes", tag.encode().hex()]), uvariant("E", 0, tag), ustruct(tag),
                       nvariant("E", 0, "V", st(tag)), seq([st(tag)]), tup([st(tag)]), tstruct("TS", [st(tag)]),
                       tvariant("E", 0, "V", [st(tag)]), mapp([(st(key), st(tag))]), struct("S", [(key, st(tag))]),
                       svariant("E", 0, "V", [(key, st(tag))]), T(["f64", "1.0"]), T(["i128", "3"]), obj("ext0", "A", st(tag)),
                       obj("int0", "A", st(tag)), obj("adj0", "A", st(tag)), HR]
                # texts close to the tag
                close = [tag + tag, tag + "\0", tag + " ", " " + tag, tag[:-1], tag[1:], tag[::-1], tag.upper(), "\"%s\"" % tag, "T::" + tag, tag + "\n", tag + "_",
                         "\u20ac", "\U0001f600" + tag, tag + "\u00e9"]
                bad += [w(st(x)) for x in close if x != tag for w in (lambda y: y, some)]
                # long ones, of characters of all sizes, and odd ones
                far = [st(x) for x in (LONGS[:-1] if k == 0 and tag == V.tags(cfg)[0] else g.r.sample(LONGS[:-1], 3)) + g.r.sample(ODD, 3) if x != tag]
                bad += [g.pick([lambda y: y, some, lambda y: nstruct("W", y)])(x) for x in far]
                bad += [w(T(["char", enc(x)])) for x in sorted(set(tag + "q")) if x != tag for w in (lambda y: y, some)]
                # the tag in one kind of format only
                half = [w(T(["hrstr", enc(x), enc(y)])) for x, y in ((tag, tag + "x"), (tag + "x", tag), ("q", tag), (tag, "q"))
                        for w in (lambda y: y, some, lambda y: nstruct("W", y))]
                bad += half
                vals = good * 2 + far + g.r.sample(bad, 16) if k else good + bad
                for i, v in enumerate(vals):
                    w = g.r.randrange(0, 4)
                    fs = [("f%d" % j, g.value(1)) for j in range(w)]
                    # almost the tag key
                    for near in (key + "x", key.upper() + "_", "value", "_" + key):
                        if g.r.random() < .3 and near != key:
                            fs.insert(g.r.randrange(len(fs) + 1), (near, g.value(1)))
                    seen = set()
                    fs = [f for f in fs if not (f[0] in seen or seen.add(f[0]))]
                    fs.insert(g.r.randrange(len(fs) + 1), (key, v))
                    if i % 11 == 10:
                        fs.append((key, v))
                    s = struct("S", fs)
                    if i % 5 == 1:
                        s = nstruct("W", s)
                    if i % 7 == 6:
                        # not a field of the object itself: no matter
                        s = g.pick([some(s), seq([s]), svariant("E", 1, "V", fs), mapp([(st("a"), s)]), tup([s]),
                                    struct("Out", [("inner", s)]), nvariant("E", 1, "V", s), tstruct("TS", [s])])
                    out.append(case("cl-%s-%s-%d-%d" % (cfg, enc(tag).replace(" ", "_"), k, i), obj(cfg, tag, s), hr=g.r.random() < .5))
    # other representations know no such clash
    for cfg in ("ext0", "adj0", "adj6"):
        g = V.Gen("cc%s/%s" % (seed, cfg))
        for i in range(10):
            fs = [("t", st("x")), ("type", T(["u8", "1"])), ("c", NONE), (V.BYID[cfg]["content"] or "A", st("A"))]
            seen = set()
            out.append(case("cl-%s-%d" % (cfg, i), obj(cfg, "A", struct("S", [f for f in fs if not (f[0] in seen or seen.add(f[0]))]))))
    return out


def faulty(seed, rounds):
    """values for runs that are to be disturbed"""
    out = []
    for cfg in ("ext0", "int0", "adj0", "int3", "adj7"):
        for k in range(rounds):
            g = V.Gen("q%s/%s/%d" % (seed, cfg, k))
            g.hr = True
            vals = [v for v in g.catalogue(2) if V.size(v) < 25]
            for x in (g.atom(), g.compound(1)):
                vals += g.contexts(x)
            for i, v in enumerate(vals):
                out.append(case("q%s-%d-%d" % (cfg, k, i), obj(cfg, g.pick(V.tags(cfg)), v), hr=g.r.random() < .5))
    g = V.Gen("qq%s" % seed)
    g.objs = True
    for i in range(40 * rounds):
        v = g.compound(3)
        if V.size(v) < 25:
            cfg = g.pick(V.OBJCFGS)
            out.append(case("qd%d" % i, obj(cfg, g.pick(V.tags(cfg)), v)))
    for only, rep in (("serx", "ext"), ("sero", "int"), ("sera", "adj"), ("mintb", "int"), ("mexts", "ext"), ("madjy", "adj")):
        for i, v in enumerate(g.contexts(g.atom())):
            out.append(case("q%s-%d" % (only, i), obj(only, g.pick(V.tags(only)), v), mk=""))
    # a field under the tag key
    for i, v in enumerate((st("A"), some(st("A")), nstruct("W", st("A")))):
        out.append(case("qo%d" % i, obj("int0", "A", struct("S", [("x", st("q")), ("type", v), ("y", UNIT)]))))
    return out


def failing(seed, base, each):
    """the same values, one part of them failing"""
    out = []
    g = V.Gen("qf%s" % seed)
    lead = {"some", "nstruct", "nvariant"}
    for c in base:
        ts = c["node"]
        # positions at which a value starts
        spots = [i for i, t in enumerate(ts) if i and (ts[i - 1][0] in lead or ts[i - 1][0] in ("e", "k", "v", "f", "obj"))
                 and t[0] != "obj"]
        for n, i in enumerate(g.r.sample(spots, min(each, len(spots)))):
            j = end_of(ts, i)
            out.append((dict(c, id="%s!%d" % (c["id"], n), node=ts[:i] + [["fail"]] + ts[j:]), c["id"]))
    return out


def end_of(ts, i):
    """one past the value that starts at i"""
    t = ts[i][0]
    if t in ("some", "nstruct", "nvariant"):
        return end_of(ts, i + 1)
    if t == "obj":
        return end_of(ts, i + 1) + 1
    if t in ("seq", "tuple", "tstruct", "tvariant", "map", "struct", "svariant"):
        d, i = 1, i + 1
        while d:
            if ts[i][0] == "end":
                d -= 1
            elif ts[i][0] in ("seq", "tuple", "tstruct", "tvariant", "map", "struct", "svariant"):
                d += 1
            i += 1
        return i
    return i + 1


# C21
def readability(seed, rounds, cfgs, pre="h"):
    """components that look at the readability, everywhere; the only bools"""
    out = []
    for cfg in cfgs:
        for node in hr_nodes("%s%s/%s" % (pre, seed, cfg), rounds, cfg):
            for hr in (True, False):
                out.append(case("%s%s-%d" % (pre, cfg, len(out)), node, hr, mk="" if cfg.startswith(("m", "ser")) else None))
    return out


def hr_nodes(seed, rounds, cfg):
    g = V.Gen(seed)
    g.nobool, g.finite = True, True
    out = []
    for k in range(rounds):
        one = [V.HR] + g.contexts(V.HR) + [V.mapp([(V.HR, V.HR)]), V.mapp([(V.HR, g.atom())]), V.seq([V.HR, V.HR], False), V.tup([V.HR, V.some(V.HR)])]
        two = [y for x in one for y in (g.r.sample(g.contexts(x), 4) if k == 0 else g.contexts(x))]
        nest = [V.obj(c, g.pick(V.tags(c)), x) for c in g.r.sample(V.OBJCFGS, 6) for x in g.r.sample(one, 4)]
        out += [V.obj(cfg, g.pick(V.tags(cfg)), x) for x in one + two + nest]
    return out


def chain(wraps, n, x):
    for k in range(n):
        x = wraps[k % len(wraps)](x)
    return x


def scaled(g, deep=(12, 40, 130), many=(300, 1100, 4200), long=(300, 5000, 70000), rest=False):
    """values that are deep, have many parts, or long ones"""
    wraps = [some, lambda x: nstruct("W", x), lambda x: nvariant("E", 1, "V", x), lambda x: seq([x]), lambda x: seq([x], False),
             lambda x: tup([x]), lambda x: tstruct("TS", [x]), lambda x: tvariant("E", 2, "W", [x]), lambda x: mapp([(st("k"), x)]),
             lambda x: struct("S", [("f", x)]), lambda x: svariant("E", 0, "V", [("f", x)])]
    if rest:
        many, long = [n for n in many if n <= 300], [n for n in long if n <= 300]
    out = []
    for n in deep:
        out += [chain([w], n, g.atom()) for w in wraps]
        out += [chain(g.r.sample(wraps, len(wraps)), n, g.atom()) for _ in range(3)]
    u = lambda i: T(["u8", str(i % 251)])
    for n in many:
        es = [u(i) for i in range(n)]
        out += [seq(es), seq(es, False), tup(es), tstruct("TS", es), tvariant("E", 1, "V", es), some(seq(es)), nvariant("E", 1, "V", seq(es, False)),
                struct("S", [("f", seq(es)), ("g", u(1))]), svariant("E", 1, "V", [("f", tup(es)), ("g", u(1))])]
        if n <= 1100:
            out += [mapp([(st("k%d" % i), e) for i, e in enumerate(es)], n % 2 == 0), some(mapp([(st("k%d" % i), e) for i, e in enumerate(es)]))]
        if n <= 300:
            fs = [("f%d" % i, e) for i, e in enumerate(es)]
            out += [struct("S", fs), svariant("E", 2, "V", fs)]
    for n in long:
        for x in (st("a" * n), st("\u20ac" * (n // 3)), T(["bytes", "7f80" * (n // 2)])):
            out += [x, some(x), seq([x, u(1)]), svariant("E", 0, "V", [("f", x)]), mapp([(x, u(1))]), tvariant("E", 0, "V", [u(1), x])]
    return out


def scale(seed, cfgs, pre="z", **kw):
    out = []
    for cfg in cfgs:
        g = V.Gen("%s%s/%s" % (pre, seed, cfg))
        for i, v in enumerate(scaled(g, rest=cfg != cfgs[0], **kw)):
            out.append(case("%s%s-%d" % (pre, cfg, i), obj(cfg, g.pick(V.tags(cfg)), v), hr=i % 2 == 0))
        # objects inside objects
        for n in (10, 40):
            for k in range(3):
                x = g.atom()
                for _ in range(n):
                    c = g.pick([cfg] + V.OBJCFGS)
                    x = obj(c, g.pick(V.tags(c)), g.pick(g.contexts(x)) if k else x)
                out.append(case("%s%s-o%d-%d" % (pre, cfg, n, k), obj(cfg, g.pick(V.tags(cfg)), x), hr=k % 2 == 0))
    return out
