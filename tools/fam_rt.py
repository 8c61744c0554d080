"""Cases of the round trips."""
import json
import re
import urllib.parse
import vgen as V
from vgen import *

SELF = ["json", "jsonv", "cbor", "ron", "tree", "treec", "tree1", "tree1c", "tree2"]
COMPACT = ["postcard", "bincode", "strict", "strictc"]


def moves(fmt):
    """does the format move the entries of maps?"""
    return fmt == "jsonv" or fmt.startswith("tree") and fmt[4:5].isdigit()


def zoo_types():
    import lib, os
    s = open(os.path.join(lib.HARNESS, "core", "src", "zoo.rs")).read()
    return re.findall(r"^\s{4}(Z\w+) = \|r\|", s, re.M)


def clash(n, keys=frozenset(), only_struct=False):
    """does an internally tagged object have an entry of its own under the
    tag key?  (it can not come back from a format that moves entries, a
    struct's from none)"""
    t, c = n
    k = t[0]
    if k == "obj":
        C = V.BYID[t[1]]
        mine = [enc(C["tag"])] if C["rep"] == "int" else [t[2]] if C["rep"] == "ext" else [enc(C["tag"]), enc(C["content"])]
        if keys & set(mine) and not (only_struct and C["rep"] != "adj"):
            return True
        return clash(c[0], keys | set(mine) if C["rep"] == "int" else frozenset(), only_struct)
    if keys:
        if k == "nstruct":
            return clash(c[0], keys, only_struct)
        own = []
        if k == "struct":
            own = t[4]
        elif only_struct:
            own = []
        elif k == "map":
            own = [x[0][1] for x in c[::2] if x[0][0] == "str"]
        elif k in ("uvariant", "nvariant", "tvariant", "svariant"):
            own = [t[3]]
        elif k not in ("unit", "none", "ustruct"):
            own = ["value"]
        if keys & set(own):
            return True
    return any(clash(x, frozenset(), only_struct) for x in c)


def any_of(n, f):
    return f(n) or any(any_of(x, f) for x in n[1])


def ordered(n):
    """entries which a format that sorts them leaves in place"""
    if any(k[0][0] != "str" for k in n[1][::2]):
        return False
    ks = [urllib.parse.unquote_to_bytes(k[0][1]) for k in n[1][::2]]
    return ks == sorted(ks)


def suits(fmt, node):
    """is the pairing of value and format meaningful?"""
    if clash(node, only_struct=not moves(fmt)):
        return False
    # maps are read back with a type per position
    if moves(fmt) and any_of(node, lambda n: n[0][0] == "map" and len(n[1]) > 2 and not (fmt == "jsonv" and ordered(n))):
        return False
    # names that are empty are no identifiers
    if fmt == "ron" and any_of(node, lambda n: n[0][0] == "obj" and V.BYID[n[0][1]]["rep"] == "adj"
                               and "" in (V.BYID[n[0][1]]["tag"], V.BYID[n[0][1]]["content"])):
        return False
    return True


def case(cid, node, fmt):
    return {"id": cid, "kind": "rt", "node": V.toks(node), "fmt": fmt}


def forms(seed, fmts, cfgs, rounds, wide):
    out = []
    for cfg in cfgs:
        for fmt in fmts:
            for k in range(rounds):
                g = V.Gen("rt%s/%s/%s/%d" % (seed, cfg, fmt, k))
                g.hr, g.finite = True, True
                g.plain_keys = k % 2 == 1
                vals = g.catalogue(2)
                for x in g.atoms() if wide else [g.atom(), g.atom()]:
                    vals += g.contexts(x)
                for i, v in enumerate(vals):
                    n = obj(cfg, g.pick(V.tags(cfg)), v)
                    if suits(fmt, n):
                        out.append(case("%s-%s-%d-%d" % (cfg, fmt, k, i), n, fmt))
    return out


def deep(seed, fmts, n, depth=4, pre="d"):
    out = []
    g = V.Gen("rd%s" % seed)
    g.hr, g.objs, g.finite = True, True, True
    i = 0
    while len(out) < n:
        i += 1
        g.plain_keys = g.r.random() < .6
        cfg, fmt = g.pick(V.OBJCFGS), g.pick(fmts)
        v = obj(cfg, g.pick(V.tags(cfg)), g.compound(depth))
        if V.size(v) > 80:
            continue
        # objects inside other containers too
        if g.r.random() < .3:
            v = g.pick(g.contexts(v))
        if suits(fmt, v):
            out.append(case("%s%d-%s" % (pre, i, fmt), v, fmt))
    return out


def strict(seed, n, cfgs, depth=4, pre="s", hr=False):
    """what is asked of a format without types"""
    out = []
    g = V.Gen("st%s" % seed)
    g.hr, g.objs, g.finite = hr, True, True
    vals = []
    for cfg in cfgs:
        g.plain_keys = False
        for v in g.catalogue(2):
            vals.append(obj(cfg, g.pick(V.tags(cfg)), v))
        for v in g.contexts(g.atom()):
            vals.append(obj(cfg, g.pick(V.tags(cfg)), v))
    while len(vals) < n:
        cfg = g.pick(V.OBJCFGS)
        v = obj(cfg, g.pick(V.tags(cfg)), g.compound(depth))
        if V.size(v) <= 100:
            vals.append(v)
    for i, v in enumerate(vals):
        if not clash(v, only_struct=True):
            out.append({"id": "%s%d" % (pre, i), "kind": "strict", "node": V.toks(v), "hr": i % 2 == 0})
    return out


def readability(seed, fmts, rounds, cfgs):
    import fam_ser
    out = []
    for fmt in fmts:
        for cfg in cfgs:
            for i, n in enumerate(fam_ser.hr_nodes("%s/%s/%s" % (seed, fmt, cfg), rounds, cfg)):
                if suits(fmt, n):
                    out.append(case("h%s-%s-%d" % (cfg, fmt, i), n, fmt))
    return out


def readable(fmt):
    return not (fmt in ("cbor", "postcard", "bincode") or fmt.endswith("c"))


def dumped(m, fmts, pre):
    """behaviours printed by TLC"""
    out = []
    for i, l in enumerate(m.lines("B")):
        toks = json.loads(l)
        n = V.tree(toks)
        for fmt in fmts:
            if suits(fmt, n):
                out.append({"id": "%s%d-%s" % (pre, i, fmt), "kind": "rt", "node": V.toks(n), "fmt": fmt})
    return out


def zoo(seed, fmts, rounds):
    out = []
    for ty in zoo_types():
        for fmt in fmts:
            # serde's own tagged enums: ron knows them by the name of the visitor
            if fmt == "ron" and ty in ("ZTagged", "ZInner"):
                continue
            for k in range(rounds):
                out.append({"id": "z%s-%s-%d" % (ty, fmt, k), "kind": "zoo", "ty": ty, "seed": seed * 1000 + k, "fmt": fmt})
    return out


FILL = {"dir": {"ok": False, "eq": False}, "obj": {"ok": False, "out": []}, "in": [], "same": False, "moves": False, "odd": False}


def lines(cases, recs):
    """one line per trip, and the case it belongs to"""
    ls, cs = [], []
    for c, r in zip(cases, recs):
        if r["panic"]:
            ls.append(dict(r))
            cs.append(c)
            continue
        base = {"id": r["id"], "panic": False, "fmt": c["fmt"], "moves": moves(c["fmt"]),
                # addresses are no text in a compact format
                "odd": c.get("ty") == "ZAddrMap" and c["fmt"].endswith("c"),
                "dir": {"ok": r["dir"]["ok"], "eq": r["dir"]["eq"]}}
        if c["kind"] == "rt":
            ls.append(dict(base, **{"in": r["obj"]["in"], "obj": {k: r["obj"][k] for k in ("ok", "out", "err")}, "same": True}))
            cs.append(c)
        else:
            for j, o in enumerate(r["objs"]):
                # the same tag key twice
                if c["ty"] == "ZWrapInt" and j == 1 and moves(c["fmt"]):
                    continue
                ls.append(dict(base, **{"id": "%s/%d" % (r["id"], j), "in": r["in"], "obj": {k: o[k] for k in ("ok", "out", "err")},
                                        "same": o["same"] if o["ok"] else False}))
                cs.append(c)
    return ls, cs


def scale(seed, fmts, cfgs, pre="z", **kw):
    """trips of values that are deep, have many parts, or long ones"""
    import fam_ser
    out = []
    for cfg in cfgs:
        g = V.Gen("%s%s/%s" % (pre, seed, cfg))
        g.finite = True
        for i, v in enumerate(fam_ser.scaled(g, **dict(dict(deep=(12, 40), many=(300,), long=(300, 5000)), **kw))):
            for fmt in fmts:
                n = obj(cfg, g.pick(V.tags(cfg)), v)
                if suits(fmt, n):
                    out.append(case("%s%s-%d-%s" % (pre, cfg, i, fmt), n, fmt))
    return out
