"""First uses by many threads at once, and sequences of uses (C15, C23)."""
import json
import os
import random
import subprocess
import dgen as G
import vgen as V
import fam_de
from dgen import DG, L, case, sobj, sstruct
from vgen import enc

SLOW = ["slowe", "slowi", "slowa"]
USED = [c["id"] for c in V.FULL] + ["big", "deo", "dex", "dea"] + V.marker_cfgs("ext") + V.marker_cfgs("int") + V.marker_cfgs("adj")


def use(g, cfg, cid, inner=None):
    """one deserialization of a trait object of trait cfg"""
    tags = V.tags(cfg, dups=True)
    x = g.r.random()
    tag = "nobody" if x < .1 else tags[-1] if x < .2 else tags[0] if x < .3 else g.pick(tags)
    if cfg in SLOW:
        s = L["unit"]
    elif inner:
        s = g.pick([sstruct([("x", sobj(inner, L["unit"]))]), G.smap(L["string"], sobj(inner, L["unit"]))])
    else:
        s = g.pick([L["unit"], L["u8"], sstruct([("x", L["any"])])])
    d = g.obj(sobj(cfg, s), tag=tag)
    return case(cid, sobj(cfg, s), d, g.r.random() < .5, mk=G.wants_mk(cfg))


def race(seed, k, threads):
    """the cases of one process"""
    g = DG("race%s/%d" % (seed, k))
    g.match = 1
    full = [c["id"] for c in V.FULL]
    first = SLOW + USED
    g.r.shuffle(first)
    steps = [(c, g.pick(full)) for c in first]
    steps += [("", "")] * 3
    out = []
    for i, (a, b) in enumerate(steps):
        for t in range(threads):
            cid = "q%d-%d-%d" % (k, i, t)
            if a == "":
                cs = [use(g, g.pick(USED), "%s-%d" % (cid, j), g.pick(full) if g.r.random() < .5 else None) for j in range(4)]
            elif a in SLOW:
                cs = [use(g, a, cid)]
            elif a in full and g.r.random() < .5:
                # the two traits inside each other, in both directions
                cs = [use(g, a, cid, b) if t % 2 == 0 else use(g, b, cid, a)]
            else:
                cs = [use(g, a, cid)]
            for c in cs:
                c.update(th=t, step=i, spin=g.r.randrange(1 << g.r.randrange(1, 18 if a in SLOW else 13)))
                c["lax"] = g.r.random() < .5
                out.append(c)
    return out


def run_races(ck, seed, procs, threads=8):
    """-> cases, recordings; a process that blocks or dies is one panic"""
    cases, recs = [], []

    def one(k):
        cs = race(seed, k, threads)
        fi = os.path.join(ck.work, "race%d.in" % k)
        fo = fi[:-3] + ".out"
        with open(fi, "w") as f:
            f.writelines(json.dumps(c) + "\n" for c in cs)
        try:
            p = subprocess.run([ck.driver, "race", fi, fo], capture_output=True, text=True, timeout=200)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 77
        got = {}
        if rc == 0:
            for l in open(fo):
                r = json.loads(l)
                got[r["id"]] = r
        os.remove(fi)
        if os.path.exists(fo):
            os.remove(fo)
        return cs, got, rc
    bad = 0
    for lo in range(0, procs, 2):
        for cs, got, rc in ck.pool.map(one, range(lo, min(procs, lo + 2))):
            if rc:
                bad += 1
                cases.append(cs[0])
                recs.append({"id": cs[0]["id"], "kind": "de", "panic": True, "msg": "blocked" if rc == 77 else "process died: %s" % rc})
                continue
            cases += cs
            recs += [got[c["id"]] for c in cs]
        if bad > 3:
            break
    return cases, recs


# ------------------------------------------------------------------ histories
def operations(seed, n, ser, de):
    """n operations of all kinds; ser, de: the families to draw from"""
    r = random.Random("ops%s" % seed)
    out = []
    for i in range(n):
        c = dict(r.choice(ser if r.random() < .4 else de))
        c["id"] = "op%d" % i
        if r.random() < .15:
            c["fault"] = r.randrange(1, 12)
        if r.random() < .2:
            c["boom"] = True
        c["lax"] = r.random() < .5 and "mtake" not in str(c.get("sch"))
        out.append(c)
    # plain uses of a few traits, whose texts all lie in the format's buffer
    g = DG("plain%s" % seed)
    g.match = 1
    for cfg in g.r.sample([c["id"] for c in V.FULL], 6):
        for t in V.tags(cfg, dups=True) + ["nobody"]:
            s = g.pick([L["unit"], L["u8"], sstruct([("x", L["any"])])])
            c = case("op%d" % len(out), sobj(cfg, s), g.obj(sobj(cfg, s), tag=t), True)
            c["doc"] = json.loads(json.dumps(c["doc"]).replace('"strb"', '"str"').replace('"stro"', '"str"'))
            c["lax"] = False
            out.append(c)
    return out


def alone(ck, ops):
    """each in a process of its own"""
    def one(c):
        return ck._slice(ck.driver, "a" + c["id"], [c])[0]
    return list(ck.pool.map(one, ops))


def history(seed, k, ops, length, threads=4):
    """one history: operations in any order on any thread, single ones over
    and over again"""
    r = random.Random("hist%s/%d" % (seed, k))
    few = r.sample(ops, min(len(ops), 40))
    about = {}
    for c in ops:
        if c["kind"] == "de" and c["sch"]["k"] == "obj":
            about.setdefault(c["sch"]["v"], []).append(c)
    out = []
    while len(out) < length:
        x = r.random()
        if x < .04:
            # one trait for a while
            th = r.randrange(threads)
            for c in r.choices(about[r.choice(sorted(about))], k=20):
                out.append(dict(c, id="h%d-%d" % (k, len(out)), op=c["id"], th=th))
            continue
        c = r.choice(few) if x < .5 else r.choice(ops)
        th = r.randrange(threads)
        for _ in range(300 if x > .997 else r.choice([1, 1, 1, 2, 5])):
            out.append(dict(c, id="h%d-%d" % (k, len(out)), op=c["id"], th=th))
    return out[:length]


NOERR = {"kind": "", "arg": "", "list": [], "msg": ""}


def outcome(r):
    o = {"panic": r["panic"], "msg": r.get("msg", ""), "ok": r.get("ok", False), "out": r.get("out", []), "err": "", "de": NOERR,
         "v": r.get("v", {"k": "", "v": "", "c": []}), "reads": r.get("reads", 0), "fired": r.get("fired", False)}
    if isinstance(r.get("err"), dict):
        o["de"] = r["err"]
    else:
        o["err"] = r.get("err", "")
    return o
