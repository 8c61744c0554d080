#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property for /repo's
working tree.  Exit 0 held, 1 with a VIOLATION line, 2 error of the check."""
import os
import random
import sys
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fam_de as FD
import fam_decl as FX
import fam_race as FC
import fam_rt as FR
import fam_ser as FS
import fam_tot as FT
import lib
import vgen as V

SER_FILL = {"in": [], "out": [], "hr": False, "fault": 0, "fired": False, "ok": False, "err": "", "mk": ""}
DE_FILL = {"sch": {"k": "", "v": "", "c": [], "f": []}, "doc": {"k": "", "v": "", "c": []}, "hr": False, "fault": 0, "fired": False,
           "ok": False, "v": {"k": "", "v": "", "c": []}, "err": {"kind": "", "arg": "", "list": [], "msg": ""}, "marked": False,
           "vmarked": False, "reads": 0, "mk": ""}
ALL_DE = ["panic", "lost", "accepted", "value", "kind", "names", "swallowed"]
TRUST = ["the recording format, the driver and the generators under /verif/harness and /verif/tools",
         "serde, erased-serde, inventory, once_cell and rustc"]


def ser(ck, cases, care, label=""):
    recs = ck.run(cases)
    ck.validate("TraceSer", recs, cases, care, label, fill=SER_FILL, known={"K1": "K1"})
    return recs


def mc_ser(ck, cfgs, quick=7, thorough=9, maxobj=2):
    q = "{%s}" % ", ".join('"%s"' % c for c in cfgs)
    return ck.model("MCSer", consts={"MaxLen": str(quick if ck.quick else thorough), "ObjCfgs": q, "MaxObj": str(maxobj),
                                     "Dump": "FALSE"}, workers=6, heap="8g")


def dump_ser(ck, cfg, length, maxobj=1):
    return ck.model("MCSer", consts={"MaxLen": str(length), "ObjCfgs": '{"%s"}' % cfg, "MaxObj": str(maxobj), "Dump": "TRUE"},
                    workers=2, name="MCSerDump-" + cfg)


def wire(ck, rep, main, care):
    ck.build()
    mc = mc_ser(ck, [main, "int0"] if rep != "int" else ["int0", "adj7"])
    dump = dump_ser(ck, main, 6 if ck.quick else 7)
    cases = FS.forms(ck.seed, rep, 3 if ck.quick else 20, 2, not ck.quick)
    cases += FS.nested(ck.seed, 1 if ck.quick else 4, V.cfgs(rep) if not ck.quick else V.cfgs(rep)[:4])
    cases += FS.deep(ck.seed, 400 if ck.quick else 6000, 5, V.cfgs(rep), objs=True)
    cases += FS.scale(ck.seed, [main], deep=(12, 60), many=(300,), long=(5000,)) if ck.quick else FS.scale(ck.seed, V.cfgs(rep))
    cases += FS.dumped(dump.result(), "tlc")
    ser(ck, cases, care)
    mc.result()
    return ck.finish(TRUST)


def c01(ck):
    return wire(ck, "ext", "ext0", ["shape", "known", "size", "protocol", "result", "panic"])


def c02(ck):
    return wire(ck, "int", "int0", ["shape", "known", "protocol", "result", "panic"])


def c03(ck):
    return wire(ck, "adj", "adj0", ["shape", "known", "size", "protocol", "result", "panic"])


def c04(ck):
    """content nested under internal tagging"""
    ck.build()
    mc = ck.model("MCSer", consts={"MaxLen": "7" if ck.quick else "9", "ObjCfgs": '{"int0"}', "MaxObj": "3", "Dump": "FALSE"},
                  workers=6, heap="8g")
    ints = V.cfgs("int")
    cases = FS.nested(ck.seed, 2 if ck.quick else 12, ints if not ck.quick else ints[:3] + ints[7:], long=True)
    cases += FS.deep(ck.seed, 1500 if ck.quick else 20000, 5, ints)
    cases += FS.deep(ck.seed + 1, 500 if ck.quick else 8000, 6, ints, objs=True, pre="o")
    cases += FS.scale(ck.seed, ["int0"], many=(300, 1100)) if ck.quick else FS.scale(ck.seed, ints)
    ser(ck, cases, ["shape", "known", "protocol", "result", "panic"])
    mc.result()
    return ck.finish(TRUST)


def c05(ck):
    """announced sizes"""
    ck.build()
    mc = mc_ser(ck, ["int0", "ext0", "adj0", "adj7"], quick=7, thorough=9)
    cases = []
    for rep in ("ext", "int", "adj"):
        cases += FS.forms(ck.seed + 5, rep, 1 if ck.quick else 8, 2, not ck.quick)
    cases += FS.nested(ck.seed + 5, 1 if ck.quick else 5, V.cfgs("int")[:2] + ["ext0", "adj0"] if ck.quick else V.OBJCFGS, long=True)
    cases += FS.deep(ck.seed + 5, 800 if ck.quick else 12000, 5, V.OBJCFGS, objs=True)
    cases += FS.clashes(ck.seed + 5, 1)
    cases += FS.scale(ck.seed + 5, ["int0", "adj0"] if ck.quick else ["int0", "int3", "ext0", "adj0"], deep=(12,), many=(300, 1100), long=(300,))
    ser(ck, cases, ["size", "panic"])
    mc.result()
    return ck.finish(TRUST)


def c06(ck):
    """fields named like the tag key"""
    ck.build()
    mc = mc_ser(ck, ["int0"], quick=8, thorough=10, maxobj=1)
    dump = dump_ser(ck, "int0", 6 if ck.quick else 8)
    cases = FS.clashes(ck.seed, 3 if ck.quick else 15)
    cases += FS.dumped(dump.result(), "tlc")
    ser(ck, cases, ["shape", "known", "protocol", "result", "message", "after", "panic"])
    mc.result()
    return ck.finish(TRUST)


# ------------------------------------------------------------ deserialization
def de(ck, cases, care=ALL_DE, label="", k2=False):
    # every second input comes from a format that leaves it to the visitors
    # to read maps to their end, as CBOR does
    # and some from one that offers what it has, whatever is asked for
    for c in cases:
        h = zlib.crc32(c.get("of", c["id"]).encode())
        c["lax"] = h % 2 == 1 and "mtake" not in str(c["sch"])
        if h % 7 < 2:
            FD.loosen(c, random.Random(h))
    recs = ck.run(cases)
    ck.validate("TraceDe", recs, cases, list(care) + (["K2"] if k2 else []), label, fill=DE_FILL, known={"K2": "K2"})
    return recs


def mc_de(ck, cfgs, length, dump=False):
    q = "{%s}" % ", ".join('"%s"' % c for c in cfgs)
    return ck.model("MCDe", consts={"MaxLen": str(length), "Cfgs": q, "Dump": "TRUE" if dump else "FALSE"},
                    workers=2 if dump else 6, heap="8g", name="MCDe-dump-" + cfgs[0] if dump else None)


FULLIDS = [c["id"] for c in V.FULL]
OTHERS = ["deo", "dex", "dea"] + V.marker_cfgs("ext") + V.marker_cfgs("int") + V.marker_cfgs("adj")


def c09(ck):
    """the tag alone selects"""
    ck.build()
    mc = mc_de(ck, ["ext0", "int0", "int1", "adj0", "adj1"], 2 if ck.quick else 3)
    dumps = [mc_de(ck, [c], 2, True) for c in (["ext0", "int5"] if ck.quick else ["ext0", "int0", "int5", "adj0", "adj5"])]
    cases = FD.tagged(ck.seed, 1 if ck.quick else 4, FULLIDS + OTHERS)
    cases += FD.oddtags(ck.seed, 1 if ck.quick else 4, FULLIDS)
    cases += FD.scale(ck.seed, ["ext0"] if ck.quick else ["ext0", "int0", "adj0"])
    cases += FD.bare(ck.seed, FULLIDS + OTHERS)
    cases += FD.random_objs(ck.seed, 1500 if ck.quick else 20000, FULLIDS + OTHERS)
    for i, d in enumerate(dumps):
        cases += FD.dumped(d.result().lines("D"), "tlc%d" % i)
    de(ck, cases)
    mc.result()
    return ck.finish(TRUST)


def c10(ck):
    """position of the internal tag"""
    ck.build()
    mc = mc_de(ck, ["int0", "int4"], 2 if ck.quick else 3)
    dumps = [mc_de(ck, [c], 2, True) for c in (["int0"] if ck.quick else ["int0", "int1", "int2"])]
    ints = V.cfgs("int")
    cases = FD.positions(ck.seed, 4 if ck.quick else 30, ints + ["deo"] + V.marker_cfgs("int")[:4])
    cases += FD.random_objs(ck.seed, 1500 if ck.quick else 20000, ints, strb=False)
    cases += FD.scale(ck.seed, ["int0"] if ck.quick else ints)
    for i, d in enumerate(dumps):
        cases += FD.dumped(d.result().lines("D"), "tlc%d" % i)
    de(ck, cases, k2=True)
    mc.result()
    return ck.finish(TRUST)


def c11(ck):
    """keys of adjacently tagged maps"""
    ck.build()
    adjs = V.cfgs("adj")
    mc = mc_de(ck, ["adj0", "adj2"] if ck.quick else ["adj0", "adj1", "adj2", "adj4"], 3)
    dumps = [mc_de(ck, [c], 2, True) for c in (["adj0", "adj2"] if ck.quick else ["adj0", "adj1", "adj2", "adj4", "adj6"])]
    cases = FD.adjkeys(ck.seed, adjs, 4 if ck.quick else 6, 2)
    cases += FD.random_objs(ck.seed, 1000 if ck.quick else 20000, adjs)
    cases += FD.scale(ck.seed, ["adj0"] if ck.quick else adjs)
    for i, d in enumerate(dumps):
        cases += FD.dumped(d.result().lines("D"), "tlc%d" % i)
    de(ck, cases)
    mc.result()
    return ck.finish(TRUST)


def c12(ck):
    """default variant"""
    ck.build()
    defs = [c["id"] for c in V.FULL if c["default"]]
    mc = mc_de(ck, defs, 2 if ck.quick else 3)
    dumps = [mc_de(ck, [c], 2, True) for c in (["int1", "adj1"] if ck.quick else defs)]
    cases = FD.defaults(ck.seed, 3 if ck.quick else 20)
    cases += FD.random_objs(ck.seed, 500 if ck.quick else 10000, defs)
    for i, d in enumerate(dumps):
        cases += FD.dumped(d.result().lines("D"), "tlc%d" % i)
    de(ck, cases)
    mc.result()
    return ck.finish(TRUST)


def c13(ck):
    """held back input"""
    ck.build()
    mc = ck.model("MCBuf", consts={"Depth": "1" if ck.quick else "2", "Dump": "TRUE"}, workers=4, heap="8g")
    cases = FD.table(ck.seed, not ck.quick)
    cases += FD.random_objs(ck.seed, 1500 if ck.quick else 20000, ["int0", "int1", "adj0", "adj1"], depth=4)
    cases += FD.scale(ck.seed, ["int0", "adj0"] if ck.quick else V.cfgs("int") + V.cfgs("adj"))
    de(ck, cases)
    m = mc.result().lines("D")
    de(ck, FD.wrapped(m, "tlc", 3 if ck.quick else 8, (0,) if ck.quick else (0, 1, 2)), label="-tlc")
    return ck.finish(TRUST)


def c14(ck):
    """registry"""
    ck.build()
    mc = ck.model("Registry", consts={"Tags": '{"a", "b", "c"}' if not ck.quick else '{"a", "b"}', "MaxRegs": "4" if ck.quick else "5"}, workers=4)
    cases = FD.tagged(ck.seed, 2 if ck.quick else 10, FULLIDS + ["big"] + OTHERS)
    de(ck, cases)
    mc.result()
    return ck.finish(TRUST)


def mc_trip(ck, cfgs, length, objs, moves, plain, name):
    return ck.model("MCTrip", consts={"MaxLen": str(length), "ObjCfgs": "{%s}" % ", ".join('"%s"' % c for c in cfgs), "MaxObj": str(objs),
                                      "Dump": "FALSE", "Moves": moves, "Plain": plain}, workers=3, heap="6g", name=name)


def trip(ck, cases, label=""):
    recs = ck.run(cases)
    ls, cs = FR.lines(cases, recs)
    ck.validate("TraceTrip", ls, cs, ["trip", "value", "panic"], label, fill=FR.FILL, known={"K2": "K2"})
    return recs


def c07(ck):
    """round trips through self-describing formats"""
    ck.build("fmts")
    q = ck.quick
    mcs = [mc_trip(ck, ["ext0", "int0", "adj0"], 7 if q else 9, 1, "{0, 1}", "FALSE", "trip1"),
           mc_trip(ck, ["ext0", "int0", "adj7"], 7 if q else 8, 2, "{0, 1}" if q else "{0, 1, 2}", "TRUE", "trip2")]
    dump = dump_ser(ck, "int0", 6 if q else 7)
    cases = FR.zoo(ck.seed, FR.SELF, 2 if q else 20)
    cases += FR.forms(ck.seed, FR.SELF, V.OBJCFGS if not q else ["ext0", "int0", "int2", "adj0", "adj1"], 1, not q)
    cases += FR.deep(ck.seed, FR.SELF, 6000 if q else 60000)
    cases += FR.dumped(dump.result(), ["json", "tree1"] if q else ["json", "jsonv", "cbor", "ron", "tree1"], "tlc")
    cases += FR.scale(ck.seed, FR.SELF, ["int0"] if q else ["ext0", "int0", "int2", "adj0"], **(dict(long=(5000,)) if q else dict(many=(300, 1100))))
    trip(ck, cases)
    for m in mcs:
        m.result()
    return ck.finish(TRUST + ["serde_json, ciborium, ron"])


STRICT_FILL = {"in": [], "out": [], "wrote": [], "asked": [], "ok": False, "end": False}


def c08(ck):
    """round trips through compact formats"""
    ck.build("fmts")
    q = ck.quick
    dumps = [dump_ser(ck, c, 6 if q else 7) for c in ("int0", "ext0", "adj0")]
    cases = FR.zoo(ck.seed, FR.COMPACT, 3 if q else 30)
    cases += FR.forms(ck.seed, FR.COMPACT, V.OBJCFGS if not q else ["ext0", "int0", "int2", "adj0", "adj1"], 1 if q else 2, not q)
    cases += FR.deep(ck.seed, FR.COMPACT, 4000 if q else 40000)
    cases += FR.scale(ck.seed, FR.COMPACT, ["int0", "adj0"] if q else ["ext0", "int0", "int2", "adj0"], **(dict(long=(5000,)) if q else dict(many=(300, 1100))))
    for i, d in enumerate(dumps):
        cases += FR.dumped(d.result(), ["strictc"] if q else ["postcard", "bincode", "strict"], "tlc%d" % i)
    trip(ck, cases)
    cases = FR.strict(ck.seed, 4000 if q else 40000, V.OBJCFGS)
    recs = ck.run(cases)
    ck.validate("TraceStrict", recs, cases, ["request", "rest", "value", "trip", "panic"], fill=STRICT_FILL)
    return ck.finish(TRUST + ["postcard, bincode"])


HR_FILL = {"what": "w", "hr": False, "toks": [], "n": 0, "all": False}


def hr_line(c, r):
    if r["panic"]:
        return dict(r)
    base = {"id": r["id"], "panic": False}
    if r["kind"] == "ser":
        return dict(base, what="w", hr=r["hr"], toks=r["out"], n=sum(t[0] == "hr" for t in r["in"]), all=r["ok"])
    if r["kind"] == "rt":
        ok = r["dir"]["ok"]
        return dict(base, what="r", hr=FR.readable(c["fmt"]), toks=r["obj"]["out"], n=sum(t[0] == "hr" for t in r["obj"]["in"]),
                    all=ok and not FR.moves(c["fmt"]))
    toks = []

    def walk(v):
        toks.append([v["k"], v["v"]])
        for x in v["c"]:
            walk(x)
    if r["ok"]:
        walk(r["v"])
    return dict(base, what="v", hr=r["hr"], toks=toks, n=0, all=False)


def c21(ck):
    """human readability"""
    ck.build("fmts")
    q = ck.quick
    mc = mc_trip(ck, ["int0", "adj0"], 7 if q else 8, 2, "{0, 1}", "FALSE", "trip")
    dump = dump_ser(ck, "int0", 6)
    fmts = FR.SELF + FR.COMPACT
    cases = FS.readability(ck.seed, 1 if q else 4, V.OBJCFGS + ["sero", "serx", "sera", "mintb", "mexts", "madjy"])
    cases += [c for c in FS.dumped(dump.result(), "tlc") if any(t[0] == "hr" for t in c["node"])]
    cases += FR.readability(ck.seed, fmts, 1, ["ext0", "int0", "adj0"] if q else V.OBJCFGS)
    cases += FD.readability(ck.seed, 1 if q else 6, FULLIDS + OTHERS)
    recs = ck.run(cases)
    ck.validate("TraceHr", [hr_line(c, r) for c, r in zip(cases, recs)], cases, ["write", "read", "count", "panic"], fill=HR_FILL)
    trip(ck, [c for c in FR.zoo(ck.seed, fmts, 4 if q else 40) if c["ty"].startswith("ZAddr")])
    mc.result()
    return ck.finish(TRUST + ["serde_json, ciborium, ron, postcard, bincode"])


FAULT_FILL = {"base": [], "out": [], "fault": 0, "fired": False, "ok": False, "err": "", "baseok": False}


def c16(ck):
    """failures"""
    ck.build()
    mcs = [ck.model("MCFault", consts={"MaxLen": "6" if ck.quick else "8", "MaxObj": "1" if ck.quick else "2"}, workers=4, heap="8g"),
           mc_de(ck, ["ext0", "int1", "adj1"], 2 if ck.quick else 3)]
    # writing: the format fails at every call
    base = FS.faulty(ck.seed, 1 if ck.quick else 6)
    recs = ck.run(base)
    cases, bases = [], []
    for c, r in zip(base, recs):
        if r["panic"]:
            ck.violation(c["id"], "panic", c, r)
            continue
        n = len(r["out"])
        step = 1 if n <= 40 or not ck.quick else n // 40 + 1
        for k in sorted(set(list(range(1, n + 1, step)) + [max(1, n - 1), n])):
            cases.append(dict(c, id="%s@%d" % (c["id"], k), fault=k))
            bases.append(r)
    fails = FS.failing(ck.seed, base, 2 if ck.quick else 6)
    recs2 = ck.run(cases + [c for c, _ in fails])
    byid = {r["id"]: r for r in recs}
    bases += [byid[b] for _, b in fails]
    cases += [c for c, _ in fails]
    # a failing field under the tag key may be reported as a mismatch
    lines = [dict(r, base=b["out"], baseok=b["ok"] and not r["id"].startswith("qo")) for r, b in zip(recs2, bases)]
    ck.validate("TraceFault", lines, cases, ["prefix", "after", "result", "message", "panic"], fill=FAULT_FILL)
    # reading: the format fails at every read, or the implementation does
    base = FD.faulty(ck.seed, 500 if ck.quick else 6000)
    recs = ck.run(base)
    cases = []
    for c, r in zip(base, recs):
        if r["panic"]:
            ck.violation(c["id"], "panic", c, r)
            continue
        for k in range(1, r["reads"] + 1):
            cases.append(dict(c, id="%s@%d" % (c["id"], k), fault=k))
    cases += FD.random_objs(ck.seed + 16, 3000 if ck.quick else 30000, FULLIDS + OTHERS, pre="x", fails=.4)
    de(ck, cases, ["swallowed", "accepted", "panic"])
    for m in mcs:
        m.result()
    return ck.finish(TRUST)


def c15(ck):
    """first use by many threads at once"""
    ck.build()
    if ck.quick:
        mcs = [ck.model("MCRaces", consts={"Tags": '{"a"}', "Threads": "{t1, t2}", "MaxUses": "2"}, workers=3),
               ck.model("MCRaces", consts={"Tags": '{"a"}', "Threads": "{t1, t2, t3}", "MaxUses": "1"}, workers=3, name="MCRaces3")]
    else:
        mcs = [ck.model("MCRaces", consts={"MaxUses": "2"}, workers=4),
               ck.model("MCRaces", consts={"Threads": "{t1, t2, t3}", "MaxUses": "1"}, workers=4, name="MCRaces3")]
    cases, recs = FC.run_races(ck, ck.seed, 60 if ck.quick else 600)
    ck.validate("TraceDe", recs, cases, [f for f in ALL_DE], fill=DE_FILL, known={"K2": "K2"})
    if not ck.quick:
        cases, recs = FC.run_races(ck, ck.seed + 15, 150, threads=24)
        ck.validate("TraceDe", recs, cases, ALL_DE, "many", fill=DE_FILL, known={"K2": "K2"})
    for m in mcs:
        m.result()
    return ck.finish(TRUST)


def c23(ck):
    """outcomes do not depend on history"""
    ck.build()
    mc = ck.model("MCRaces", consts={"Tags": '{"a"}', "Threads": "{t1}", "MaxUses": "3" if ck.quick else "4"}, workers=3)
    q = ck.quick
    base = FS.faulty(ck.seed, 1)
    sers = base + [c for c, _ in FS.failing(ck.seed, base, 1)] + FS.deep(ck.seed + 23, 300, 4, FULLIDS, objs=True, pre="p")
    des = FD.random_objs(ck.seed + 23, 1500, FULLIDS + OTHERS, match=.7) + FD.faulty(ck.seed, 300) + FD.nest(ck.seed, 300)
    des += FD.random_objs(ck.seed + 24, 500, FULLIDS + OTHERS, pre="x", fails=.4) + FD.tagged(ck.seed, 1, FULLIDS[:4] + ["big"])
    ops = FC.operations(ck.seed, 600 if q else 4000, sers, des)
    alone = FC.alone(ck, ops)
    byop = {r["id"]: FC.outcome(r) for r in alone}
    # what they do alone is what they should do
    for kind, module, fill in (("de", "TraceDe", DE_FILL), ("ser", "TraceSer", SER_FILL)):
        sel = [(c, r) for c, r in zip(ops, alone) if c["kind"] == kind and not c.get("boom") and (kind == "de" or not c.get("fault"))]
        ck.validate(module, [r for _, r in sel], [c for c, _ in sel], ["panic", "value", "lost", "accepted", "shape", "known", "protocol", "result"], fill=fill,
                    known={"K1": "K1", "K2": "K2"})
    hists = [FC.history(ck.seed, k, ops, 4000 if q else 20000) for k in range(8 if q else 24)]
    recs = [r for l in ck.pool.map(lambda kh: ck._slice(ck.driver, "h%d" % kh[0], kh[1]), enumerate(hists)) for r in l]
    cases = [c for h in hists for c in h]
    lines = [{"id": r["id"], "panic": False, "op": c["op"], "got": FC.outcome(r), "alone": byop[c["op"]]} for c, r in zip(cases, recs)]
    ck.validate("TraceHist", lines, cases, ["outcome", "again"], ordered=True)
    mc.result()
    return ck.finish(TRUST)


def c17(ck):
    """totality"""
    ck.build("fmts")
    mc = ck.model("MCTot", consts={"Len2": "3" if ck.quick else "5", "TotCfgs": "{%s}" % ", ".join('"%s"' % c for c in FULLIDS), "Dump": "FALSE"},
                  workers=6, heap="8g")
    dumps = [ck.model("MCTot", consts={"Len2": "2", "TotCfgs": '{"%s"}' % c, "Dump": "TRUE"}, workers=2, name="MCTot-dump-" + c)
             for c in (["ext0", "int1", "adj1", "adj4"] if ck.quick else FULLIDS)]
    cases = []
    for i, d in enumerate(dumps):
        cases += FD.dumped(d.result().lines("D"), "tlc%d" % i)
    cases += FD.random_objs(ck.seed + 170, 4000 if ck.quick else 60000, FULLIDS + OTHERS, pre="w", match=.4)
    cases += FD.scale(ck.seed, ["int1", "adj1", "ext0"] if ck.quick else FULLIDS)
    cases += FD.bare(ck.seed, FULLIDS + ["big"] + OTHERS) + FD.oddtags(ck.seed, 1 if ck.quick else 3, FULLIDS) + FD.tagged(ck.seed, 1, FULLIDS + ["big"])
    de(ck, cases, ["accepted", "panic"])
    # writing never panics either
    cases = FS.deep(ck.seed + 171, 1500 if ck.quick else 20000, 6, FULLIDS, objs=True, pre="p")
    ck.validate("TraceSer", ck.run(cases), cases, ["panic"], "writing", fill=SER_FILL, known={"K1": "K1"})
    # encodings cut, changed, made up, or of something else
    base = FT.bases(ck.seed, 80 if ck.quick else 1200)
    recs = ck.run(base)
    cases = FT.spoiled(ck.seed, base, recs, 25) + FT.texts(ck.seed, 5000 if ck.quick else 60000)
    recs = ck.run(cases)
    ck.validate("TraceTot", [FT.line(c, r) for c, r in zip(cases, recs)], cases, ["malformed", "cut", "form", "panic"], "spoiled", fill=FT.FILL)
    mc.result()
    return ck.finish(TRUST)


def verdicts(ck, cases, mods, libs, head, what, edition="2021", name="c"):
    """cases that have to compile and cases that must not"""
    res = FX.compiles(ck, libs, head, mods, edition, name)
    lines = [{"id": i, "panic": False, "decl": {k: v for k, v in c.items() if k not in ("ok", "cfg")}, "compiles": not res[i], "errors": [m[:200] for m in res[i]][:2]}
             for (i, _), c in zip(mods, cases)]
    ck.validate("TraceDecl", lines, [dict(c, id=i, text=t) for (i, t), c in zip(mods, cases)], ["rejected", "accepted"], "-" + what)


def programs(ck, libs, decls, label, rounds, edition="2021", head=FX.RUNHEAD):
    """runs the declarations and looks at what they mean"""
    p = FX.Program(ck, libs, decls, label, edition=edition, head=head)
    for i, errs in p.failed.items():
        ck.violation(i, "does not compile", {"text": p.by[i].text()}, {"errors": errs[:3]})
    spec = FX.spec_with(ck, [d.row() for d in decls], "spec-" + label)
    cases = FX.probes(ck.seed, [d for d in decls if d.id in p.part], rounds)
    for c in cases:
        if c["kind"] == "de":
            c["lax"] = zlib.crc32(c["id"].encode()) % 2 == 1 and "mtake" not in str(c["sch"])
    cases, recs = p.run(cases)
    for kind, module, fill, care, known in (("ser", "TraceSer", SER_FILL, ["shape", "known", "size", "protocol", "result", "panic"], {"K1": "K1"}),
                                            ("de", "TraceDe", DE_FILL, ALL_DE, {"K2": "K2"})):
        sel = [(c, r) for c, r in zip(cases, recs) if c["kind"] == kind]
        if sel:
            ck.validate(module, [r for _, r in sel], [c for c, _ in sel], care, "-" + label, fill=fill, known=known, spec=spec)


def c18(ck):
    """attribute arguments"""
    libs = ck.pool.submit(FX.build_libs, ck)
    m = ck.model("MCArgs", consts={"MaxLen": "3" if ck.quick else "4", "MaxArgs": "4" if ck.quick else "5",
                                   "Second": "FALSE" if ck.quick else "TRUE", "Dump": "TRUE"}, workers=4, heap="8g")
    cases = FX.unique([FX.json.loads(l) for l in m.result().lines("D")], "kind", "ts")
    libs = libs.result()
    modes = ("serde", "serialize", "deserialize")
    mods = [("c%d" % i, FX.arg_module("c%d" % i, c, modes[i % 7 if i % 7 < 3 else 0])) for i, c in enumerate(cases)]
    verdicts(ck, cases, mods, libs, FX.HEAD, "args")
    programs(ck, libs, FX.arg_decls(cases), "args", 1 if ck.quick else 8)
    return ck.finish(TRUST)


def c19(ck):
    """markers"""
    libs = ck.pool.submit(FX.build_libs, ck)
    ck.build()
    m = ck.model("Markers", consts={"MaxSup": "3" if ck.quick else "4", "Dump": "TRUE"}, workers=4)
    cases = FX.unique([FX.json.loads(l) for l in m.result().lines("D")], "mode", "sup", "rep", "gen")
    libs = libs.result()
    lines, texts, failed = FX.markers(ck, libs, cases)
    for i, errs in failed.items():
        ck.violation(i, "does not compile", {"text": texts[i]}, {"errors": errs[:3]})
    ck.validate("TraceMark", lines, [{"id": l["id"], "text": texts[l["id"]]} for l in lines], ["ser", "de", "incomplete"])
    ds = FX.mark_decls(cases)
    programs(ck, libs, ds if not ck.quick else ds[::max(1, len(ds) // 60)], "markers", 1 if ck.quick else 3)
    # the many implementations of the library's own traits
    ms = V.marker_cfgs("ext") + V.marker_cfgs("int") + V.marker_cfgs("adj")
    cases, plain = [], {}
    for cfg in ms:
        for mk in ("", "s", "y", "b"):
            g = V.Gen("mk%d/%s" % (ck.seed, cfg))
            for i, v in enumerate(g.catalogue(2 if ck.quick else 3)):
                cases.append(FS.case("v%s%s-%d" % (cfg, mk, i), V.obj(cfg, g.pick(V.tags(cfg, dups=True)), v), hr=i % 2 == 0, mk=mk))
                plain[cases[-1]["id"]] = "v%s-%d" % (cfg, i)
    recs = ser(ck, cases, ["shape", "known", "size", "protocol", "result", "panic"])
    same(ck, cases, recs, plain, "-written")
    cases, plain = [], {}
    for cfg in ms:
        for mk in FX.MKSUP:
            if set(FX.MKSUP[mk]) <= set(V.BYID[cfg]["sup"].replace("+", " ").split()):
                l = FD.random_objs(ck.seed, 60 if ck.quick else 1500, [cfg], pre="u%s-" % cfg) + FD.tagged(ck.seed, 1, [cfg])
                for c in l:
                    plain[mk + c["id"]] = c["id"]
                cases += [dict(c, mk=mk, id=mk + c["id"], of=c["id"]) for c in l]
    recs = de(ck, cases)
    same(ck, cases, recs, plain, "-read")
    return ck.finish(TRUST)


def same(ck, cases, recs, plain, label):
    """each recording against the one of its counterpart"""
    by = {r["id"]: FC.outcome(r) for r in recs}
    ks = [(c, r) for c, r in zip(cases, recs) if plain[c["id"]] != c["id"]]
    ck.validate("TraceSame", [{"id": r["id"], "panic": False, "got": by[r["id"]], "plain": by[plain[r["id"]]]} for _, r in ks], [c for c, _ in ks],
                ["calls", "outcome"], label)


def c20(ck):
    """names"""
    libs = ck.pool.submit(FX.build_libs, ck)
    m = ck.model("Names", consts={"Depth": "1" if ck.quick else "2", "AllKeys": "FALSE" if ck.quick else "TRUE", "Dump": "TRUE"}, workers=4)
    lines = FX.unique([FX.json.loads(l) for l in m.result().lines("D")], "what", "x")
    programs(ck, libs.result(), FX.name_decls(ck.seed, lines, 120 if ck.quick else 1600), "names", 1, head=FX.NAMEHEAD)
    return ck.finish(TRUST)


def c24(ck):
    """forms of declarations"""
    libs = ck.pool.submit(FX.build_libs, ck)
    # all values of all features together two at a time, and some of three at a time
    ms = [ck.model("MCForms", consts={"Differ": "2", "Dump": "TRUE"}, workers=4)]
    if not ck.quick:
        ms.append(ck.model("MCForms", consts={"Differ": "3", "Dump": "TRUE"}, workers=4, heap="8g"))
    cases = FX.unique([FX.json.loads(l) for l in ms[0].result().lines("D")], "d")
    if not ck.quick:
        more = FX.unique([FX.json.loads(l) for l in ms[1].result().lines("D")], "d")
        r = V.random.Random("c24-%d" % ck.seed)
        cases = FX.unique(cases + r.sample(more, min(len(more), 45000)), "d")
    libs = libs.result()
    for ed in ("2018", "2021", "2024"):
        l = [c for c in cases if c["d"]["edition"] == ed]
        forms = [dict(kind="form", ok=not c["why"], **c["d"]) for c in l]
        mods = [("f%d" % i, FX.form_module("f%d" % i, c["d"])) for i, c in enumerate(l)]
        verdicts(ck, forms, mods, libs, FX.FORMHEAD, "forms" + ed, ed, "f" + ed)
    for ed in ("2018", "2021", "2024"):
        ds = [d for e, d in FX.form_decls(ck.seed, cases, 90 if ck.quick else 1500) if e == ed]
        programs(ck, libs, ds, "forms" + ed, 1 if ck.quick else 2, ed, FX.FORMRUNHEAD)
    return ck.finish(TRUST)


def c22(ck):
    """nesting"""
    ck.build()
    cases = FD.nest(ck.seed, 4000 if ck.quick else 40000)
    cases += FD.nest(ck.seed + 1, 500 if ck.quick else 6000, 5, "m")
    # long chains of objects
    none = dict(deep=(), many=(), long=())
    cases += FD.scale(ck.seed + 22, V.OBJCFGS, **none)
    for k in range(0 if ck.quick else 8):
        cases += FD.scale(ck.seed + 100 + k, V.OBJCFGS, pre="zz%d" % k, **none)
    sers = FS.deep(ck.seed + 22, 800 if ck.quick else 12000, 6, V.OBJCFGS, objs=True) + FS.scale(ck.seed, V.OBJCFGS, **none)
    ser(ck, sers, ["shape", "known", "protocol", "result", "panic"])
    de(ck, cases)
    return ck.finish(TRUST)


DE = ("TLA+ walk over the entries of the input (DeMachine), model-checked with TLC against what the input means as a whole (Des); "
      "recorded deserializations of the real code checked entry by entry against the walk by trace validation (TraceDe)")
DEN = ("Exhaustive for the specification over all entry sequences over a small alphabet x 20 kinds of implementation; every recorded "
       "deserialization (documents enumerated by TLC and generated ones) must have exactly the outcome, value and error the walk "
       "arrives at. Trusts the reference format, the driver, serde and erased-serde.")
TECH = {p: (DE, DEN) for p in ("C09", "C10", "C11", "C12", "C22")}
TECH["C13"] = ("TLA+ relation of requests to items (Des), model-checked with TLC for direct = held back (MCBuf); all pairs printed by TLC "
               "and a table of 60 requests x 70 items replayed into the real code and checked by trace validation (TraceDe)", DEN)
TECH["C14"] = ("TLA+ specification of the registry (Registry) model-checked with TLC over all registration orders; recorded lookups of "
               "every tag in every trait of a program of two crates checked by trace validation (TraceDe)", DEN)

TECH["C16"] = ("TLA+ serialization machine writing to a format that may fail at any call, model-checked with TLC beside its undisturbed "
               "run (MCFault); pairs of recorded runs, disturbed at every call and undisturbed, checked call by call (TraceFault); "
               "recorded deserializations failing at every read checked against the walk (TraceDe)", DEN)

TRIP = ("Every recorded trip of a trait object whose concrete value survives the same format on its own must bring back the same "
        "implementation and value, token by token; entries and fields of its own under the tag key are excluded (see the statement).")
TECH["C17"] = ("TLA+ specification of the outer form an input must have (Shape), model-checked with TLC to follow from the deserialization "
                "relation for every outer kind of input and every kind of request (MCTot, in both directions); every input TLC printed, made up "
                "inputs, and encodings cut, lengthened, changed, exchanged and made up (JSON, CBOR, RON, postcard, bincode) are run through "
                "typetag and the recorded outcomes validated by TLC (TraceDe, TraceTot)",
                "bounds as printed; the inner form of spoiled encodings is left to the format and the implementation")
TECH["C07"] = ("TLA+ specifications of both directions composed (MCTrip: what the serialization machine puts out is read back by the "
               "deserialization specification), model-checked with TLC; recorded round trips through JSON, CBOR, RON and reference formats "
               "that move the entries of maps, values printed by TLC and generated ones, checked by trace validation (TraceTrip)", TRIP)
TECH["C08"] = ("TLA+ walk of what is asked for beside what was written (TraceStrict), run over recorded reads from a format that records no types; "
               "recorded round trips through postcard, bincode and that format, values printed by TLC from the serialization machine (MCSer) "
               "and generated ones, checked by trace validation (TraceTrip)", TRIP)

TECH["C21"] = ("TLA+ specifications of both directions composed with components that look at the readability (MCTrip), model-checked with TLC; "
               "recorded writes, reads and trips of such components in every position checked answer by answer against the rule (TraceHr), "
               "and trips of address types (TraceTrip)",
               "Every recorded answer in every position of every kind of value, in 13 formats and both readabilities of the reference "
               "formats, must be the format's own.")

TECH["C15"] = ("TLA+ specification of threads looking names up in a registry built on first use, every step of the lock-free initialisation apart "
               "(Races), model-checked with TLC over all interleavings; racing first, later and nested uses by 8 threads of programs whose "
               "registries take long to build are recorded and each outcome validated by TLC (TraceDe) against what it is alone",
               "All interleavings in the model; in the real code the interleavings that happen in many processes, spread by pauses of varied "
               "length. Schedules cannot be forced without changing once_cell, which is not part of the repository.")
TECH["C23"] = ("TLA+ specification of the state that outlives an operation (Races, Registry: the registries, never changed once built), model-checked "
               "with TLC; recorded histories of operations of all kinds, succeeding, failing and panicking ones, on four threads, checked by "
               "trace validation (TraceHist) against each operation's outcome alone in a fresh process, itself validated by TraceDe and TraceSer",
               "Histories are sampled, with single operations repeated hundreds of times.")

DECL = ("Every list, declaration or name up to the bound is given to the real compiler with the attribute macros of the tree, its verdict "
        "checked by TLC; those accepted are run as well. Trusts rustc, the rendering of declarations to Rust text and the driver.")
TECH["C18"] = ("TLA+ automaton over the tokens of attribute arguments beside the documented forms (Args), model-checked with TLC to accept the same "
               "lists and mean the same by them (MCArgs); every list TLC printed is compiled and the verdict validated (TraceDecl), every accepted "
               "one run, its writes and reads validated against the configuration the specification says it means (TraceSer, TraceDe)", DECL)
TECH["C19"] = ("TLA+ specification of which marked trait objects can be written and read (Markers), model-checked with TLC; what the real code "
               "implements for each combination of supertraits, mode and representation, asked of the compiler, validated (TraceMark); the "
               "same values and inputs through every marked form validated (TraceSer, TraceDe)", DECL)
TECH["C20"] = ("TLA+ specification of the name of an implementation (Names: constant expressions evaluated, types spelled), model-checked with TLC; "
               "generated programs with every kind of expression, type and key are compiled and run, their writes and reads validated "
               "(TraceSer, TraceDe)", DECL)
TECH["C24"] = ("TLA+ specification of declarations as records of features and of which are supported (Forms), model-checked with TLC; every "
               "declaration that differs from the plain one in up to two features (thorough: and a sample of those differing in three) is given "
               "to the real compiler and the verdict validated (TraceDecl); supported ones are also run and validated (TraceSer, TraceDe)", DECL)

PROPS = {"C24": c24, "C20": c20, "C18": c18, "C19": c19, "C15": c15, "C23": c23, "C21": c21, "C17": c17, "C07": c07, "C08": c08, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06,
         "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C16": c16, "C22": c22}

if __name__ == "__main__":
    lib.main(PROPS)
