"""Spoiled inputs: encodings cut, changed and made up (C17)."""
import json
import random
import struct
import dgen as G
import vgen as V
import fam_de
from vgen import enc, obj

FMTS = ["json", "cbor", "ron", "postcard", "bincode"]
SPECIAL = [0x00, 0x01, 0x5f, 0x7f, 0x80, 0x9f, 0xbf, 0xff, 0x9b, 0xbb, 0xf6, 0xd9, 0x22, 0x7b, 0x7d, 0x2c, 0x3a, 0x5b]
JSONBITS = [b"null", b"{}", b"[]", b"1", b"-1", b"1e400", b'"A"', b'"dup"', b'"\\ud800"', b'"\\u0041"', b"true", b"{\"A\":1}", b"[\"A\",1]",
            b"99999999999999999999999999", b"0.1", b'""', b'"type"', b'"t"', b'"c"']


def bases(seed, n, fmts=FMTS):
    """values to be encoded"""
    g = V.Gen("tot%s" % seed)
    g.finite = True
    out = []
    for i in range(n):
        g.objs = i % 4 == 0
        cfg = V.OBJCFGS[i % len(V.OBJCFGS)]
        v = obj(cfg, g.pick(V.tags(cfg)), g.compound(2) if g.r.random() < .8 else g.atom())
        for fmt in fmts:
            out.append({"id": "b%d-%s" % (i, fmt), "kind": "enc", "node": V.toks(v), "fmt": fmt, "cfg": cfg})
    return out


EMPTY = {"unit", "ustruct"}


def hollow(v):
    """written as no bytes at all, in compact formats"""
    k = v[0][0]
    return k in EMPTY or k in ("tuple", "tstruct", "struct", "nstruct") and all(hollow(x) for x in v[1])


def endless(v):
    """a sequence of nothings, of which any number can be announced"""
    if v[0][0] == "seq" and any(hollow(x) for x in v[1]):
        return True
    if v[0][0] == "map" and any(hollow(a) and hollow(b) for a, b in zip(v[1][::2], v[1][1::2])):
        return True
    return any(endless(x) for x in v[1])


def spoil(r, b, fmt):
    """one change"""
    b = bytearray(b)
    k = r.randrange(9)
    i = r.randrange(len(b)) if b else 0
    if not b:
        return bytes([r.choice(SPECIAL)])
    if k == 0:
        b[i] ^= 1 << r.randrange(8)
    elif k == 1:
        b[i] = r.choice(SPECIAL)
    elif k == 2:
        del b[i:i + r.choice([1, 1, 2, 5])]
    elif k == 3:
        b[i:i] = bytes(r.choice(SPECIAL) for _ in range(r.choice([1, 1, 2, 8])))
    elif k == 4:
        j = r.randrange(len(b))
        b[i:i] = b[min(i, j):max(i, j)][:40]
    elif k == 5:
        b[i:i + 8] = b"\xff" * 8
    elif k == 6 and fmt in ("json", "ron"):
        # a whole token
        j = i
        while j < len(b) and b[j] not in b",:{}[]()":
            j += 1
        while i > 0 and b[i - 1] not in b",:{}[]()":
            i -= 1
        b[i:j] = r.choice(JSONBITS)
    elif k == 6:
        b[i:i] = b"\x9b" + b"\x7f" + b"\xff" * 7
    elif k == 7:
        b[i] = (b[i] + r.choice([1, 255])) % 256
    else:
        j = r.randrange(len(b))
        b[i], b[j] = b[j], b[i]
    return bytes(b)


def spoiled(seed, base, recs, each, fmts=FMTS):
    out = []
    r = random.Random("sp%s" % seed)
    good = [(c, bytes.fromhex(x["data"])) for c, x in zip(base, recs) if x.get("ok")]
    byfmt = {f: [c for c, _ in good if c["fmt"] == f and not endless(V.tree(c["node"]))] for f in fmts}

    def emit(i, c, data, cut=False, node=None):
        n = node or c
        out.append({"id": "%s~%d" % (c["id"], i), "kind": "tot", "fmt": c["fmt"], "cfg": n["cfg"], "node": n["node"], "data": data.hex(), "cut": cut})
    for c, b in good:
        i = 0
        ks = range(len(b)) if len(b) <= each else sorted(r.sample(range(len(b)), each))
        for k in ks:
            emit(i, c, b[:k], True)
            i += 1
        for extra in (b"x", b + b"", b"\x00", b"}") if b else ():
            emit(i, c, b + extra, True)
            i += 1
        if c["fmt"] in ("postcard", "bincode") and endless(V.tree(c["node"])):
            continue
        for _ in range(each):
            x = b
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                x = spoil(r, x, c["fmt"])
            if x != b:
                emit(i, c, x)
                i += 1
        # read as something else
        for _ in range(max(1, each // 10)):
            emit(i, c, b, False, r.choice(byfmt[c["fmt"]]))
            i += 1
    for fmt in fmts:
        for k in range(each * 10):
            c = r.choice(byfmt[fmt])
            data = bytes(r.choice(SPECIAL) if r.random() < .5 else r.randrange(256) for _ in range(r.choice([0, 1, 2, 4, 9, 20])))
            emit("r%d-%s" % (k, fmt), dict(c), data) if False else out.append(
                {"id": "j%d-%s" % (k, fmt), "kind": "tot", "fmt": fmt, "cfg": c["cfg"], "node": c["node"], "data": data.hex(), "cut": False})
    return out


# ------------------------------------------------ documents as JSON and CBOR
def head(m, n, r=None, huge=0.0):
    if r and r.random() < huge:
        return bytes([m << 5 | 27]) + struct.pack(">Q", r.choice([2**63, 2**64 - 1, 2**60, 2**40, n + 1]))
    if n < 24:
        return bytes([m << 5 | n])
    for c, f, lim in ((24, ">B", 1 << 8), (25, ">H", 1 << 16), (26, ">I", 1 << 32)):
        if n < lim:
            return bytes([m << 5 | c]) + struct.pack(f, n)
    return bytes([m << 5 | 27]) + struct.pack(">Q", n)


def cbor(d, r, huge):
    k, c = d["k"], d["c"]
    if k in G.INTS:
        n = int(d["v"])
        n = max(-2**64, min(2**64 - 1, n))
        return head(0, n) if n >= 0 else head(1, -1 - n)
    if k in ("f32", "f64"):
        return b"\xfb" + struct.pack(">d", float(d["v"]))
    if k == "bool":
        return b"\xf5" if d["v"] == "true" else b"\xf4"
    if k in ("str", "strb", "stro", "char"):
        b = G.gen_dec(d["v"]).encode()
        return head(3, len(b), r, huge / 4) + b
    if k in ("bytes", "bytesb", "byteso"):
        b = bytes.fromhex(d["v"])
        return head(2, len(b), r, huge / 4) + b
    if k in ("unit", "none"):
        return b"\xf6"
    if k in ("some", "newtype"):
        x = cbor(c[0], r, huge)
        return b"\xc1" + x if r.random() < .02 else x
    if k == "seq":
        if r.random() < .1:
            return b"\x9f" + b"".join(cbor(x, r, huge) for x in c) + b"\xff"
        return head(4, len(c), r, huge) + b"".join(cbor(x, r, huge) for x in c)
    if k in ("map", "enum"):
        return head(5, len(c) // 2, r, huge) + b"".join(cbor(x, r, huge) for x in c)
    return b"\xff"


def js(d, r):
    k, c = d["k"], d["c"]
    if k in G.INTS or k == "bool":
        return d["v"]
    if k in ("f32", "f64"):
        x = float(d["v"])
        return repr(x) if abs(x) < 1e300 else "1e999"
    if k in ("str", "strb", "stro", "char"):
        return json.dumps(G.gen_dec(d["v"]), ensure_ascii=r.random() < .5)
    if k in ("bytes", "bytesb", "byteso"):
        return json.dumps(list(bytes.fromhex(d["v"])))
    if k in ("unit", "none"):
        return "null"
    if k in ("some", "newtype"):
        return js(c[0], r)
    if k == "seq":
        return "[" + ",".join(js(x, r) for x in c) + "]"
    if k in ("map", "enum"):
        ps = []
        for a, b in zip(c[::2], c[1::2]):
            a = js(a, r)
            ps.append((a if a.startswith('"') else json.dumps(a)) + ":" + js(b, r))
        return "{" + ",".join(ps) + "}"
    return "nul"


def texts(seed, n, pre="w"):
    """inputs for requests, some of them unfit, as JSON and CBOR"""
    out = []
    r = random.Random("tx%s" % seed)
    src = fam_de.random_objs(seed, n, [c["id"] for c in V.FULL] + ["deo", "dex", "dea"], pre=pre, match=.9)
    for c in src:
        cfg = G.gen_dec(c["sch"]["v"])
        if cfg in ("deo", "dex", "dea"):
            continue
        for fmt, b in (("json", js(c["doc"], r).encode("utf-8", "replace")), ("cbor", cbor(c["doc"], r, r.choice([0, 0, .15])))):
            for k in range(2):
                if k and b:
                    b = spoil(r, b, fmt)
                out.append({"id": "%s-%s%d" % (c["id"], fmt, k), "kind": "tot", "fmt": fmt, "cfg": cfg, "sch": c["sch"]["c"][0], "data": b.hex(), "cut": False})
    return out


# -------------------------------------------------- the outer form of inputs
NO = {"t": False, "v": ""}


def txt(s):
    return {"t": True, "v": enc(s.encode("utf-8", "replace").decode())}


class Bad(Exception):
    pass


def cb(b, i, depth=0):
    """-> (value, next): ("t", text) | ("m", pairs) | ("s", items) | None"""
    if i >= len(b) or depth > 200:
        raise Bad
    m, a = b[i] >> 5, b[i] & 31
    i += 1
    if a < 24:
        n = a
    elif a < 28:
        w = 1 << (a - 24)
        if i + w > len(b):
            raise Bad
        n = int.from_bytes(b[i:i + w], "big")
        i += w
    elif a == 31 and m in (2, 3, 4, 5):
        n = None
    else:
        raise Bad

    def items(per):
        nonlocal i
        l = []
        while n is None or len(l) < n * per:
            if n is None and i < len(b) and b[i] == 0xff:
                i += 1
                break
            x, i = cb(b, i, depth + 1)
            l.append(x)
        return l
    if m in (0, 1, 7):
        return None, i
    if m == 6:
        return cb(b, i, depth + 1)
    if m in (2, 3):
        if n is None:
            s = b""
            while i < len(b) and b[i] != 0xff:
                j = i
                x, i = cb(b, i, depth + 1)
                if b[j] >> 5 != m or x is None:
                    raise Bad
                s += x[1]
            if i >= len(b):
                raise Bad
            return (("t", s) if m == 3 else ("b", s)), i + 1
        if i + n > len(b):
            raise Bad
        return ("t" if m == 3 else "b", bytes(b[i:i + n])), i + n
    if m == 4:
        return ("s", items(1)), i
    l = items(2)
    return ("m", list(zip(l[::2], l[1::2]))), i


def top_of(fmt, cfg, data):
    """the outer form, or None where it is not looked at"""
    C = V.BYID[cfg]
    if fmt == "json":
        try:
            x = json.loads(data.decode(), object_pairs_hook=lambda p: {"pairs": p}, parse_constant=lambda s: 1 / 0, strict=False)
        except (ValueError, RecursionError, ZeroDivisionError):
            return {"k": "bad", "es": []}
        f = lambda y: txt(y) if isinstance(y, str) else NO
        if isinstance(x, dict):
            return {"k": "map", "es": [[txt(k), f(v)] for k, v in x["pairs"]]}
        if isinstance(x, list):
            return {"k": "seq", "es": [[f(y)] for y in x]}
        return {"k": "other", "es": []}
    if fmt == "cbor":
        try:
            x, _ = cb(data, 0)
            f = lambda y: txt(y[1].decode()) if y and y[0] == "t" else NO
            if x and x[0] == "m":
                return {"k": "map", "es": [[f(k), f(v)] for k, v in x[1]]}
            if x and x[0] == "s":
                return {"k": "seq", "es": [[f(y)] for y in x[1]]}
            return {"k": "other", "es": []}
        except (Bad, UnicodeDecodeError):
            return {"k": "bad", "es": []}
    if fmt in ("postcard", "bincode"):
        i = 0

        def num():
            nonlocal i
            if fmt == "bincode":
                if i + 8 > len(data):
                    raise Bad
                i += 8
                return int.from_bytes(data[i - 8:i], "little")
            n = s = 0
            while True:
                if i >= len(data) or s > 63:
                    raise Bad
                n |= (data[i] & 127) << s
                i += 1
                if data[i - 1] < 128:
                    return n
                s += 7

        def text():
            nonlocal i
            n = num()
            if i + n > len(data):
                raise Bad
            i += n
            return txt(data[i - n:i].decode())
        try:
            if C["rep"] == "adj":
                return {"k": "seq", "es": [[text()], [NO]]}
            n = num()
            if C["rep"] == "ext":
                return {"k": "map", "es": [[text(), NO]] * min(n, 3)} if n else {"k": "map", "es": []}
            return {"k": "map", "es": [[text(), text()]] if n else []}
        except (Bad, UnicodeDecodeError):
            return {"k": "bad", "es": []}
    return None


FILL = {"fmt": "", "cfg": "ext0", "wf": False, "ok": False, "cut": False, "judged": False, "top": {"k": "", "es": []}}


def line(c, r):
    if r["panic"]:
        return dict(r)
    l = {"id": r["id"], "panic": False, "fmt": c["fmt"], "cfg": c["cfg"], "wf": r["wf"] or c["fmt"] == "cbor", "ok": r["ok"], "cut": c["cut"], "judged": False,
         "top": {"k": "", "es": []}}
    if r["ok"]:
        t = top_of(c["fmt"], c["cfg"], bytes.fromhex(c["data"]))
        if t and not (c["fmt"] == "cbor" and t["k"] == "bad"):
            l["judged"], l["top"] = True, t
    return l
