"""Plumbing shared by all checks: building the driver, running cases,
running TLC, collecting verdicts, evidence."""
import concurrent.futures as cf
import heapq
import json
import os
import re
import shutil
import subprocess
import threading
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 8


class ToolError(Exception):
    pass


class BuildError(Exception):
    """The driver does not compile against /repo."""


class TlcResult:
    def __init__(self, out):
        self.out = out
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out

    def lines(self, prefix):
        r = []
        for l in self.out.splitlines():
            l = l.strip()
            if l.startswith('"') and l.endswith('"'):
                l = l[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            if l.startswith(prefix + " "):
                r.append(l[len(prefix) + 1:])
        return r


BATCH = 30000   # traces TLC looks at in one run


def dealt(lines, chunks):
    """the lines in an order that makes the chunks TLC walks through alike"""
    n = len(lines)
    room = [k * n // chunks - (k - 1) * n // chunks for k in range(1, chunks + 1)]
    piles = [[] for _ in room]
    heap = [(0, k) for k in range(chunks)]
    for l in sorted(lines, key=len, reverse=True):
        w, k = heapq.heappop(heap)
        piles[k].append(l)
        if len(piles[k]) < room[k]:
            heapq.heappush(heap, (w + len(l), k))
    return [l for p in piles for l in p]


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.models = []
        self.samples = []
        self.notes = []
        self.bad = []      # (case id, flags, case, recording)
        self.known = {}    # finding -> example
        self.counts = {}
        self.pool = cf.ThreadPoolExecutor(16)
        self.findings = known_findings()
        self._build = None
        self.lock, self.used = threading.Lock(), {}

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, features=""):
        """starts the build; `driver` waits for it"""
        def go():
            cmd = ["cargo", "build", "--offline", "--quiet"]
            if features:
                cmd += ["--features", features]
            env = dict(os.environ, RUSTFLAGS="-Awarnings")
            p = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True)
            if p.returncode:
                q = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "typetag"], cwd=HARNESS,
                                   env=env, capture_output=True, text=True)
                if q.returncode == 0:
                    raise BuildError(p.stderr[-4000:])
                raise ToolError("build of /repo failed:\n" + p.stderr[-4000:])
            exe = os.path.join(self.work, "vdrv")
            shutil.copy2(os.path.join(HARNESS, "target", "debug", "vdrv"), exe)
            self.log("driver built")
            return exe
        self._build = self.pool.submit(go)

    @property
    def driver(self):
        return self._build.result()

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, config=None, workers=4, env=None, timeout=800, consts=None, simulate=None, name=None, heap="3g", spec=SPEC):
        """runs TLC; consts override the constants of the configuration"""
        name = name or module
        with self.lock:
            # every run in a place of its own
            k = self.used[name] = self.used.get(name, 0) + 1
        d = os.path.join(self.work, "tlc-" + name + ("-%d" % k if k > 1 else ""))
        os.makedirs(d, exist_ok=True)
        cfg = open(os.path.join(spec, (config or module) + ".cfg")).read()
        for k, v in (consts or {}).items():
            cfg, n = re.subn(r"^(\s*%s\s*=).*$" % re.escape(k), lambda m: m.group(1) + " " + v, cfg, flags=re.M)
            if n != 1:
                raise ToolError("constant %s of %s" % (k, module))
        path = os.path.join(d, name + ".cfg")
        open(path, "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss32m", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE", "-config", path]
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd.append(os.path.join(spec, module + ".tla"))
        try:
            p = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), capture_output=True, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC %s timed out" % name)
        out = p.stdout + p.stderr
        open(os.path.join(d, "out.txt"), "w").write(out)
        r = TlcResult(out)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return r

    def model(self, module, config=None, **kw):
        """model-checks the specification itself; returns a future"""
        def go():
            r = self.tlc(module, config, **kw)
            if not r.ok:
                raise ToolError("specification %s does not check:\n%s" % (config or module, r.out[-3000:]))
            self.states += r.states
            self.transitions += r.transitions
            self.models.append({"module": module, "config": config or module, "consts": kw.get("consts") or {},
                                "states": r.states, "transitions": r.transitions})
            self.log("model %s: %d states" % (kw.get("name") or config or module, r.states))
            return r
        return self.pool.submit(go)

    # ------------------------------------------------------------------- runs
    def run(self, cases, procs=CORES):
        """runs the cases in the driver; one recording per case, in order"""
        exe = self.driver
        for i, c in enumerate(cases):
            c["id"] = c.get("id") or "%s-%d" % (c["kind"], i)
        n = max(1, min(procs, (len(cases) + 199) // 200))
        parts = [cases[k::n] for k in range(n)]
        outs = list(self.pool.map(lambda a: self._slice(exe, a[0], a[1]), enumerate(parts)))
        recs = [None] * len(cases)
        for k, o in enumerate(outs):
            recs[k::n] = o
        return recs

    def _slice(self, exe, k, cases):
        recs, todo = [], cases
        base = os.path.join(self.work, "run%s-%d" % (k, time.monotonic_ns()))
        deaths = 0
        while todo:
            fi, fo = base + ".in", base + ".out"
            with open(fi, "w") as f:
                for c in todo:
                    f.write(json.dumps(c) + "\n")
            if os.path.exists(fo):
                os.remove(fo)
            try:
                p = subprocess.run([exe, "run", fi, fo], capture_output=True, text=True, timeout=700)
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                rc, err = 77, "timeout"
            got = []
            if os.path.exists(fo):
                for l in open(fo):
                    if l.endswith("\n"):
                        got.append(json.loads(l))
            recs += got
            todo = todo[len(got):]
            if todo:
                if rc == 2:
                    raise ToolError("driver: " + err)
                deaths += 1
                recs.append({"id": todo[0]["id"], "kind": todo[0]["kind"], "panic": True,
                             "msg": "hang" if rc == 77 else "process died: %s" % rc})
                todo = todo[1:]
                if deaths > 20:
                    for c in todo:
                        recs.append({"id": c["id"], "kind": c["kind"], "panic": True, "msg": "not run: too many deaths"})
                    todo = []
            elif rc != 0:
                raise ToolError("driver ended with %s: %s" % (rc, err[-500:]))
            os.remove(fi)
            if os.path.exists(fo):
                os.remove(fo)
        return recs

    # ------------------------------------------------------------- validation
    def validate(self, module, recs, cases, care, label="", fill=None, env=None, known=None, spec=SPEC, ordered=False):
        """trace validation: recs against the trace specification; flags in
        `care` count for this property; known: flag -> finding id"""
        if not recs:
            raise ToolError("nothing to validate")
        by = {}
        for c, r in zip(cases, recs):
            if r["id"] in by:
                raise ToolError("duplicate id " + r["id"])
            by[r["id"]] = (c, r)
        out, states = [], 0
        for b, at in enumerate(range(0, len(recs), BATCH)):
            part = recs[at:at + BATCH]
            path = os.path.join(self.work, "trace-%s%s.ndjson" % (module, label))
            lines = [json.dumps(dict(fill, **r) if r.get("panic") and fill else r) for r in part]
            chunks = max(1, min(64, len(part) // 20))
            if not ordered:
                chunks = max(1, min(64, len(part) // 20 + sum(map(len, lines)) // 100000, len(part)))
                lines = dealt(lines, chunks)
            with open(path, "w") as f:
                f.write("".join(l + "\n" for l in lines))
            r = self.tlc(module, workers=CORES, env=dict(env or {}, TRACE=path, CHUNKS=str(chunks)), name=module + label, heap="8g", spec=spec)
            done = sum(int(x.split()[0]) for x in r.lines("DONE"))
            if not r.ok or done != len(part):
                raise ToolError("trace validation %s incomplete (%d of %d):\n%s" % (module, done, len(part), r.out[-3000:]))
            self.states += r.states
            self.transitions += r.transitions
            states += r.states
            out += r.lines("BAD")
        self.traces += len(recs)
        nbad = 0
        for l in out:
            cid, fl = l.split(" ", 1)
            flags = set(re.findall(r'"([^"]*)"', fl))
            for k, fid in (known or {}).items():
                if k in flags:
                    if (self.prop, fid) in self.findings:
                        self.known.setdefault(fid, cid)
                    else:
                        flags.add("unlisted finding " + fid)
                        if k not in care:
                            flags.discard("unlisted finding " + fid)
                    flags.discard(k)
            hit = flags & (set(care) | {"unlisted finding " + f for f in (known or {}).values()})
            if hit:
                nbad += 1
                self.bad.append((cid, sorted(hit), by[cid][0], by[cid][1]))
        self.counts[module + label] = len(recs)
        self.log("validated %d traces against %s%s: %d nonconforming (%d states)" % (len(recs), module, label, nbad, states))
        for c, x in list(zip(cases, recs))[:: max(1, len(recs) // 2)][:2]:
            self.samples.append({"case": c, "recorded": x})

    def violation(self, cid, why, case, rec):
        self.bad.append((cid, [why] if isinstance(why, str) else why, case, rec))

    # ------------------------------------------------------------------- end
    def finish(self, assumptions=(), extra=None):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": trim(self.samples[:4]) or [{"none": True}], "models": self.models, "cases": self.counts}
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.bad)}
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for fid, ex in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s %s (e.g. case %s)" % (self.prop, fid, self.findings[(self.prop, fid)], ex))
        if not self.bad:
            self.log("held on everything explored")
            self.cleanup()
            return 0
        rep = os.path.join(ROOT, "work", "replay")
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, self.prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed,
                       "nonconforming": [{"id": a, "wrong": b, "case": c, "recorded": d} for a, b, c, d in self.bad[:50]],
                       "count": len(self.bad)}, f, indent=1)
        for a, b, c, d in self.bad[:5]:
            print("  %s: %s  %s" % (a, ", ".join(b), json.dumps(trim(c))[:600]))
            print("     recorded %s" % json.dumps(trim(d))[:800])
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        self.cleanup()
        return 1

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)


def trim(x, n=40):
    if isinstance(x, list):
        return [trim(y, n) for y in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    return x


def known_findings():
    """(property, id) -> text; lines `finding: property=C05 id=K1 text`"""
    r = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m:
                r[(m.group(1), m.group(2))] = m.group(3).strip()
    return r


def main(props):
    if len(sys.argv) < 2 or sys.argv[1] not in props:
        print("usage: check.py PROPERTY [quick|thorough]")
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ck = Check(sys.argv[1], tier)
    rc = 2
    try:
        rc = props[sys.argv[1]](ck)
    except BuildError as e:
        if ck.prop in ("C14", "C18", "C19", "C20", "C24"):
            ck.violation("build", "supported declarations do not compile", {"build": "harness"}, {"stderr": str(e)})
            rc = ck.finish()
        else:
            print("driver does not compile:\n" + str(e))
    except ToolError as e:
        print("ERROR: %s" % e)
    finally:
        sys.stdout.flush()
        ck.pool.shutdown(wait=False, cancel_futures=True)
    os._exit(rc)
