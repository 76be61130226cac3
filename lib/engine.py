"""Shared machinery: building the harness from /repo, running histories against the real library, and deciding them with TLC."""
import json, os, subprocess, sys, time, hashlib, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "gen"))
import zoo
from ops import Gen, NOVAL

BUILD = os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4

class ToolError(Exception): pass
class Violation(Exception):
    def __init__(self, what, **kw): super().__init__(what); self.what, self.info = what, kw

# ------------------------------------------------------------------ harness
class Harness:
    """a build of the harness (and so of /repo's current tree) with some features and extra types"""
    def __init__(self, name="full", features=None, extra_defs=None, extra_types=()):
        self.name, self.features, self.extra_defs, self.extra_types = name, features, extra_defs or {}, list(extra_types)
        self.feats = {"std", "speedy", "serde", "glam", "macaw"} if features is None else set(features)
        if "speedy" in self.feats: self.feats.add("std")
        self.target = os.path.join(BUILD, "t")
        self.table = zoo.Table(extra_types, "glam" in self.feats, "macaw" in self.feats, extra_defs).finish()
    def build(self):
        os.makedirs(BUILD, exist_ok=True)
        extra = os.path.join(BUILD, "extra_%s.rs" % self.name)
        base = set(zoo.Table().order)
        zoo.write_rust(extra, self.extra_defs, self.table, "registry_extra", only=[t for t in self.table.order if t not in base])
        target = self.target
        env = dict(os.environ, MM_EXTRA=extra, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
        env.pop("RUSTC_WRAPPER", None)
        cmd = ["cargo", "build", "--offline", "--quiet"]
        if self.features is not None: cmd += ["--no-default-features", "--features", ",".join(["x-none"] if False else sorted(self.feats))]
        t0 = time.time()
        p = subprocess.run(cmd, cwd=os.path.join(V, "harness"), env=env, capture_output=True, text=True)
        self.build_s = time.time() - t0
        if p.returncode != 0:
            # a library that builds by itself but no longer with its users is a violation, anything else is not ours to judge
            q = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "mirror-mirror"], cwd="/repo", env=dict(env, CARGO_TARGET_DIR=target + "_repo"), capture_output=True, text=True)
            shutil.rmtree(target + "_repo", ignore_errors=True)
            if q.returncode == 0: raise Violation("programs using the library no longer compile", detail=p.stderr[:3000])
            raise ToolError("the library does not build:\n" + p.stderr[-4000:])
        src = os.path.join(target, "debug", "mm-harness")
        self.bin = os.path.join(BUILD, "h_" + self.name)
        shutil.copy2(src, self.bin + ".tmp"); os.replace(self.bin + ".tmp", self.bin)
        f32s = sorted({n["v"] for n in zoo.POOL["f32"]} | {"0.5", "2.25", "-0.0", "1e10", "3e19", "1e20", "0.3"})
        m = subprocess.run([self.bin, "meta", ",".join(f32s)], capture_output=True, text=True)
        if m.returncode != 0: raise Violation("the harness cannot describe its types", detail=m.stderr[-2000:])
        self.meta = json.loads(m.stdout)
        return self
    def write_table(self, path):
        names = self.meta["names"]
        strs = set()
        from ops import NAMES, VARS, ODD, MANY
        for t in self.table.tt.values():
            for o in [t] + t["variants"]:
                for f in o["fields"]: strs.add(f["n"])
            for v in t["variants"]: strs.add(v["n"])
        strs |= set(NAMES) | set(VARS) | set(ODD) | set(MANY) | {'Nope', 'zz', 'V', 'W', 'q', 'c', 'z', 'b'} | {'n%d' % i for i in range(20)}
        z = zoo
        tab = {"tt": self.table.tt, "names": names, "str": {s: list(s.encode()) for s in strs if s}, "dur": self.meta["dur"], "zero": z.ZERO,
               "seven": z.scal("u8", 7), "nine": z.scal("u8", 9), "tag": z.scal("String", "tag"), "std": "std" in self.feats}
        json.dump(tab, open(path, "w"))
    def gen(self, seed, tag): return Gen(self.table, self.meta["durs"], seed, tag)

def run_script(h, ops, out, timeout=120):
    """-> (events, crash) ; crash = None or a description"""
    sp = out + ".script"
    with open(sp, "w") as f:
        for o in ops: f.write(json.dumps(o) + "\n")
    try: p = subprocess.run([h.bin, "run", sp, out], capture_output=True, text=True, timeout=timeout); rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired: rc, err = "timeout", ""
    evs = []
    try:
        for line in open(out):
            try: evs.append(json.loads(line))
            except ValueError: break
    except FileNotFoundError: pass
    crash = None
    if rc != 0 or len(evs) != len(ops): crash = {"rc": rc, "at": len(evs), "stderr": err[-1500:]}
    return evs, crash

def chunks_of(evs, size):
    """split a history at resets"""
    out, cur = [], []
    for e in evs:
        if e["op"]["o"] == "reset" and len(cur) >= size: out.append(cur); cur = []
        cur.append(e)
    if cur: out.append(cur)
    return out

def tlc(cfg, module, env, timeout=600, workers=1, xmx="2g", extra=(), tofile=None):
    md = env.pop("MM_META"); os.makedirs(md, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx, "-Djava.io.tmpdir=" + md, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    try:
        if tofile:
            with open(tofile, "w") as f: p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            return p.returncode, ""
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: raise ToolError("TLC timed out on " + module)
    finally: shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr

def has_q(d): return '"k": "?"' in json.dumps(d)
def validate(table, evs, tmp, label):
    """code -> spec: TLC decides whether the recorded history is one the specification allows.
    -> dict(mismatches=[...], checked, steps)"""
    size = max(60, min(3000, len(evs) // NPROC + 1))
    jobs = []
    for i, c in enumerate(chunks_of(evs, size)):
        f = os.path.join(tmp, "%s_%d.ndjson" % (label, i))
        with open(f, "w") as w:
            for e in c:
                e = dict(e, q=has_q(e["d"])); w.write(json.dumps(e) + "\n")
        jobs.append((f, c))
    res = {"mismatches": [], "checked": 0, "steps": 0}
    def one(job):
        f, c = job
        rc, out = tlc("Trace.cfg", "Trace.tla", {"MM_TABLE": table, "MM_TRACE": f, "MM_META": f + ".md"})
        return f, c, rc, out
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for f, c, rc, out in ex.map(one, jobs):
            ms = [json.loads(json.loads(l[len('"MISMATCH ') - 10:]) [9:]) if l.startswith('"MISMATCH ') else None for l in out.split("\n")]
            ms = [m for m in ms if m]
            chk = [l for l in out.split("\n") if l.startswith('"CHECKED ')]
            if chk:
                _, a, b, n = chk[0].strip('"').split(" ")
                res["checked"] += int(a); res["steps"] += int(b)
                by = {e["i"]: e for e in c}
                for m in ms: res["mismatches"].append({"event": by[m["i"]], "exp": m["exp"], "regs": m["regs"], "outok": m["outok"]})
                if not ms and rc != 0: raise ToolError("TLC rejected without a reason: " + out[-3000:])
            else:
                # the specification has no meaning for what was observed (or the tool failed)
                if "The error occurred when TLC was evaluating" in out or "The exception was" in out or "Attempted to" in out or "evaluating" in out:
                    st = [l for l in out.split("\n") if l.startswith("State ") or l.startswith("/\\ l =")]
                    k = int(st[-1].split("=")[1]) if st and "l =" in st[-1] else 1
                    res["mismatches"].append({"event": c[min(k, len(c)) - 1], "exp": "no meaning", "regs": [], "outok": False, "tlc": out[-2500:]})
                else: raise ToolError("TLC failed on %s (rc %s): %s" % (f, rc, out[-3000:]))
    return res

def history_of(evs, i):
    """the operations since the last reset, up to and including event i"""
    j = i
    while j > 0 and evs[j]["op"]["o"] != "reset": j -= 1
    return evs[j:i + 1]
