"""What each property's check consists of."""
import json, os, subprocess, concurrent.futures as cf
import engine as en
from engine import Harness, Violation, ToolError, V, BUILD, NPROC

# histories per property: (quick, thorough)
SIZE = {"C01": 700, "C02": 700, "C03": 900, "C04": 800, "C05": 800, "C06": 700, "C07": 600, "C08": 600, "C09": 700, "C10": 700, "C11": 600, "C12": 480, "C14": 480, "C15": 1000,
        "C16": 700, "C17": 700, "C18": 400, "C19": 1500, "C20": 700, "C21": 1000, "C22": 2000, "C23": 900}
THOROUGH = 8

class Ctx:
    def __init__(s, pid, tier, seed, tmp):
        s.pid, s.tier, s.seed, s.tmp = pid, tier, seed, tmp
        s.viol, s.known = [], []
        s.states = s.transitions = s.histories = s.replayed = s.events = 0
        s.samples = []; s.extra = {}
    def coverage(s):
        return {"states": s.states, "transitions": s.transitions, "traces_validated_against_impl": s.histories, "events_validated": s.events, "model_transitions_replayed": s.replayed,
                "samples": s.samples[:4] or ["none"], **s.extra}

def findings(pid):
    out = {}
    for l in open(os.path.join(V, "known_findings.txt")):
        if l.startswith("finding: property=%s " % pid):
            f = l[len("finding: "):].strip().split(" ", 2); out[f[1].split("=")[1]] = f[2]
    return out

def run_parallel(h, ops, tmp, label, timeout=300):
    """runs a script split at resets over several harness processes -> events (renumbered), crashes"""
    evs0 = [{"op": o} for o in ops]
    parts = en.chunks_of(evs0, max(40, len(ops) // NPROC + 1))
    def one(i_p):
        i, p = i_p
        return en.run_script(h, [e["op"] for e in p], os.path.join(tmp, "%s_%d.out" % (label, i)), timeout), p
    evs, crashes = [], []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (e, c), p in ex.map(one, list(enumerate(parts))):
            base = len(evs)
            for x in e: x["i"] += base
            evs += e
            if c:
                ops_ = [q["op"] for q in p]
                j = c["at"]
                while j > 0 and ops_[j]["o"] != "reset": j -= 1
                crashes.append({"what": "the library crashed or did not return", "rc": c["rc"], "stderr": c["stderr"][-600:], "history": ops_[j:c["at"] + 1]})
    return evs, crashes

def histories(ctx, h, table, gen, n, label):
    """code -> spec: record histories from the real library and let TLC decide whether the specification allows them"""
    g = h.gen(ctx.seed, ctx.pid + label)
    g.seed7 = ctx.seed
    getattr(g, gen)(n)
    judge(ctx, h, table, g.ops, label)
    ctx.histories += g.cases

def judge(ctx, h, table, ops, label, defer=None):
    evs, crashes = run_parallel(h, ops, ctx.tmp, label)
    ctx.viol += crashes
    if defer is not None: defer.append((evs, label)); return
    decide(ctx, table, evs, label)

def decide(ctx, table, evs, label):
    r = en.validate(table, evs, ctx.tmp, label)
    ctx.events += r["checked"]; ctx.transitions += r["checked"]; ctx.states += r["steps"]
    for m in r["mismatches"]:
        e = m["event"]
        ctx.viol.append({"what": "the specification does not allow this step", "op": e["op"]["o"], "observed": e["out"], "expected": m["exp"], "registers": m["regs"],
                         "history": [x["op"] for x in en.history_of(evs, e["i"])], **({"features": e["h"]} if "h" in e else {}), **({"tlc": m["tlc"]} if "tlc" in m else {})})
    fo = [e for e in evs if e["op"].get("fo") and e["op"]["o"] != "new"]
    if fo: ctx.samples.append({"op": fo[len(fo) // 2]["op"], "out": fo[len(fo) // 2]["out"]})

def full(ctx):
    """the harness with the fixed zoo and the seed's random types"""
    import randzoo
    defs, types = randzoo.random_types(ctx.seed, 30 if ctx.tier == "thorough" else 10)
    return Harness(extra_defs=defs, extra_types=types).build()

def run(ctx):
    if ctx.pid == "C24":
        import features
        return features.run(ctx)
    h = full(ctx)
    if ctx.pid == "C13":
        import cache
        return cache.run(ctx, h)
    table = os.path.join(ctx.tmp, "table.json"); h.write_table(table)
    n = SIZE[ctx.pid] * (THOROUGH if ctx.tier == "thorough" else 1)
    import model
    model.run(ctx, h, table)
    histories(ctx, h, table, ctx.pid, n, "h")
    probes(ctx, h)

PROBES = {
 # key -> (property, operations, what the property would want)
 ("C01", "duration-f32"): lambda h: duration_lossy(h),
 ("C14", "recursive-first-variant"): lambda h: subprocess.run([h.bin, "einf"], capture_output=True, timeout=120).returncode != 0,
}
def duration_lossy(h):
    d = [x for x in h.meta["durs"] if x["v"] == "1.000000001s"][0]
    ops = [{"o":"new","fo":True,"r":"a","d":{"ty":"Duration","st":d}}, {"o":"tov","fo":True,"r":"a","to":"b"}, {"o":"fr","fo":True,"r":"b","to":"c","t":"Duration"}]
    evs, crash = en.run_script(h, ops, os.path.join(BUILD, "probe_%d.out" % os.getpid()))
    for x in (".out", ".out.script"): os.remove(os.path.join(BUILD, "probe_%d%s" % (os.getpid(), x)))
    return not crash and evs[2]["d"] and evs[2]["d"][0][1]["st"] != d
def probes(ctx, h):
    """the recorded findings: said to be known only while they are there"""
    for key, what in findings(ctx.pid).items():
        if PROBES[(ctx.pid, key)](h): ctx.known.append(what)

def replay(ctx, path):
    h = full(ctx)
    table = os.path.join(ctx.tmp, "table.json"); h.write_table(table)
    ops = [o for v in json.load(open(path))["violations"] for o in [{"o": "reset", "fo": False}] + v.get("history", [])]
    judge(ctx, h, table, ops, "replay")
