"""C13: the descriptor cache.  Cache.tla (the algorithm) is checked by TLC against CacheAbs.tla (what callers rely on), under every schedule of small scenarios;
its schedules are replayed in the real library, whose recorded events are decided by CacheTrace.tla."""
import json, os, random, re, subprocess, itertools, concurrent.futures as cf
import engine as en
from engine import ToolError, NPROC

KDESC = ["K0 a 0", "K1 A|B 1", "K2 2 2", "Kg<u8 g 3", "Kg<u16 g 4", "Twin l 5", "Twin r 6"]
NK = len(KDESC)

def scenario(asks, panics, guard, progs): return {"asks": asks, "panics": panics, "guard": guard, "progs": progs}
def small(nth, seed, n):
    """scenarios over 3 types: who asks for what, who panics, who catches, who calls"""
    out = []
    dags = [[[], [], []], [[1], [], []], [[1], [2], []], [[1, 2], [], []], [[1, 1], [], []], [[2, 1], [2], []], [[2], [2], []]]
    panics = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 2, 0], [1, 1, 0]]
    guards = [[False]*3, [True]*3]
    if nth == 2: progs = [[[0], [0]], [[0], [1]], [[0, 0], [0]], [[0], [1, 0]], [[0], [2]], [[1], [2, 1]], [[0, 1], [1, 0]], [[2], [2]]]
    else: progs = [[[0], [0], [0]], [[0], [1], [2]], [[0], [1], [0]], [[2], [1], [0]], [[0], [2], [0]]]
    al = [scenario(a, p, g, pr) for a in dags for p in panics for g in guards for pr in progs if g == guards[0] or any(p)]
    random.Random("cache/%s/%d" % (seed, nth)).shuffle(al)
    return al[:n] if n else al

def tlc(ctx, cfg, scs, nth, label, discipline="outside", coarse=False, timeout=800, expect_fail=False, simulate=0):
    f = os.path.join(ctx.tmp, "cache_%s.json" % label)
    json.dump({"discipline": discipline, "coarse": coarse, "scenarios": scs, "types": 3, "threads": nth}, open(f, "w"))
    rc, out = en.tlc(cfg, "Cache.tla", {"MM_CACHE": f, "MM_META": f + ".md"}, timeout=timeout, xmx="3g", extra=["-simulate", "num=%d" % simulate, "-depth", "400", "-seed", str(ctx.seed)] if simulate else [])
    m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
    if expect_fail:
        if rc == 0: raise ToolError("the model accepts the wrong design '%s'" % discipline)
        if "is violated" not in out and "violated" not in out: raise ToolError("model of '%s' failed otherwise: %s" % (discipline, out[-2000:]))
        return 0, 0, []
    if rc != 0: raise ToolError("the cache model does not have its properties: " + out[-3000:])
    sch = [json.loads(json.loads(l)[2:]) for l in out.split("\n") if l.startswith('"S ')]
    return (int(m[-1][0]), int(m[-1][1]), sch) if m else (0, 0, sch)

def real(ctx, h, jobs, plain=False, timeout=60):
    """runs scenarios, one process each -> list of (scenario, events, rc)"""
    def one(ij):
        i, s = ij
        a = os.path.join(ctx.tmp, "c%s%d" % ("p" if plain else "s", i))
        json.dump(s, open(a + ".json", "w"))
        try: rc = subprocess.run([h.bin, "cache", a + ".json", a + ".out"], capture_output=True, timeout=timeout).returncode
        except subprocess.TimeoutExpired: rc = "timeout"
        evs = [json.loads(l) for l in open(a + ".out")] if os.path.exists(a + ".out") else []
        for x in (".json", ".out"):
            if os.path.exists(a + x): os.remove(a + x)
        return s, evs, rc
    with cf.ThreadPoolExecutor(NPROC if not plain else 2) as ex: return list(ex.map(one, enumerate(jobs)))

def judge(ctx, res, desc, nth, label):
    for s, evs, rc in res:
        if rc != 0 or not evs:
            ctx.viol.append({"what": "a call for a descriptor does not return" if rc in (3, "timeout") else "the process asking for descriptors died", "rc": rc, "scenario": s, "events": evs[-12:]})
    good = [(s, evs) for s, evs, rc in res if rc == 0 and evs]
    n = max(1, len(good) // NPROC + 1)
    chunks = [good[i:i + n] for i in range(0, len(good), n)]
    def one(ic):
        i, ch = ic
        f = os.path.join(ctx.tmp, "ct_%s_%d" % (label, i))
        lines = []; own = []
        for s, evs in ch:
            for e in evs: lines.append(e); own.append(s)
        with open(f + ".ndjson", "w") as w:
            for e in lines: w.write(json.dumps(e) + "\n")
        json.dump({"desc": desc, "threads": nth}, open(f + ".json", "w"))
        rc, out = en.tlc("CacheTrace.cfg", "CacheTrace.tla", {"MM_CACHE": f + ".json", "MM_TRACE": f + ".ndjson", "MM_META": f + ".md"}, timeout=600)
        chk = re.findall(r'"CHECKED (\d+) (\d+) (\d+)"', out)
        if not chk: raise ToolError("TLC failed on a cache trace: " + out[-2500:])
        ms = [json.loads(json.loads(l)[9:]) for l in out.split("\n") if l.startswith('"MISMATCH ')]
        if rc != 0 and not ms: raise ToolError("TLC rejected a cache trace without a reason: " + out[-2500:])
        return int(chk[0][0]), [{"what": "callers of the cache observed something the specification does not allow", "event": lines[m["l"] - 1], "state": m, "scenario": own[m["l"] - 1], "before": lines[max(0, m["l"] - 15):m["l"] - 1]} for m in ms]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for n, vs in ex.map(one, enumerate(chunks)): ctx.events += n; ctx.viol += vs

def run(ctx, h):
    deep = ctx.tier == "thorough"
    rnd = random.Random("cache/%s" % ctx.seed)
    jobs = []
    # 1. the model: every interleaving of lock operations; the wrong designs must be told apart
    def fine(i_nth_scs): i, nth, scs = i_nth_scs; return tlc(ctx, "CacheFine.cfg", scs, nth, "f%d_%d" % (nth, i))
    two, three = small(2, ctx.seed, 0 if deep else 96), small(3, ctx.seed, 0 if deep else 6)
    def shard(l, n): k = (len(l) + n - 1) // n; return [l[i::k] for i in range(k)]
    work = [(i, 3, s) for i, s in enumerate(shard(three, 4 if deep else 1))] + [(i, 2, s) for i, s in enumerate(shard(two, 16))]
    nsc = len(two) + len(three)
    with cf.ThreadPoolExecutor(NPROC) as ex: fr = list(ex.map(fine, work))
    wrong = scenario([[1], [], []], [0, 0, 0], [False]*3, [[0], [1]]), scenario([[], [], []], [1, 0, 0], [False]*3, [[0], [1]]), scenario([[], [], []], [0, 0, 0], [False]*3, [[0], [0]])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda d: tlc(ctx, "CacheFine.cfg", [d[1]], 2, "w" + d[0] + str(d[2]), discipline=d[0], expect_fail=True), [("write", wrong[0], 0), ("write", wrong[1], 1), ("read", wrong[0], 0), ("own", wrong[2], 0), ("overwrite", wrong[2], 0)]))
    # 2. its schedules, in the library
    def coarse(i_nth_scs): i, nth, scs = i_nth_scs; return nth, scs, tlc(ctx, "CacheCoarse.cfg", scs, nth, "c%d_%d" % (nth, i), coarse=True, simulate=0 if nth == 2 else 3000 if deep else 120)
    two, three = small(2, ctx.seed + 1, 0 if deep else 64), small(3, ctx.seed + 1, 0 if deep else 64)
    work = [(i, 2, s) for i, s in enumerate(shard(two, 16))] + [(i, 3, three[i::4]) for i in range(4)]
    with cf.ThreadPoolExecutor(NPROC) as ex: cr = list(ex.map(coarse, work))
    total = 0
    for nth, scs, (_, _, sch) in cr:
        total += len(sch)
        rnd.shuffle(sch)
        # every scenario at least once
        first = {}
        for s in sch: first.setdefault(s["sc"], s)
        rest = [s for s in sch if first[s["sc"]] is not s]
        for s in list(first.values()) + rest[:400 if deep else 50]:
            # the scenario's three types are any of the harness's
            perm = rnd.sample(range(NK), 3); sc = scs[s["sc"] - 1]
            asks, pan, gu = [[] for _ in range(NK)], [0]*NK, [False]*NK
            for t in range(3): asks[perm[t]] = [perm[u] for u in sc["asks"][t]]; pan[perm[t]] = sc["panics"][t]; gu[perm[t]] = sc["guard"][t]
            jobs.append({"asks": asks, "panics": pan, "guard": gu, "progs": [[perm[t] for t in p] for p in sc["progs"]], "sched": s["sched"]})
    # 3. more threads and types than the model has, unscheduled
    for i in range(400 if deep else 60):
        nth = rnd.choice([2, 4, 8, 12]); order = rnd.sample(range(NK), NK)
        asks = [[] for _ in range(NK)]
        for k, t in enumerate(order): asks[t] = rnd.sample(order[k + 1:], min(len(order[k + 1:]), rnd.choice([0, 0, 1, 2])))
        jobs.append({"asks": asks, "panics": [rnd.choice([0, 0, 0, 1, 3]) for _ in range(NK)], "guard": [rnd.random() < .4 for _ in range(NK)],
                     "progs": [[rnd.randrange(NK) for _ in range(rnd.choice([1, 3, 12]))] for _ in range(nth)]})
    res = real(ctx, h, jobs)
    judge(ctx, res, KDESC, 12, "s")
    # 4. all types of the zoo and more at once
    ref = json.loads(subprocess.run([h.bin, "cacheref"], capture_output=True, text=True, timeout=120).stdout)
    pj = []
    for i in range(40 if deep else 6):
        nth = rnd.choice([4, 8, 12]); all_ = list(range(len(ref)))
        if i % 2: progs = [rnd.sample(all_, len(all_)) for _ in range(nth)]
        else: base = rnd.sample(all_, len(all_)); progs = [base for _ in range(nth)]     # everybody after the same type at the same time
        pj.append({"plain": True, "progs": [p[:220] for p in progs]})
    resp = real(ctx, h, pj, plain=True)
    judge(ctx, resp, ref, 12, "p")
    gen, dist = sum(r[0] for r in fr), sum(r[1] for r in fr)
    ctx.states += dist; ctx.transitions += gen; ctx.histories += len(res) + len(resp); ctx.replayed += len(jobs)
    ctx.extra["model"] = {"fine_states": dist, "scenarios": nsc, "schedules_generated": total, "schedules_replayed": len(jobs), "wrong_designs_rejected": 5, "processes": len(res) + len(resp),
                          "waits_seen": sum(1 for s, e, rc in res if e and e[0].get("waited"))}
    ctx.samples.append(jobs[0])
