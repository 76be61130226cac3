"""C24: the same specification decides builds of the library with subsets of its features."""
import json, os, random, itertools, shutil, concurrent.futures as cf
import engine as en, model, parts
from engine import Harness, ToolError, NPROC, BUILD

ALL = ["std", "speedy", "serde", "glam", "macaw"]
SUBSETS = [list(c) for n in range(len(ALL)) for c in itertools.combinations(ALL, n)]
GENS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"]
PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C15", "C17", "C18", "C19", "C20", "C21", "C23"]

def pick(ctx):
    if ctx.tier == "thorough": return SUBSETS
    rnd = random.Random("features/%s" % ctx.seed)
    nostd = [s for s in SUBSETS if s and "std" not in s and "speedy" not in s]
    rest = [s for s in SUBSETS if s and s not in nostd]
    return [[], rnd.choice(nostd), rnd.choice(rest)]

def build(i_s):
    i, s = i_s
    h = Harness("feat%d" % i, features=s); h.target = os.path.join(BUILD, "tf%d" % (i % 4))
    return h.build()

def run(ctx):
    subs = pick(ctx)
    deep = ctx.tier == "thorough"
    # the model is explored once; its transitions do not depend on features
    full = Harness("feat_table", features=[])     # types every build has
    rnd = random.Random("c24/%s" % ctx.seed)
    def builds():
        groups = [[(i, s) for i, s in enumerate(subs) if i % 4 == g] for g in range(4)]
        with cf.ThreadPoolExecutor(4) as ex: return [h for hs in ex.map(lambda g: [build(x) for x in g], groups) for h in hs]
    hs = builds()
    tab = {}
    for h in hs:
        h.tabf = os.path.join(ctx.tmp, "table_%s.json" % h.name); h.write_table(h.tabf)
    base = hs[0]
    trs = []; states = 0
    def one(p):
        c = type(ctx)(p, "quick", ctx.seed, os.path.join(ctx.tmp, p)); os.makedirs(c.tmp)
        ts = [t for t in model.types_for(p, base) if t in full.table.tt]
        k = {"C19": 1, "C09": 1, "C23": 1, "C10": 8, "C11": 8}.get(p, 24 if deep else 9)
        ts = rnd.sample(ts, min(k, len(ts)))
        r = model.explore(c, base, base.tabf, types=ts, nshard=1)
        return r
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for t, s in ex.map(one, PROPS): trs += t; states += s
    ctx.states += states; ctx.transitions += len(trs)
    trs = [t for t in trs if t["op"]["o"] not in ("pp", "simple", "ser", "sers", "serp", "serd")]
    rel = [t for t in trs if t["op"]["o"] in model.RELATIONAL]; rest = [t for t in trs if t["op"]["o"] not in model.RELATIONAL]
    waiting = {}
    for h in hs:
        label = "+".join(sorted(h.feats)) or "none"
        n0 = len(ctx.viol)
        # comparisons and debug text are decided by TLC, one by one: a sample of them
        sub = rnd.sample(rel, min(len(rel), 8000 if deep else 700)) + (rest if deep else rnd.sample(rest, min(len(rest), 20000 if h is base else 12000)))
        d = waiting.setdefault("std" in h.feats, [])
        mine = []
        model.replay(ctx, h, h.tabf, sub, label=h.name, defer=mine)
        ops = []
        for gname in GENS:
            g = h.gen(ctx.seed, "C24" + gname + label); g.seed7 = ctx.seed
            g.fmts = (["json", "bincode", "cbor"] if "serde" in h.feats else []) + (["speedy"] if "speedy" in h.feats else [])
            if gname == "C16" and not g.fmts: continue
            getattr(g, gname)(240 if deep else 36)
            ops += g.ops; ctx.histories += g.cases
        parts.judge(ctx, h, h.tabf, ops, h.name, defer=mine)
        d += [(h, evs) for evs, _ in mine]
        for v in ctx.viol[n0:]: v["features"] = label
    for std, group in waiting.items():
        # one table for all of them: what a type is does not depend on features, only which types there are
        tab = {}
        for h in hs:
            if ("std" in h.feats) == std:
                t = json.load(open(h.tabf))
                if not tab: tab = t
                for k in ("tt", "names", "dur", "str"): tab[k] = {**t[k], **tab[k]}
        f = os.path.join(ctx.tmp, "table_%s.json" % std); json.dump(tab, open(f, "w"))
        evs = []
        for h, es in group:
            for e in es: evs.append(dict(e, i=len(evs), h="+".join(sorted(h.feats)) or "none"))
        n0 = len(ctx.viol)
        parts.decide(ctx, f, evs, "g%s" % std)
    ctx.extra["features"] = ["+".join(sorted(h.feats)) or "none" for h in hs]
    ctx.extra["model"] = {"distinct_states": states, "transitions": len(trs), "properties": PROPS}
