"""spec -> code: TLC explores the bounded model of a property exhaustively, and every transition it takes is replayed in the real library."""
import json, os, re, random, copy, concurrent.futures as cf
import engine as en
from engine import ToolError, NPROC
from zoo import *
from ops import Gen, NOVAL, NAMES, VARS

SC3 = {"u8": [1, 0, 255, 7], "i8": [-1, 0, 127, -128], "usize": [1, 0, 2, (1 << 64)-1], "u16": [256, 0, 65535], "i16": [-1, 0, 256], "u32": [70000, 0, 1], "i32": [-1, 0, 70000, 7], "u64": [(1 << 32)+1, 0, 1], "i64": [-1, 0, 1 << 40],
       "u128": [1 << 64, 0, 1], "i128": [-1, 0, (1 << 64)+1], "bool": [True, False], "char": ["a", "\0", "\U0001F600"], "String": ["a", "", "b", "hello"],
       "f32": ["1.0", "-0.0", "0.0", "NaN", "0.1"], "f64": ["1.0", "-0.0", "0.0", "NaN", "-1.5"]}
SIBT = {"u8": ["u16", "i8"], "i8": ["u8", "i16"], "usize": ["u64", "u32"], "u16": ["u8", "u32"], "i16": ["i32", "i8"], "u32": ["usize", "i32"], "i32": ["i64", "u32"], "u64": ["usize", "i64"], "i64": ["i32", "u64"], "u128": ["u64", "i128"],
        "i128": ["i64", "u128"], "bool": ["u8"], "char": ["String"], "String": ["char"], "f32": ["f64"], "f64": ["f32"]}

def sibling(t, u):
    if t == "char" or t == "String": return scal(u, "a")
    if t == "bool": return scal(u, 1)
    if t in ("f32", "f64"): return scal(u, "1.0")
    return scal(u, 1)

# bounds: quick, thorough
B0 = dict(depth=1, kcap=3, vcap=8, fcap=2, scap=4, fvals=2, tcap=2, vdep=3, pdep=2, wcap=8)
BOUNDS = {
 "C01": dict(depth=2, vcap=6), "C02": dict(vcap=6), "C03": dict(vcap=12), "C04": dict(vcap=2, wcap=25), "C05": dict(vcap=3), "C06": dict(pdep=4, vcap=12), "C07": dict(tcap=2, vcap=5), "C08": dict(tcap=2, vcap=5), "C09": dict(vcap=3),
 "C10": dict(depth=2, vcap=4), "C11": dict(depth=2, vcap=4), "C12": dict(pdep=4), "C14": dict(pdep=3), "C15": dict(vcap=12), "C16": dict(vcap=6), "C17": dict(depth=2, vcap=2, wcap=5), "C18": dict(depth=2, vcap=2), "C19": dict(depth=3),
 "C20": dict(vcap=8), "C21": dict(vcap=12), "C22": dict(), "C23": dict(depth=4)}
DEEP = {
 "C01": dict(depth=3, vcap=12), "C02": dict(vcap=14, fvals=5, fcap=3, scap=8), "C03": dict(vcap=60, kcap=4), "C04": dict(vcap=8, wcap=400), "C05": dict(vcap=8, pdep=3), "C06": dict(pdep=6, vcap=20), "C07": dict(tcap=4, vcap=10, fvals=4, depth=2), "C08": dict(tcap=4, vcap=10, fvals=4), "C09": dict(vcap=3),
 "C10": dict(depth=3, vcap=6), "C11": dict(depth=3, vcap=6), "C12": dict(pdep=6), "C14": dict(pdep=5), "C15": dict(vcap=60, kcap=4), "C16": dict(vcap=30), "C17": dict(depth=3, vcap=5, wcap=12), "C18": dict(depth=4, vcap=4), "C19": dict(depth=4),
 "C20": dict(vcap=40), "C21": dict(vcap=60), "C22": dict(), "C23": dict(depth=5)}

def dyn_pool(prop):
    u, i, s = (lambda x: scal("u8", x)), (lambda x: scal("i32", x)), (lambda x: scal("String", x))
    st = lambda n, f: {"k":"struct","n":n,"f":f}
    en_ = lambda v, vk, n, f: {"k":"enum","var":v,"vk":vk,"n":n,"f":f}
    L = lambda *f: {"k":"list","f":list(f)}
    T = lambda *f: {"k":"tuple","f":list(f)}
    TS = lambda *f: {"k":"tstruct","f":list(f)}
    M = lambda *m: {"k":"map","m":[list(e) for e in m]}
    p = [u(1), st(["a", "b"], [i(1), s("x")]), en_("Some", "tuple", [], [u(1)]), TS(u(1), s("y")), T(u(1), u(2)), L(u(1), u(2)), M((u(1), s("p")), (u(2), s("q"))),
         scal("f32", "NaN"), st([], []), st(["b", "a"], [s("x"), i(1)]), en_("None", "unit", [], []), en_("S", "struct", ["a"], [u(1)]), TS(), T(), L(), M(), s("a"), scal("f64", "-0.0"), L(L(u(1)), st(["a"], [u(2)])), M((s("k"), L(u(1))))]
    if prop in ("C09", "C16", "C08"):
        p += [scal("u8", 2), scal("i8", -1), scal("i8", 1), scal("i64", -1), scal("i64", 1), scal("u16", 1), scal("u128", 1), scal("usize", 1), scal("bool", True), scal("bool", False), scal("char", "a"), s(""), s("ab"), s("b"),
              scal("f32", "0.0"), scal("f32", "-0.0"), scal("f32", "inf"), scal("f32", "-inf"), scal("f32", "1.0"), scal("f64", "NaN"), scal("f64", "0.0"), scal("f64", "1.0"), scal("i128", -1), scal("u64", (1 << 64)-1),
              st(["a"], [i(1)]), st(["a"], [i(2)]), st(["b"], [i(0)]), st(["a", "b"], [i(1), s("y")]), st(["b", "a"], [s("x"), i(2)]), st(["a", "c"], [i(0), s("a")]), st(["a"], [scal("f32", "NaN")]), st(["a"], [scal("f32", "-0.0")]), st(["a"], [scal("f32", "0.0")]),
              en_("Some", "tuple", [], [u(2)]), en_("Some", "struct", ["a"], [u(1)]), en_("Some", "unit", [], []), en_("A", "unit", [], []), en_("Some", "struct", ["b", "a"], [u(1), u(2)]), en_("Some", "struct", ["a", "b"], [u(2), u(1)]), en_("Some", "tuple", [], []),
              TS(u(1)), T(u(1)), L(u(1)), L(u(2)), L(u(1), u(1)), L(scal("f32", "NaN")), L(scal("f32", "0.0")), L(scal("f32", "-0.0")), T(scal("f64", "NaN"), u(1)), M((u(1), u(1))), M((u(1), u(2))), M((u(2), u(0))), M((scal("f32", "0.0"), u(0))), M((scal("f32", "-0.0"), u(0))), L(L()), L(T()), L(M())]
    return p

def calls_for(prop):
    if prop == "C19":
        return [{"c":"field","n":"a"}, {"c":"pfieldu","u":1}, {"c":"fieldu","u":0}, {"c":"get","v":scal("u8", 3)}, {"c":"pget","v":scal("String", "k")}, {"c":"variant","n":"V"}, {"c":"pvariant","n":"W"}, {"c":"pop"},
                {"c":"push","key":{"k":"f","n":"b"}}, {"c":"extend","keys":[{"k":"u","u":2},{"k":"g","v":scal("i32", -1)}]}, {"c":"collect","keys":[{"k":"v","n":"Some"},{"k":"u","u":0}]}, {"c":"fn_field","n":"z"}, {"c":"rt"}, {"c":"pfield","n":"c"}]
    if prop == "C23":
        out = []
        v = [scal("u8", 1), {"k":"list","f":[scal("u8", 2)]}, {"k":"struct","n":["q"],"f":[scal("i32", -1)]}]
        for n, x in (("a", v[0]), ("b", v[1]), ("a", v[2])):
            for c in ("set", "with", "setS"): out.append({"c":c,"n":n,"v":x,"for":"s","late":False})
        for c in ("set", "with"):
            for x in v: out.append({"c":c,"n":"","v":x,"for":"t","late":False})
        for n, x in (("a", v[0]), ("b", v[1]), ("a", v[2])): out.append({"c":"set","n":n,"v":x,"for":"e","late":False})
        for c in ("set", "with", "push", "pwith"): out.append({"c":c,"n":"a","v":v[1],"for":"e","late":True})
        return out
    return []

def reaches(T, pred):
    bad = {t for t, r in T.items() if pred(t, r)}
    more = True
    while more:
        more = False
        for t, r in T.items():
            if t in bad: continue
            subs = [f["t"] for o in [r] + r["variants"] for f in o["fields"] if not f["skip"]] + [r["elem"], r["key"], r["val"]]
            if any(x in bad for x in subs): bad.add(t); more = True
    return bad

def types_for(prop, h):
    T = h.table.tt
    ts = [t for t in h.table.order if t not in NOVAL]
    if prop == "C10": return [t for t in ts if T[t]["kind"] in ("list", "array")]
    if prop == "C11": return [t for t in ts if T[t]["kind"] == "map"]
    if prop == "C18":
        bad = reaches(T, lambda t, r: r["kind"] in ("via", "opaque") or any(f["frw"] for o in [r] + r["variants"] for f in o["fields"]))
        return [t for t in ts if t not in bad]
    if prop in ("C19", "C23"): return ["u8"]
    if prop == "C09": return ["u8"]
    if prop in ("C06", "C12", "C14", "C22"): return list(h.table.order) if prop != "C06" else ts
    return ts

def model_json(prop, h, tier, seed, types):
    T = h.table.tt
    g = Gen(h.table, h.meta["durs"], 0, "model")
    pool = {t: [scal(t, x) for x in xs] for t, xs in SC3.items()}
    for t, r in T.items():
        if r["kind"] == "via":
            if t == "Duration": pool[t] = [copy.deepcopy(d) for d in h.meta["durs"]][1:5]
            else: pool[t] = [{"k":"via","v":s["v"],"s":s,"o":[]} for s in pool[r["scal"]] if s["v"] != "0"]
        if r["kind"] == "opaque": pool[t] = [{"k":"opq","v":"Opq(%d)" % x,"s":scal("u8", x)} for x in (3, 9)]
    dyn = dyn_pool(prop)
    other = {}
    base = {}
    def minimal(ty, dep=0):
        """a smallest value of the type, [] if it has none"""
        if ty not in T: return [default_node(parse(ty))]
        r = T[ty]; k = r["kind"]
        if k in ("scalar", "via", "opaque"): return [pool[ty][0]]
        if k == "value": return [dyn[0]]
        if r["dyn"]: return [x for x in dyn if x["k"] == k][:1]
        if k == "list": return [{"k":"list","f":[]}]
        if k == "map": return [{"k":"map","m":[]}]
        if dep > 6: return []
        if k == "array":
            e = minimal(r["elem"], dep+1)
            return [{"k":"array","f":e[:1]*r["len"]}] if e or r["len"] == 0 else []
        if k == "enum":
            best = []
            for v in r["variants"]:
                if v["skip"]: continue
                fs = [minimal(f["t"], dep+1) for f in v["fields"]]
                if all(fs):
                    c = {"k":"enum","var":v["n"],"f":[f[0] for f in fs]}
                    if not best or len(json.dumps(c)) < len(json.dumps(best[0])): best = [c]
            return best
        fs = [minimal(f["t"], dep+1) for f in r["fields"]]
        return [{"k":k,"f":[f[0] for f in fs]}] if all(fs) else []
    for t in T: base[t] = minimal(t)
    for r in T.values():
        for o in [r] + r["variants"]:
            for f in o["fields"]:
                if f["t"] not in T and f["t"] not in other:
                    other[f["t"]] = [g.val(f["t"]) for _ in range(6)] + [default_node(parse(f["t"]))]
                    u = []
                    for x in other[f["t"]]:
                        if x not in u: u.append(x)
                    other[f["t"]] = u
    rel = {}
    rnd = random.Random("rel/%s" % seed)
    for t in types:
        k = T[t]["kind"]
        c = [x for x in T if T[x]["kind"] == k and x != t and x not in NOVAL and base[x]]
        c += {"list": [x for x in T if T[x]["kind"] == "array"], "array": [x for x in T if T[x]["kind"] == "list"], "scalar": [x for x in T if T[x]["kind"] == "via"], "via": [T[t]["scal"]] * 3}.get(k, [])
        rnd.shuffle(c)
        rel[t] = c[:4] + [rnd.choice([x for x in T if x not in NOVAL and base[x]])]
    b = dict(B0); b.update(BOUNDS.get(prop, {}))
    if tier == "thorough": b.update(DEEP.get(prop, {}))
    keys = [{"k":"f","n":"a"}, {"k":"f","n":"zz"}, {"k":"u","u":0}, {"k":"u","u":1}, {"k":"u","u":7}, {"k":"g","v":scal("usize", 0)}, {"k":"g","v":scal("i32", 1)}, {"k":"g","v":scal("i8", -1)}, {"k":"g","v":scal("u128", 1 << 64)}, {"k":"g","v":scal("u64", 1 << 32)},
            {"k":"g","v":scal("String", "a")}, {"k":"g","v":scal("u8", 255)}, {"k":"v","n":"Some"}, {"k":"v","n":"A"}, {"k":"v","n":"U"}, {"k":"g","v":{"k":"list","f":[]}}, {"k":"f","n":""}]
    # types whose maps may be ordered differently once erased; types with arrays or opaque parts (equality treats them apart)
    reord = reaches(T, lambda t, r: r["kind"] == "map" and T[r["key"]]["kind"] not in ("scalar", "via"))
    spec = reaches(T, lambda t, r: r["kind"] in ("array", "opaque") or (r["kind"] == "map" and T[r["key"]]["kind"] != "scalar"))
    m = dict(reorders={t: t in reord for t in T}, special={t: t in spec for t in T}, prop=prop, types=types, pool=pool, base=base, other=other, related=rel, sib={t: [sibling(t, u) for u in us] for t, us in SIBT.items()}, dyn=dyn, keys=keys, extra=scal("u8", 99),
             fnames=["a", "x", "b", "y", "c"] + ["n%d" % i for i in range(12)], index=[scal("usize", 0), scal("i32", 1), scal("u64", 2), scal("u8", 3)] + [scal("usize", i) for i in range(4, 20)], mk=g.mk, calls=calls_for(prop), builds=["struct", "tuple", "tstruct", "estruct", "etuple", "eunit"], **b)
    return m

RELATIONAL = {"cmp", "dcmp", "dbg"}
def norm(x):
    if isinstance(x, dict): return {k: norm(v) for k, v in x.items()}
    if isinstance(x, list): return [norm(v) for v in x]
    return x

def explore(ctx, h, table, timeout=800, types=None, nshard=None):
    """TLC over the bounded model, sharded by type -> transitions"""
    prop = ctx.pid
    types = types or types_for(prop, h)
    rnd = random.Random("shard/%s" % ctx.seed); order = list(types); rnd.shuffle(order)
    nshard = nshard or min(len(types), NPROC if ctx.tier == "quick" else NPROC * 3)
    shards = [order[i::nshard] for i in range(nshard)]
    def one(iv):
        i, ts = iv
        mj = os.path.join(ctx.tmp, "model_%d.json" % i)
        json.dump(model_json(prop, h, ctx.tier, ctx.seed, ts), open(mj, "w"))
        outf = os.path.join(ctx.tmp, "model_%d.out" % i)
        rc, out = en.tlc("Mirror.cfg", "Mirror.tla", {"MM_TABLE": table, "MM_MODEL": mj, "MM_META": mj + ".md"}, timeout=timeout, xmx="3g", tofile=outf)
        trs = []
        states = 0; rest = []
        with open(outf) as f:
            for l in f:
                if l.startswith('"T '): trs.append(json.loads(json.loads(l)[2:]))
                else: rest.append(l)
        txt = "".join(rest)
        if rc != 0: raise ToolError("the model of %s is not consistent: %s" % (prop, txt[-3500:]))
        for l in rest:
            m = re.match(r"(\d+) states generated, (\d+) distinct", l)
            if m: states = int(m.group(2))
        return trs, states
    with cf.ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(one, enumerate(shards)))
    trs = [t for r in res for t in r[0]]; states = sum(r[1] for r in res)
    return trs, states

def replay(ctx, h, table, trs, label="", defer=None):
    """every transition in the real library"""
    import parts
    groups = {}
    for t in trs: groups.setdefault(json.dumps(t["pre"], sort_keys=True), []).append(t)
    ops = []; expect = []
    def start(pre):
        ops.append({"o":"reset","fo":False}); expect.append(None)
        for r, d in sorted(pre): ops.append({"o":"new","fo":False,"r":r,"d":d}); expect.append("new")
    for ts in groups.values():
        dirty = True
        seen = set()
        for t in sorted(ts, key=lambda t: bool(t["post"])):
            k = json.dumps(t["op"], sort_keys=True)
            if k in seen: continue
            seen.add(k)
            if dirty: start(t["pre"])
            ops.append(dict(t["op"], fo=True)); expect.append(t)
            dirty = bool(t["post"])
    evs, crashes = parts.run_parallel(h, ops, ctx.tmp, "m" + label)
    ctx.viol += crashes
    if len(evs) != len(ops) and not crashes: raise ToolError("replay lost events")
    # after a crash the events of that process are missing: match by operation order within what came back
    j = 0; n = 0; rel = []
    for e in evs:
        while ops[j] is not e["op"] and ops[j] != e["op"]: j += 1
        t = expect[j]; j += 1
        if t is None: continue
        if t == "new":
            if e["out"] != {"t": "ok"}: ctx.viol.append({"what": "a value of the model cannot be made", "op": "new", "observed": e["out"], "expected": {"t": "ok"}, "history": [e["op"]]})
            continue
        n += 1
        post = {r: d for r, d in t["post"]}
        obs = {r: d for r, d in e["d"]}
        if t["op"]["o"] in RELATIONAL: rel.append(e); ok = obs == post
        else: ok = e["out"] == t["out"] and obs == post
        if not ok and not (t["op"]["o"] in RELATIONAL and obs == post):
            ctx.viol.append({"what": "the library does not take the specification's transition", "op": t["op"]["o"], "observed": e["out"], "expected": t["out"], "registers": [[r, post.get(r), obs.get(r)] for r in sorted(set(post) | set(obs)) if post.get(r) != obs.get(r)],
                             "history": [{"o":"new","fo":False,"r":r,"d":d} for r, d in sorted(t["pre"])] + [dict(t["op"], fo=True)]})
    ctx.replayed += n
    if rel:
        # comparisons and debug text are checked by TLC against the relation the specification allows
        idx = {id(e) for e in rel}
        keep = [e for e in evs if e["op"]["o"] in ("reset", "new") or id(e) in idx]
        if defer is not None: defer.append((keep, label)); keep = []
        for i, e in enumerate(keep): e["i"] = i
        r = en.validate(table, keep, ctx.tmp, "mr" + label) if keep else {"mismatches": []}
        for m in r["mismatches"]:
            e = m["event"]
            ctx.viol.append({"what": "the specification does not allow this step", "op": e["op"]["o"], "observed": e["out"], "expected": m["exp"], "history": [x["op"] for x in en.history_of(keep, e["i"])]})
    if trs:
        t = trs[len(trs) // 3]; ctx.samples.append({"model transition": t["op"], "out": t["out"]})

def run(ctx, h, table):
    trs, states = explore(ctx, h, table)
    ctx.states += states; ctx.transitions += len(trs)
    ctx.extra["model"] = {"distinct_states": states, "transitions": len(trs), "types": len(types_for(ctx.pid, h)), "bounds": {k: v for k, v in {**B0, **BOUNDS.get(ctx.pid, {}), **(DEEP.get(ctx.pid, {}) if ctx.tier == "thorough" else {})}.items()}}
    replay(ctx, h, table, trs)
