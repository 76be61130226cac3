"""Generates the histories (scripts) that are run against the real library and then validated by the specification.
Nothing here decides anything: the expected results come from spec/Ops.tla alone."""
import random, json, copy
from zoo import *

NAMES = ["a", "b", "c", "x", "y", "name", "index", "value", "Z", "é", "aa", "r#type", "type", "s", "start", "end", "inner"]
# unusual ones, and enough for values with many fields
ODD = ["", "0", "1", " ", "a b", "a.b", "a::B", "[0]", "\"", "\\", "\n", "A", "_a", "a_", "self", "\u65e5\u672c", "a\0", "long_" * 20, "r#a"]
MANY = ["m%d" % i for i in range(40)]
def near(n):
    """names one might mistake for n"""
    return [n + "_", n[:-1], "r#" + n, "_" + n, n.upper(), n.capitalize(), " " + n, n + " ", n + n, n[1:], n + "2", n[2:] if n.startswith("r#") else n + "\0", "." + n, "self." + n]
VARS = ["U", "T", "S", "A", "B", "C", "None", "Some", "Ok", "Err", "V", "Leaf", "Z"]
NOVAL = {"Infallible"}

class Gen:
    def __init__(self, table, durs, seed, tag=""):
        self.T = table.tt
        self.order = [t for t in table.order]
        self.durs = durs
        self.r = random.Random("%s/%s" % (seed, tag))
        self.ops = []
        self.mk = sorted({m[0] for t in self.T.values() for o in [t] + t["variants"] for f in o["fields"] + [o] for m in f["meta"]} | {"none", "why"})
        self.types = [t for t in self.order if t not in NOVAL]
        # types a value of which can be made (no part without values)
        self.vtypes = [t for t in self.types]
        self.cases = 0
        self.big = False       # now and then everything is large
    def count(self, small):
        if self.big and self.r.random() < 0.5: return self.r.choice([5, 8, 9, 16, 17, 33])
        return self.r.choice(small)
    def names(self, n):
        r = self.r
        if n > 6: return r.sample(NAMES + MANY, n)
        if r.random() < 0.12: return r.sample(NAMES + ODD, n)
        return r.sample(NAMES, n)
    # ------------------------------------------------------------ values
    def scalar(self, t):
        r = self.r
        if r.random() < 0.3:
            if t in W:
                w = W[t]
                x = r.getrandbits(w)
                if r.random() < 0.5: x = r.randrange(0, 9)
                if t[0] == 'i': x = x - (1 << w) if x >> (w-1) else x
                return scal(t, x)
            if t == "String" and r.random() < 0.1: return scal(t, "".join(r.choice("abé\0\n\U0001F600") for _ in range(r.choice([15, 16, 17, 23, 24, 33, 64, 255, 256, 300]))))
            if t == "String": return scal(t, "".join(r.choice("abcXYZ01 _é\"\\") for _ in range(r.randrange(0, 6))))
            if t == "char": return scal(t, r.choice("abcdeXYZ019 ~ß€"))
        return copy.deepcopy(r.choice(POOL[t]))
    def val(self, ty, depth=0):
        r = self.r
        if ty not in self.T:
            if ty == "NoRefl" or ty == "NoRefl2": return {"k":"x","v":str(r.randrange(0, 9))}
            e = parse(ty)
            if e[0] == "p" and e[1] == "Vec": return {"k":"list","f":[self.val(show(e[2][0]), depth+1) for _ in range(r.randrange(0, 3))]}
            if e[0] == "p" and e[1] == "Option":
                return {"k":"enum","var":"None","f":[]} if r.random() < 0.4 else {"k":"enum","var":"Some","f":[self.val(show(e[2][0]), depth+1)]}
            raise Exception("no values of " + ty)
        T = self.T[ty]
        n = lambda: self.count([0, 1, 2, 3]) if depth < 2 else r.choice([0, 1, 2] if depth < 3 else [0, 0, 1] if depth < 5 else [0])
        k = T["kind"]
        if k == "scalar": return self.scalar(ty)
        if k == "via":
            if ty == "Duration": return copy.deepcopy(r.choice(self.durs))
            while True:
                s = self.scalar(T["scal"])
                if s["v"] != "0": return {"k":"via","v":s["v"],"s":s,"o":[]}
        if k == "opaque":
            s = self.scalar("u8"); return {"k":"opq","v":"Opq(%s)" % s["v"],"s":s}
        if k == "value": return self.dyn(depth)
        if T["dyn"]: return self.dyn(depth, k)
        if k in ("struct", "tstruct", "tuple"): return {"k":k,"f":[self.val(f["t"], depth+1) for f in T["fields"]]}
        if k == "enum":
            vs = [v for v in T["variants"] if not v["skip"] and not any(f["t"] == "Infallible" for f in v["fields"])]
            if depth > 4: vs = [v for v in vs if not any(ty in f["t"] for f in v["fields"])] or vs
            v = r.choice(vs)
            return {"k":"enum","var":v["n"],"f":[self.val(f["t"], depth+1) for f in v["fields"]]}
        if k == "list": return {"k":"list","f":[self.val(T["elem"], depth+1) for _ in range(n())]}
        if k == "array": return {"k":"array","f":[self.val(T["elem"], depth+1) for _ in range(T["len"])]}
        if k == "map": return {"k":"map","m":self.entries(T["key"], [[self.val(T["key"], depth+1), self.val(T["val"], depth+1)] for _ in range(n())])}
        raise Exception(ty)
    def entries(self, kt, es):
        es = sorted(es, key=lambda e: self.keyT(kt, e[0]))
        out = []
        for e in es:
            if not out or self.keyT(kt, out[-1][0]) != self.keyT(kt, e[0]): out.append(e)
        return out
    def dyn(self, depth=0, kind=None):
        r = self.r
        if self.big and depth == 0 and kind is None and r.random() < 0.3: return self.tower(r.choice([9, 17, 34]))
        k = kind or (r.choice(["s", "s", "s", "struct", "tuple", "tstruct", "enum", "list", "map"]) if depth < 3 else "s")
        n = (self.count([0, 1, 2, 3]) if depth < 1 else r.choice([0, 1, 2, 3])) if depth < 2 else r.choice([0, 1])
        if k == "s": return self.scalar(r.choice(SCALARS))
        if k == "struct": return {"k":k,"n":(ns := self.names(n)),"f":[self.dyn(depth+1) for _ in ns]}
        if k in ("tuple", "tstruct"): return {"k":k,"f":[self.dyn(depth+1) for _ in range(n)]}
        if k == "list":
            if r.random() < 0.5:
                t = r.choice(SCALARS); return {"k":k,"f":[self.scalar(t) for _ in range(n)]}
            return {"k":k,"f":[self.dyn(depth+1) for _ in range(n)]}
        if k == "map":
            if r.random() < 0.5:
                t = r.choice(SCALARS); return {"k":k,"m":self.entries("Value", [[self.scalar(t), self.dyn(depth+1)] for _ in range(n)])}
            return {"k":k,"m":self.entries("Value", [[self.dyn(depth+1), self.dyn(depth+1)] for _ in range(n)])}
        vk = r.choice(["struct", "tuple", "unit"])
        if vk == "unit": n = 0
        return {"k":"enum","var":r.choice(VARS),"vk":vk,"n":self.names(n) if vk == "struct" else [],"f":[self.dyn(depth+1) for _ in range(n)]}
    def tower(self, h):
        """a deeply nested erased value"""
        r = self.r; x = self.dyn(3)
        for _ in range(h):
            k = r.choice(["struct", "tuple", "tstruct", "enum", "list", "map"])
            if k == "struct": x = {"k":k,"n":[r.choice(NAMES)],"f":[x]}
            elif k == "enum": x = {"k":k,"var":r.choice(VARS),"vk":"tuple","n":[],"f":[x]}
            elif k == "map": x = {"k":k,"m":[[self.scalar("u8"), x]]}
            else: x = {"k":k,"f":[x]}
        return x
    # ------------------------------------------------------------ orders (only to hand maps over in key order)
    def keyV(self, x):
        k = x["k"]
        if k == "s": return (SCALARS.index(x["t"]), tuple(x["o"]))
        if k == "struct": return (17,) + self.keyNF(x)
        if k == "enum":
            vk = {"struct":1,"tuple":2,"unit":3}[x["vk"]]
            return (18, x["var"].encode(), vk, self.keyNF(x) if vk == 1 else tuple(self.keyV(f) for f in x["f"]))
        if k == "map": return (22, tuple((self.keyV(a), self.keyV(b)) for a, b in x["m"]))
        return ({"tstruct":19,"tuple":20,"list":21}[k], tuple(self.keyV(f) for f in x["f"]))
    def keyNF(self, x):
        ns = tuple(n.encode() for n in x["n"])
        return (ns, tuple(self.keyV(f) for n, f in sorted(zip(ns, x["f"]), key=lambda e: e[0])))
    def keyT(self, ty, x):
        T = self.T[ty]; k = T["kind"]
        if k == "scalar": return tuple(x["o"])
        if k == "via": return tuple(x["o"]) if ty == "Duration" else tuple(x["s"]["o"])
        if k == "value": return self.keyV(x)
        if k in ("struct", "tstruct", "tuple"): return tuple(self.keyT(f["t"], y) for f, y in zip(T["fields"], x["f"]))
        if k == "enum":
            i = [v["n"] for v in T["variants"]].index(x["var"])
            return (i,) + tuple(self.keyT(f["t"], y) for f, y in zip(T["variants"][i]["fields"], x["f"]))
        if k in ("list", "array"): return tuple(self.keyT(T["elem"], y) for y in x["f"])
        raise Exception("key " + ty)
    # ------------------------------------------------------------ parts (to aim operations at something)
    def norm(self, ty, st):
        if ty != "Value": return ty
        k = st["k"]
        return st["t"] if k == "s" else {"struct":"StructValue","enum":"EnumValue","tuple":"TupleValue","tstruct":"TupleStructValue","list":"Vec<Value>","map":"BTreeMap<Value, Value>"}[k]
    def vfs(self, ty, st):
        T = self.T[ty]
        if T["dyn"]:
            named = T["kind"] == "struct" or (T["kind"] == "enum" and st["vk"] == "struct")
            return [{"n": st["n"][i] if named else "", "t":"Value", "i":i+1} for i in range(len(st["f"]))]
        if T["kind"] == "enum": return [v for v in T["variants"] if v["n"] == st["var"]][0]["vf"]
        return T["vf"]
    def varkind(self, ty, st): return st["vk"] if self.T[ty]["dyn"] else [v for v in self.T[ty]["variants"] if v["n"] == st["var"]][0]["vk"]
    def kids(self, ty, st):
        """[(key, type, node)] of the visible parts; the key is a key path step"""
        ty = self.norm(ty, st); T = self.T[ty]; k = T["kind"]
        if k in ("struct", "tstruct", "tuple", "enum"):
            vk = {"struct":"struct","enum":None}.get(k, "tuple") or self.varkind(ty, st)
            return [({"k":"f","n":f["n"]} if vk == "struct" else {"k":"u","u":j}, self.norm(f["t"], st["f"][f["i"]-1]), st["f"][f["i"]-1]) for j, f in enumerate(self.vfs(ty, st))]
        if k in ("list", "array"): return [({"k":"g","v":self.index_key(j)}, self.norm(T["elem"], x), x) for j, x in enumerate(st["f"])]
        if k == "map": return [({"k":"g","v":self.tov(T["key"], a)}, self.norm(T["val"], b), b) for a, b in st["m"]]
        return []
    def index_key(self, j): return scal(self.r.choice(["usize", "usize", "usize", "i32", "u8", "i64", "u16", "i8", "u128", "i128"]), j)
    def tov(self, ty, st):
        """erased form, used only to make sources that are close to what a type needs"""
        ty = self.norm(ty, st); T = self.T[ty]; k = T["kind"]
        if T["dyn"] or k == "scalar" or ty in ("Vec<Value>", "BTreeMap<Value, Value>"): return copy.deepcopy(st)
        if k in ("via", "opaque"): return copy.deepcopy(st["s"])
        if k == "struct": return {"k":k,"n":[f["n"] for f in T["vf"]],"f":[self.tov(f["t"], st["f"][f["i"]-1]) for f in T["vf"]]}
        if k in ("tstruct", "tuple"): return {"k":k,"f":[self.tov(f["t"], st["f"][f["i"]-1]) for f in T["vf"]]}
        if k == "enum":
            v = [v for v in T["variants"] if v["n"] == st["var"]][0]
            return {"k":k,"var":v["n"],"vk":v["vk"],"n":[f["n"] for f in v["vf"]] if v["vk"] == "struct" else [],"f":[self.tov(f["t"], st["f"][f["i"]-1]) for f in v["vf"]]}
        if k in ("list", "array"): return {"k":"list","f":[self.tov(T["elem"], x) for x in st["f"]]}
        return {"k":"map","m":self.entries("Value", [[self.tov(T["key"], a), self.tov(T["val"], b)] for a, b in st["m"]])}
    def mutate(self, ty, st, depth=0):
        """another value of the type that differs in one place (mostly)"""
        r = self.r
        if ty not in self.T: return self.val(ty, depth)
        T = self.T[ty]; k = T["kind"]
        if k == "value" or T["dyn"]: return self.mangle(st, depth) if k == "value" else self.mangle_same(st, depth)
        if k in ("scalar", "via", "opaque") or r.random() < 0.1: return self.val(ty, depth)
        st = copy.deepcopy(st)
        if k in ("struct", "tstruct", "tuple", "enum"):
            fs = T["fields"] if k != "enum" else [v for v in T["variants"] if v["n"] == st["var"]][0]["fields"]
            if not fs or (k == "enum" and r.random() < 0.2): return self.val(ty, depth)
            i = r.randrange(len(fs)); st["f"][i] = self.mutate(fs[i]["t"], st["f"][i], depth+1)
        elif k in ("list", "array"):
            if k == "list" and r.random() < 0.4:
                if st["f"] and r.random() < 0.5: st["f"].pop(r.randrange(len(st["f"])))
                else: st["f"].insert(r.randrange(len(st["f"])+1), self.val(T["elem"], depth+1))
            elif st["f"]:
                i = r.randrange(len(st["f"])); st["f"][i] = self.mutate(T["elem"], st["f"][i], depth+1)
        elif k == "map":
            if not st["m"] or r.random() < 0.4:
                if st["m"] and r.random() < 0.5: st["m"].pop(r.randrange(len(st["m"])))
                else: st["m"] = self.entries(T["key"], st["m"] + [[self.val(T["key"], depth+1), self.val(T["val"], depth+1)]])
            else:
                i = r.randrange(len(st["m"])); st["m"][i] = [st["m"][i][0], self.mutate(T["val"], st["m"][i][1], depth+1)]
        return st
    def mangle_same(self, x, depth=0):
        y = self.mangle(x, depth)
        return y if y["k"] == x["k"] else copy.deepcopy(x)
    def mangle(self, x, depth=0, deep=0.75):
        """an erased value that differs from x in one place, possibly in shape"""
        r = self.r
        x = copy.deepcopy(x); k = x["k"]
        if k == "s":
            c = r.random()
            if c < 0.5: return self.scalar(x["t"])
            if c < 0.85: return self.scalar(r.choice(SCALARS))
            return self.dyn(2)
        if k == "map":
            if x["m"] and r.random() < deep:
                i = r.randrange(len(x["m"]))
                if r.random() < 0.3: x["m"][i][0] = self.mangle(x["m"][i][0], depth+1)
                else: x["m"][i][1] = self.mangle(x["m"][i][1], depth+1)
            elif x["m"] and r.random() < 0.5: x["m"].pop(r.randrange(len(x["m"])))
            else: x["m"].append([self.mangle(r.choice(x["m"])[0], depth) if x["m"] else self.dyn(2), self.dyn(2)])
            x["m"] = self.entries("Value", x["m"])
            return x
        if x["f"] and r.random() < deep:
            i = r.randrange(len(x["f"])); x["f"][i] = self.mangle(x["f"][i], depth+1); return x
        c = r.random()
        if k == "enum" and c < 0.25: x["var"] = r.choice(VARS); return x
        if k == "enum" and c < 0.4:
            vk = r.choice(["struct", "tuple", "unit"])
            x["vk"] = vk
            x["n"] = self.names(len(x["f"])) if vk == "struct" else []
            if vk == "unit": x["f"] = []
            return x
        if k == "enum" and x["vk"] == "unit": return x
        if c < 0.6 and x["f"]: # drop one
            i = r.randrange(len(x["f"])); x["f"].pop(i)
            if x.get("n"): x["n"].pop(i)
            return x
        if c < 0.75: # one more
            named = k == "struct" or (k == "enum" and x["vk"] == "struct")
            i = r.randrange(len(x["f"])+1)
            if named:
                free = [n for n in NAMES + MANY if n not in x["n"]]
                x["n"].insert(i, r.choice(free))
            x["f"].insert(i, self.dyn(2)); return x
        if c < 0.85 and len(x["f"]) > 1: # reorder
            p = list(range(len(x["f"]))); r.shuffle(p)
            x["f"] = [x["f"][i] for i in p]
            if x.get("n"): x["n"] = [x["n"][i] for i in p]
            return x
        if c < 0.92 and x.get("n"):
            i = r.randrange(len(x["n"])); free = [n for n in NAMES + MANY if n not in x["n"]]
            x["n"][i] = r.choice(free); return x
        if k in ("tuple", "tstruct", "list"): x["k"] = r.choice(["tuple", "tstruct", "list"]); return x
        return self.dyn(depth)
    # ------------------------------------------------------------ paths
    def badkey(self):
        r = self.r
        return r.choice([{"k":"f","n":r.choice(NAMES)}, {"k":"u","u":r.choice([0, 1, 2, 5, 2**20])}, {"k":"v","n":r.choice(VARS)}, {"k":"g","v":self.scalar(r.choice(SCALARS))},
                         {"k":"g","v":self.scalar(r.choice(["usize", "i32", "i64", "u128", "i128", "u64", "i8"]))}, {"k":"g","v":scal("usize", r.randrange(0, 5))}, {"k":"g","v":self.dyn(1)}])
    def walk(self, ty, st, variants=None, maxlen=None):
        """a random path into the value, with the part it reaches"""
        r = self.r; p = []; maxlen = maxlen or (40 if self.big else 6)
        ty = self.norm(ty, st)
        while len(p) < maxlen:
            T = self.T[ty]
            if T["kind"] == "enum" and (r.random() < 0.4 if variants is None else variants):
                p.append({"k":"v","n":st["var"]})
                if r.random() < 0.1: p.append({"k":"v","n":st["var"]})
            ks = self.kids(ty, st)
            if not ks or r.random() < (0.02 if self.big else 0.2): break
            key, ty, st = r.choice(ks); p.append(key)
        return p, ty, st
    def bend(self, p):
        """a path close to p that mostly leads nowhere"""
        r = self.r; p = copy.deepcopy(p); c = r.random()
        if not p or c < 0.25: p.insert(r.randrange(len(p)+1), self.badkey()); return p
        i = r.randrange(len(p)); k = p[i]
        if c < 0.4: p[i] = self.badkey()
        elif c < 0.5: p.pop(i)
        elif k["k"] == "u": p[i] = {"k":"u","u":k["u"] + r.choice([1, 2, 256])}
        elif k["k"] == "f": p[i] = {"k":"f","n":r.choice(r.choice([NAMES, near(k["n"])]))} if r.random() < 0.8 else {"k":"u","u":0}
        elif k["k"] == "v": p[i] = {"k":"v","n":r.choice(r.choice([VARS, near(k["n"])]))}
        else:
            v = k["v"]
            if v["k"] == "s" and v["t"] in W:
                x = int(v["v"]); t = r.choice(list(W)); c = r.randrange(5)
                if c == 0: x += 1
                elif c == 1: x = -x - 1
                elif c == 2: x += 256
                elif c == 3: x += 1 << 32
                else: x += 1 << 64
                w = W[t]; lo, hi = (-(1 << (w-1)), (1 << (w-1))-1) if t[0] == 'i' else (0, (1 << w)-1)
                if not lo <= x <= hi: t = "i128"
                if x > 2**127-1: t = "u128"
                x = max(-(1 << 127), min(x, (1 << 128) - 1))
                p[i] = {"k":"g","v":scal(t, x)}
            else: p[i] = {"k":"g","v":self.mangle(v)}
        return p
    def some_types(self, ty, n=5):
        xs = self.r.sample(self.types, n)
        if ty in self.T and ty not in NOVAL: xs.append(ty)
        xs += [t for t in ("u8", "String", "Value", "Vec<Value>", "StructValue") if self.r.random() < 0.3]
        return sorted(set(xs))
    # ------------------------------------------------------------ script
    def op(self, o, fo=True, **kw):
        d = {"o": o, "fo": fo}; d.update(kw); self.ops.append(d)
    def foc(self, o, **kw): self.op(o, True, **kw)
    def reset(self): self.op("reset", False); self.cases += 1; self.big = self.r.random() < 0.08
    def new(self, r, ty, st, fo=True): self.op("new", fo, r=r, d={"ty":ty,"st":st})
    def pick(self): return self.r.choice(self.vtypes)
    def spread(self, n, types=None):
        """n types, every one of the list before any is repeated"""
        ts = list(types or self.vtypes); out = []
        while len(out) < n:
            self.r.shuffle(ts); out += ts
        return out[:n]
    def with_kind(self, *ks): return [t for t in self.vtypes if self.T[t]["kind"] in ks and not self.T[t]["dyn"]]
    def names_of(self, ty, st):
        ty = self.norm(ty, st); T = self.T[ty]
        ns = []
        if T["kind"] in ("struct", "enum"):
            ns = [f["n"] for f in self.vfs(ty, st) if f["n"]]
            allf = (T["fields"] if T["kind"] == "struct" else [f for v in T["variants"] for f in v["fields"]])
            ns += [f["n"] for f in allf]
        ns += self.r.sample(NAMES, 2) + ["no such field", "0", ""] + (self.r.sample(near(self.r.choice(ns)), 3) if ns else [])
        return list(dict.fromkeys(ns))

    # ------------------------------------------------------------ the histories of each property
    def C01(self, n):
        for ty in self.spread(n):
            v = self.val(ty); self.reset(); self.new("a", ty, v)
            self.foc("tov", r="a", to="b"); self.foc("fr", r="b", to="c", t=ty); self.foc("fr", r="a", to="d", t=ty)
            self.foc("eq", r="a", s="c")
            self.foc("clone", r="a", to="e", how="clone_reflect"); self.foc("fr", r="e", to="f", t=ty)
            self.foc("tov", r="b", to="g"); self.foc("fr", r="g", to="h", t=ty)
            if self.r.random() < 0.5: self.foc("vfrom", r="b", d={"ty":ty,"st":v}); self.foc("fr", r="b", to="c", t=ty)
            if self.r.random() < 0.3: self.foc("vref", r="a", to="g"); self.foc("fr", r="g", to="h", t=ty); self.foc("tov", r="h", to="b"); self.foc("fr", r="b", to="c", t=ty)
    def C02(self, n):
        for ty in self.spread(n):
            v = self.val(ty); e = self.tov(ty, v); self.reset()
            self.new("a", "Value", e); self.foc("fr", r="a", to="h", t=ty)
            for r in "bcd":
                self.new(r, "Value", self.mangle(e, deep=self.r.choice([0.3, 0.75, 0.95]))); self.foc("fr", r=r, to="h", t=ty)
            t2 = self.related(ty); self.new("e", t2, self.val(t2)); self.foc("fr", r="e", to="h", t=ty)
            if self.r.random() < 0.3: self.new("f", "Value", self.dyn()); self.foc("fr", r="f", to="g", t=ty); self.foc("fr", r="f", to="g", t=self.r.choice(["StructValue", "EnumValue", "TupleValue", "TupleStructValue", "Vec<Value>", "BTreeMap<Value, Value>", "Value"]))
            if self.r.random() < 0.2 and ty != "ESkipV": self.new("g", "ESkipV", self.hidden()); self.foc("fr", r="g", to="h", t=self.r.choice(["ESkipV", ty])); self.op("reset")
    def hidden(self):
        return self.r.choice([{"k":"enum","var":"H","f":[self.scalar("u8")]}, {"k":"enum","var":"M","f":[]}, {"k":"enum","var":"HS","f":[{"k":"x","v":"3"}]}])
    def related(self, ty):
        """a type whose values look a little like those of ty"""
        T = self.T[ty]; r = self.r
        if r.random() < 0.15: return ty
        if r.random() < 0.75:
            same = [t for t in self.vtypes if self.T[t]["kind"] == T["kind"]]
            if T["kind"] in ("list", "array"): same += self.with_kind("list", "array")
            if T["kind"] in ("via", "scalar"): same += self.with_kind("via", "scalar")
            return r.choice(same)
        return self.pick()
    def C03(self, n):
        for ty in self.spread(n):
            v = self.val(ty); self.reset(); self.new("a", ty, v)
            self.foc("insp", r="a", names=self.names_of(ty, v))
            e = self.tov(ty, v)
            if self.r.random() < 0.5: self.new("b", "Value", e); self.foc("insp", r="b", names=self.names_of("Value", e))
            if self.r.random() < 0.3: d = self.dyn(0, self.r.choice(["struct", "enum", "tuple", "tstruct", "list", "map"])); self.new("c", "Value", d); self.foc("insp", r="c", names=self.names_of("Value", d))
            for r in "a":
                p, t2, s2 = self.walk(ty, v)
                self.foc("at", r="a", p=p, tys=[])
            if self.r.random() < 0.06: self.new("d", "ESkipV", self.hidden()); self.foc("insp", r="d", names=["q", "x", "0"]); self.op("reset")
    def some_route(self, ty, v):
        r = self.r; c = r.random()
        ks = self.kids(ty, v)
        nk = len(ks)
        if c < 0.1: return {"p":"self"}, self.norm(ty, v), v
        if c < 0.5 or not ks:
            p, t2, s2 = self.walk(ty, v)
            if r.random() < 0.15: return {"p":"path","path":self.bend(p)}, t2, s2
            return {"p":"path","path":p}, t2, s2
        i = r.randrange(nk)
        key, t2, s2 = ks[i]
        if r.random() < 0.1: i = nk + r.randrange(3)
        c = r.random()
        if key["k"] == "f" and c < 0.4: return {"p":"field","n":key["n"] if r.random() < 0.8 else r.choice(near(key["n"]))}, t2, s2
        T = self.T[self.norm(ty, v)]
        if T["kind"] == "map" and c < 0.5:
            kd = [T["key"], v["m"][i][0]] if i < nk else [T["key"], self.val(T["key"])]
            if r.random() < 0.5: kd = ["Value", self.tov(*kd)]
            return {"p":"mget","kd":{"ty":kd[0],"st":kd[1]}}, t2, s2
        return {"p":r.choice(["at", "it"]),"i":i}, t2, s2
    def some_write(self, t2, s2):
        """how to write to a part of type t2, and what"""
        r = self.r; T = self.T[t2]; c = r.random()
        if T["kind"] == "scalar" and c < 0.5:
            t = t2 if r.random() < 0.85 else r.choice(SCALARS)
            return "scal", {"ty":t,"st":self.scalar(t)}
        if c < 0.75:
            t = t2 if r.random() < 0.85 else self.pick()
            return "dc", {"ty":t,"st":self.mutate(t, s2, 1) if t == t2 else self.val(t, 1)}
        how = r.choice(["patch", "patch", "asr"])
        if r.random() < 0.4: return how, {"ty":t2,"st":self.mutate(t2, s2, 1)}
        if r.random() < 0.8: return how, {"ty":"Value","st":self.mangle(self.tov(t2, self.mutate(t2, s2, 1)), deep=0.95)}
        t = self.related(t2); return how, {"ty":t,"st":self.val(t, 1)}
    def C04(self, n):
        for ty in self.spread(n):
            v = self.val(ty)
            if self.r.random() < 0.3: v = self.tov(ty, v); ty = "Value"
            self.reset(); self.new("a", ty, v); self.op("clone", r="a", to="b", how="clone_reflect")
            self.foc("insp", r="a", names=self.names_of(ty, v))
            for _ in range(5):
                route, t2, s2 = self.some_route(ty, v)
                how, d = self.some_write(t2, s2)
                self.foc("w", r="a", route=route, how=how, d=d)
    def C05(self, n):
        for ty in self.spread(n):
            v = self.val(ty)
            if self.r.random() < 0.35: v = self.tov(ty, v); ty = "Value"
            self.reset(); self.new("a", ty, v)
            for _ in range(5):
                p, t2, _ = self.walk(ty, v)
                if self.r.random() < 0.4: p = self.bend(p)
                self.foc("at", r="a", p=p, tys=self.some_types(t2, 2))
            for _ in range(2): self.some_gf("a", ty, v)
    def some_gf(self, reg, ty, v):
        r = self.r; nt = self.norm(ty, v); k = self.T[nt]["kind"]
        ks = self.kids(ty, v)
        on = k if k in ("struct", "tstruct", "tuple", "enum", "list", "array", "map") else "struct"
        if ty == "Value" and r.random() < 0.7: on = "value"
        t2 = "u8"
        kt, kv = None, None
        if ks and r.random() < 0.8:
            i = r.randrange(len(ks)); key, t2, _ = ks[i]
            if key["k"] == "f": kt, kv = r.choice(["str", "str", "String", "Val"]), scal("String", key["n"])
            elif key["k"] == "u": kt, kv = r.choice(["usize", "usize", "Val"]), scal("usize", key["u"])
            elif k == "map": kt, kv = "Val", key["v"]
            else: kt, kv = r.choice(["usize", "usize", "Val"]), scal("usize", i)
            if kv["k"] == "s" and kt == "Val" and kv["t"] in ("u8", "i32", "String", "usize") and r.random() < 0.6: kt = kv["t"]
            if kt == "String" and r.random() < 0.5: kt = "str"
        else:
            kt = r.choice(["str", "usize", "String", "u8", "i32", "Val"])
            kv = self.scalar({"str":"String","Val":r.choice(["usize", "String", "u8", "i64"])}.get(kt, kt))
            if kt == "usize": kv = scal("usize", r.randrange(0, 4))
        nm = bytes(kv["o"]).decode() if kv["k"] == "s" and kv["t"] == "String" else ""
        self.foc("gf", r=reg, on=on, key={"kt":kt,"v":kv,"name":nm}, tys=self.some_types(t2, 2))
    def C06(self, n):
        for ty in self.spread(n):
            v = self.val(ty); self.reset(); self.new("a", ty, v)
            for _ in range(4):
                p, t2, _ = self.walk(ty, v, variants=True)
                c = self.r.random()
                if c < 0.3: p = self.bend(p)
                self.foc("tat", t=ty, p=p, mk=self.mk); self.foc("at", r="a", p=p, tys=[])
            self.foc("tat", t=ty, p=self.static_path(ty), mk=self.mk)
            self.foc("tat", t=ty, p=self.static_path(ty), mk=self.mk)
    def static_path(self, ty, maxlen=7):
        """a path into a type, through any variant"""
        r = self.r; p = []
        while len(p) < maxlen:
            T = self.T[ty]; k = T["kind"]
            if T["dyn"] or k in ("scalar", "via", "opaque") or r.random() < 0.1: break
            if k == "enum":
                vs = [v for v in T["variants"]]
                if not vs: break
                v = r.choice(vs)
                if r.random() < 0.9: p.append({"k":"v","n":v["n"]})
                fs, named = v["fields"], v["vk"] == "struct"
            elif k in ("list", "array"): p.append({"k":"g","v":self.index_key(r.choice([0, 1, 2, 3, 100]))}); ty = T["elem"]; continue
            elif k == "map": p.append({"k":"g","v":self.dyn(2)}); ty = T["val"]; continue
            else: fs, named = T["fields"], k == "struct"
            if not fs: break
            i = r.randrange(len(fs)); f = fs[i]
            if named: p.append({"k":"f","n":f["n"]})
            else: p.append({"k":"u","u":i})
            if f["skip"] or f["t"] not in self.T: break
            ty = f["t"]
        if r.random() < 0.15: p = self.bend(p)
        return p
    def C07(self, n):
        for ty in self.spread(n):
            v = self.val(ty)
            dyn = self.r.random() < 0.25
            self.reset()
            if dyn: self.new("a", "Value", self.tov(ty, v))
            else: self.new("a", ty, v)
            srcs = []
            w = self.mutate(ty, v)
            srcs.append((ty, w))
            srcs.append(("Value", self.mangle(self.tov(ty, self.val(ty)), deep=self.r.choice([0.5, 0.95]))))
            srcs.append(("Value", self.mangle(self.mangle(self.tov(ty, w), deep=0.95), deep=0.95)))
            t2 = self.related(ty); srcs.append((t2, self.val(t2)))
            if self.r.random() < 0.2: srcs.append(("Value", self.dyn()))
            self.r.shuffle(srcs)
            for t, s in srcs:
                self.new("b", t, s); self.foc("patch", r="a", s="b"); self.foc("patch", r="a", s="b")
            if self.r.random() < 0.05: self.new("c", "ESkipV", self.hidden()); self.new("d", "ESkipV", self.r.choice([self.hidden(), self.val("ESkipV")])); self.foc("patch", r="c", s="d"); self.op("reset")
    def C08(self, n):
        for ty in self.spread(n):
            v = self.val(ty); self.reset(); self.new("a", ty, v)
            e = self.tov(ty, v)
            self.new("b", "Value", e); self.foc("eq", r="a", s="b"); self.foc("eq", r="b", s="b"); self.foc("eq", r="a", s="a")
            self.new("c", ty, self.mutate(ty, v)); self.foc("eq", r="a", s="c"); self.foc("eq", r="b", s="c")
            self.new("d", "Value", self.mangle(e, deep=self.r.choice([0.3, 0.95]))); self.foc("eq", r="a", s="d"); self.foc("eq", r="b", s="d")
            t2 = self.related(ty); self.new("e", t2, self.val(t2)); self.foc("eq", r="a", s="e")
            f = self.eq_other(ty, v)
            if f: self.new("f", f[0], f[1]); self.foc("eq", r="a", s="f"); self.foc("eq", r="b", s="f")
    def eq_other(self, ty, v):
        """the same content in another type, where the zoo has one"""
        k = self.T[ty]["kind"]
        if k == "array" and "Vec<" + self.T[ty]["elem"] + ">" in self.T: return "Vec<" + self.T[ty]["elem"] + ">", {"k":"list","f":v["f"]}
        if ty == "STwo": return "STwoR", {"k":"struct","f":[v["f"][1], v["f"][0]]}
        if ty == "SOpq": return "SOpqR", {"k":"struct","f":[v["f"][2], v["f"][1], v["f"][0]]}
        if k == "via": return self.T[ty]["scal"], v["s"]
        if ty == "SOne": return None
        return None
    def C09(self, n):
        for i in range(n):
            self.reset(); r = self.r
            ks = [None, None, "struct", "enum", "tuple", "tstruct", "list", "map"]
            k = r.choice(ks)
            x = self.dyn(0, k) if r.random() < 0.7 else self.tov(*(lambda t: (t, self.val(t)))(self.pick()))
            y = self.mangle(x, deep=r.choice([0.2, 0.9])); z = self.mangle(y, deep=r.choice([0.2, 0.9]))
            w = self.dyn(0, k)
            if r.random() < 0.4:
                t = r.choice(SCALARS); x, y, z = (copy.deepcopy(r.choice(POOL[t])) for _ in range(3))
                if r.random() < 0.3: x, y = ({"k":"list","f":[x]}, {"k":"list","f":[y]})
            for q, s in zip("abcd", (x, y, z, w)): self.new(q, "Value", s)
            for p, q in ("ab", "ba", "bc", "ac", "ad", "aa"): self.foc("cmp", r=p, s=q)
            if x["k"] in ("struct", "enum", "tuple", "tstruct") and y["k"] == x["k"]:
                t = self.norm("Value", x); self.new("e", t, x); self.new("f", t, y); self.foc("dcmp", r="e", s="f"); self.foc("dcmp", r="f", s="e"); self.foc("dcmp", r="e", s="e")
            if r.random() < 0.3:
                m = {"k":"map","m":self.entries("Value", [[copy.deepcopy(q), self.scalar("u8")] for q in (x, y, z, w)])}
                self.new("g", "Value", m)
                for q in (x, y, w): self.foc("mget", r="g", kd={"ty":"Value","st":q})
                self.foc("mins", r="g", kd={"ty":"Value","st":r.choice([x, y, z, self.mangle(x)])}, d={"ty":"u8","st":self.scalar("u8")}, to="h")
    def C10(self, n):
        for ty in self.spread(n, self.with_kind("list", "list", "array") + ["Vec<Value>"]):
            v = self.val(ty); T = self.T[ty]; r = self.r
            reg_ty = ty
            if T["kind"] == "list" and r.random() < 0.3: reg_ty, v = "Value", self.tov(ty, v)
            self.reset(); self.new("a", reg_ty, v); k = len(v["f"])
            for _ in range(9):
                c = r.random()
                if c < 0.3:
                    x = self.val(T["elem"], 1); d = {"ty":T["elem"],"st":x}
                    q = r.random()
                    if q < 0.4: d = {"ty":"Value","st":self.tov(T["elem"], x)}
                    elif q < 0.6: d = {"ty":"Value","st":self.mangle(self.tov(T["elem"], x))}
                    elif q < 0.7: t = self.related(T["elem"]); d = {"ty":t,"st":self.val(t, 1)}
                    self.foc("push", r="a", d=d); k += 1
                elif c < 0.45: self.foc("pop", r="a", to="b"); k = max(0, k-1)
                elif c < 0.6: self.foc("rem", r="a", i=r.choice([0, max(0, k-1), k, k+1, r.randrange(0, k+1), 2**20]), to="c"); k = max(0, k-1)
                elif c < 0.75: self.foc("insp", r="a", names=[])
                elif c < 0.85: self.foc("at", r="a", p=[{"k":"g","v":scal("usize", r.randrange(0, k+2))}], tys=[])
                elif c < 0.93: 
                    how, d = self.some_write(T["elem"] if T["elem"] != "Value" else "u8", self.val(T["elem"] if T["elem"] != "Value" else "u8", 1))
                    self.foc("w", r="a", route={"p":r.choice(["at", "it"]),"i":r.randrange(0, k+2)}, how=how, d=d)
                else:
                    t = r.choice([ty, ty, "Vec<u8>", "Vec<Value>"]); self.new("d", t, self.val(t)); self.foc("patch", r="a", s="d")
            self.foc("insp", r="a", names=[])
            if r.random() < 0.2: t = self.pick(); self.new("e", t, self.val(t)); self.foc("pop", r="e", to="f"); self.foc("push", r="e", d={"ty":"u8","st":self.scalar("u8")})
    def C11(self, n):
        for ty in self.spread(n, self.with_kind("map")):
            v = self.val(ty); T = self.T[ty]; r = self.r
            pool = [self.val(T["key"], 1) for _ in range(4)] + [e[0] for e in v["m"]]
            reg_ty = ty
            if r.random() < 0.25: reg_ty, v = "Value", self.tov(ty, v)
            self.reset(); self.new("a", reg_ty, v)
            def key():
                x = copy.deepcopy(r.choice(pool)); q = r.random()
                if q < 0.45: return {"ty":T["key"],"st":x}
                if q < 0.85: return {"ty":"Value","st":self.tov(T["key"], x)}
                if q < 0.95: return {"ty":"Value","st":self.mangle(self.tov(T["key"], x))}
                t = self.related(T["key"]); return {"ty":t,"st":self.val(t, 1)}
            for _ in range(10):
                c = r.random()
                if c < 0.35:
                    x = self.val(T["val"], 1); d = {"ty":T["val"],"st":x}; q = r.random()
                    if q < 0.3: d = {"ty":"Value","st":self.tov(T["val"], x)}
                    elif q < 0.45: d = {"ty":"Value","st":self.mangle(self.tov(T["val"], x))}
                    self.foc("mins", r="a", kd=key(), d=d, to="b")
                elif c < 0.5: self.foc("mrem", r="a", kd=key(), to="c")
                elif c < 0.7: self.foc("mget", r="a", kd=key())
                elif c < 0.8: self.foc("insp", r="a", names=[])
                elif c < 0.9:
                    t2 = T["val"] if T["val"] != "Value" else "u8"
                    how, d = self.some_write(t2, self.val(t2, 1))
                    self.foc("w", r="a", route=r.choice([{"p":"mget","kd":key()}, {"p":"it","i":r.randrange(0, 4)}]), how=how, d=d)
                else: self.new("d", ty, self.val(ty)); self.foc("patch", r="a", s="d")
            self.foc("insp", r="a", names=[])
            if r.random() < 0.2: t = self.pick(); self.new("e", t, self.val(t)); self.foc("mget", r="e", kd=key()); self.foc("mrem", r="e", kd=key(), to="f")
    def C12(self, n):
        ts = self.spread(n, self.order)
        for ty in ts:
            self.reset(); self.foc("desc", t=ty, mk=self.mk)
            if ty in NOVAL: continue
            self.new("a", ty, self.val(ty)); self.foc("vdesc", r="a", mk=self.mk)
            self.foc("desc", t=ty, mk=self.mk)
            self.foc("tat", t=ty, p=self.static_path(ty), mk=self.mk)
    def C14(self, n):
        for ty in self.spread(n, self.order):
            self.reset(); self.foc("dflt", t=ty)
            for _ in range(3): self.foc("tat", t=ty, p=self.static_path(ty), mk=self.mk)
    def C15(self, n):
        for ty in self.spread(n):
            self.reset(); self.new("a", ty, self.val(ty)); self.foc("visit", r="a", fail=-1)
            for _ in range(2): self.foc("visit", r="a", fail=self.r.choice([0, 1, 2, 3, 5, 9]))
    def json_meta(self, ty):
        """no metadata that JSON cannot write (non-finite floats, ...) in the types a descriptor mentions"""
        seen, todo = set(), [ty]
        while todo:
            t = todo.pop()
            if t in seen: continue
            seen.add(t); T = self.T[t]
            for o in [T] + T["variants"]:
                for x in [o] + o["fields"]:
                    if not all(self.json_ok(m[1]) for m in x["meta"]): return False
                todo += [f["t"] for f in o["fields"] if not f["skip"]]
            todo += [T[k] for k in ("elem", "key", "val") if T.get(k)]
        return True
    def json_ok(self, x):
        k = x["k"]
        if k == "s": return not (x["t"] in ("f32", "f64") and x["v"] in ("NaN", "inf", "-inf"))
        if k == "map": return not x["m"]
        return all(self.json_ok(f) for f in x["f"])
    def C16(self, n):
        r = self.r
        fmts = self.fmts
        for i, ty in enumerate(self.spread(n)):
            self.reset()
            e = self.tov(ty, self.val(ty)) if r.random() < 0.6 else self.dyn()
            self.new("a", "Value", e)
            for f in fmts:
                if f != "json" or self.json_ok(e): self.foc("ser", r="a", fmt=f)
            t = r.choice(SCALARS); s = self.scalar(t)
            for f in fmts:
                if f != "json" or self.json_ok(s): self.foc("sers", d={"ty":t,"st":s}, fmt=f)
            p = self.static_path(ty)
            for f in fmts:
                if f != "json" or all(k["k"] != "g" or self.json_ok(k["v"]) for k in p): self.foc("serp", p=p, fmt=f)
            if i % 3 == 0:
                ty, f = self.order[(i // 3 * 7 + self.seed7) % len(self.order)], r.choice(fmts)
                if f != "json" or self.json_meta(ty): self.foc("serd", t=ty, fmt=f, mk=self.mk)
    seed7 = 0
    fmts = ["json", "bincode", "cbor", "speedy"]
    def C17(self, n):
        for ty in self.spread(n):
            v = self.val(ty)
            if self.r.random() < 0.25: v = self.tov(ty, v); ty = "Value"
            self.reset(); self.new("a", ty, v)
            hows = ["clone_reflect", "to_owned", "owned"]; self.r.shuffle(hows)
            self.foc("clone", r="a", to="b", how=hows[0]); self.foc("clone", r="b", to="c", how=hows[1]); self.foc("clone", r="a", to="d", how=hows[2])
            for reg in "abd":
                route, t2, s2 = self.some_route(ty, v); how, d = self.some_write(t2, s2); self.foc("w", r=reg, route=route, how=how, d=d)
            self.foc("insp", r="c", names=[])
            self.foc("clone", r="a", to="e", how="clone_reflect")
    def C18(self, n):
        for ty in self.spread(n):
            v = self.val(ty); e = self.tov(ty, v); self.reset(); self.new("a", ty, v); self.foc("tov", r="a", to="b"); self.foc("tov", r="b", to="c")
            nm = self.names_of(ty, v)
            for reg in "ab": self.foc("insp", r=reg, names=nm)
            for _ in range(3):
                p, _, _ = self.walk(ty, v)
                if self.r.random() < 0.3: p = self.bend(p)
                for reg in "ab": self.foc("at", r=reg, p=p, tys=[])
            for _ in range(3):
                route, t2, s2 = self.some_route(ty, v)
                if route["p"] == "mget": route["kd"] = {"ty":"Value","st":self.tov(route["kd"]["ty"], route["kd"]["st"])}
                x = self.tov(t2, self.mutate(t2, s2, 1))
                how = "scal" if x["k"] == "s" and self.r.random() < 0.4 else "patch"
                d = {"ty":x["t"],"st":x} if how == "scal" else {"ty":"Value","st":x}
                for reg in "ab": self.foc("w", r=reg, route=route, how=how, d=d)
            self.foc("tov", r="a", to="d"); self.foc("tov", r="b", to="e")
            self.foc("conv", r="b", boxed=False, tys=self.some_types(ty, 2))
    def some_key(self):
        r = self.r; c = r.random()
        if c < 0.3: return {"k":"f","n":r.choice(NAMES)}
        if c < 0.5: return {"k":"u","u":r.choice([0, 1, 2, 10, 2**20])}
        if c < 0.7: return {"k":"v","n":r.choice(VARS)}
        return {"k":"g","v":self.disp_val()}
    def disp_val(self):
        r = self.r
        if r.random() < 0.8: return self.scalar(r.choice(SCALARS))
        return {"k":"list","f":[self.scalar(r.choice(SCALARS)) for _ in range(r.randrange(0, 3))]}
    def C19(self, n):
        r = self.r
        self.reset()
        for i, keys in enumerate(MACRO_PATHS): self.foc("kpm", i=i, keys=keys)
        for _ in range(n):
            calls = []; keys = []
            for _ in range(r.randrange(0, 8)):
                c = r.choice(["field", "fieldS", "fieldR", "fieldu", "pfield", "pfieldu", "get", "pget", "variant", "pvariant", "push", "push", "pop", "extend", "collect", "from", "fn_field", "fn_fieldu", "fn_get", "fn_variant", "k_named", "k_num", "k_get", "k_variant", "clone", "rt"])
                if c in ("collect", "from") and calls and r.random() < 0.6: c = "push"
                if c.startswith("fn_") and calls and r.random() < 0.8: c = {"fn_field":"field","fn_fieldu":"fieldu","fn_get":"get","fn_variant":"variant"}[c]
                d = {"c":c}
                if c in ("field", "fieldS", "fieldR", "pfield", "fn_field", "k_named"): d["n"] = r.choice(NAMES)
                if c in ("fieldu", "pfieldu", "fn_fieldu", "k_num"): d["u"] = r.choice([0, 1, 2, 10, 2**20])
                if c in ("get", "pget", "fn_get", "k_get"): d["v"] = self.disp_val()
                if c in ("variant", "pvariant", "fn_variant", "k_variant"): d["n"] = r.choice(VARS)
                if c in ("push", "from"): d["key"] = self.some_key()
                if c in ("extend", "collect"): d["keys"] = [self.some_key() for _ in range(r.randrange(0, 4))]
                calls.append(d)
            # another path: mostly near the one built
            p = []
            for d in calls:
                c = d["c"]
                k = {"k":"f","n":d.get("n")} if "field" in c and "n" in d or c == "k_named" else {"k":"u","u":d["u"]} if "u" in d else {"k":"g","v":d["v"]} if "v" in d else {"k":"v","n":d["n"]} if "n" in d else None
                if c == "pop": p = p[:-1]
                elif c == "push": p = p + [d["key"]]
                elif c == "from": p = [d["key"]]
                elif c == "extend": p = p + d["keys"]
                elif c == "collect": p = list(d["keys"])
                elif c in ("clone", "rt"): pass
                elif c.startswith("fn_"): p = [k]
                else: p = p + [k]
            other = copy.deepcopy(p)
            if r.random() < 0.5 and other: i = r.randrange(len(other)); other[i] = self.some_key()
            elif r.random() < 0.2: other = other[:-1]
            self.foc("kp", calls=calls, other=other)
    def C20(self, n):
        for ty in self.spread(n):
            v = self.val(ty)
            if self.r.random() < 0.3: v = self.tov(ty, v); ty = "Value"
            self.reset(); self.new("a", ty, v)
            for b in (False, True): self.foc("conv", r="a", boxed=b, tys=self.some_types(self.norm(ty, v), 6))
    def dbg_types(self):
        return [t for t in self.vtypes if self.T[t]["own"] or not self.T[t]["hasdyn"]]
    def C21(self, n):
        for ty in self.spread(n, self.dbg_types()):
            self.reset(); v = self.val(ty); self.new("a", ty, v); self.foc("dbg", r="a")
            if self.r.random() < 0.3:
                e = self.tov(ty, v)
                self.new("b", self.norm("Value", e) if e["k"] in ("struct", "enum", "tuple", "tstruct") else "Value", e)
                if e["k"] in ("struct", "enum", "tstruct", "s"): self.foc("dbg", r="b")
    def C22(self, n):
        r = self.r
        for ty in self.order: self.reset(); self.foc("pp", t=ty)
        self.reset()
        for _ in range(n):
            e = self.name_expr()
            self.foc("simple", name=full_name(e), e=e)
        for i, l in enumerate(LOCAL): self.foc("ppl", i=i, **l)
    def name_expr(self, depth=0):
        r = self.r; c = r.random()
        mods = ["", "core::option::", "alloc::string::", "my_crate::_::", "a::b::c::", "_private::x::", "my::_::_::inner::", "crate_::r#mod::"]
        idents = ["Foo", "_Foo", "Option", "String", "Foo_Bar", "__x", "A1", "é", "Vec", "Box", "closure", "_0", "union", "auto"]
        mods += ["<u8 as my::Tr>::go::", "a::{{closure}}::", "<alloc::vec::Vec<_> as a::Tr<u8>>::go::{{closure}}::{{closure}}::", "m::G<_>::f::", "<(u8, [u16; 3]) as t::Tr>::x::", "a::_::{{closure}}::_::_::"]
        if depth > 3 or c < 0.35:
            return {"k":"p","m":r.choice(mods),"h":r.choice(idents),"a":[],"n":0} if r.random() < 0.7 else {"k":"p","m":"","h":r.choice(["u8", "str", "bool", "i128"]),"a":[],"n":0}
        if c < 0.65:
            a = [self.name_expr(depth+1) for _ in range(r.randrange(1, 4))]
            if r.random() < 0.1: a.append({"k":"p","m":r.choice(["i32::", "u128::"]),"h":r.choice(["MIN", "MAX"]),"a":[],"n":0})
            if r.random() < 0.3: a.append({"k":"c","m":"","h":r.choice(["3", "true", "false", "17", "-5", "0", "340282366920938463463374607431768211454", "-170141183460469231731687303715884105727", "'a'", "'\\''", "'\"'", "'\\n'", "'é'", "'\\u{1}'", "'>'", "' '"]),"a":[],"n":0})
            if r.random() < 0.15: a = [LT] * r.randrange(1, 3) + (a if r.random() < 0.6 else [])
            return {"k":"p","m":r.choice(mods),"h":r.choice(idents),"a":a,"n":0}
        if c < 0.8: return {"k":"t","m":"","h":"","a":[self.name_expr(depth+1) for _ in range(r.randrange(0, 4))],"n":0}
        if c < 0.9: return {"k":"a","m":"","h":"","a":[self.name_expr(depth+1)],"n":r.choice([0, 1, 3, 1024, 2147483647])}
        return {"k":r.choice("rm"),"m":"","h":"","a":[self.name_expr(depth+1)],"n":0}
    def C23(self, n):
        r = self.r
        for _ in range(n):
            self.reset()
            what = r.choice(["struct", "struct", "structit", "tuple", "tupleit", "tstruct", "tstructit", "estruct", "etuple", "eunit"])
            calls = []
            ns = r.sample(NAMES, 4)
            for _ in range(r.randrange(0, 7)):
                d = {"c":"set","n":r.choice(ns),"v":self.dyn(2)}
                if what in ("struct",): d["c"] = r.choice(["set", "setS", "with"])
                elif what in ("tuple", "tstruct"): d["c"] = r.choice(["set", "with"])
                elif what[0] == "e":
                    d["late"] = what == "eunit" or r.random() < 0.4
                    d["c"] = r.choice(["set", "with", "push", "pwith"]) if d["late"] else r.choice(["set", "with"])
                calls.append(d)
            # late calls come last
            calls.sort(key=lambda d: d.get("late", False))
            self.foc("build", r="a", what=what, calls=calls, cap=r.choice([0, 0, 1, 10]), name=r.choice(VARS))
            self.foc("insp", r="a", names=ns + ["no such field"])
            self.foc("tov", r="a", to="b"); self.foc("eq", r="a", s="b")
            t = {"struct":"StructValue","tuple":"TupleValue","tstruc":"TupleStructValue"}.get(what[:6].replace("tuplei", "tuple"), "EnumValue")
            self.foc("clone", r="a", to="c", how="clone_reflect")

def full_name(e):
    a = [full_name(x) for x in e["a"]]
    if e["k"] == "p": return e["m"] + e["h"] + ("<" + ", ".join(a) + ">" if a else "")
    if e["k"] == "t": return "(" + ", ".join(a) + (",)" if len(a) == 1 else ")")
    if e["k"] == "a": return "[%s; %d]" % (a[0], e["n"])
    if e["k"] == "r": return "&" + a[0]
    if e["k"] == "m": return "&mut " + a[0]
    return e["h"]

LT = {"k":"l","m":"","h":"'_","a":[],"n":0}
# the types of harness/src/local.rs: names (as expressions) and fields
def _p(m, h, *a): return {"k":"p","m":m,"h":h,"a":list(a),"n":0}
def _c(h): return {"k":"c","m":"","h":h,"a":[],"n":0}
def _o(h): return {"k":"o","m":"","h":h,"a":[],"n":0}      # no simplified form
def _x(k, *a, n=0): return {"k":k,"m":"","h":"","a":list(a),"n":n}
def _local():
    PR, out, u8 = "mm_harness::local::", [], _p("", "u8")
    std = {"Vec":"alloc::vec::", "Option":"core::option::"}
    def F(fs): return [{"n":n, "e":e} for n, e in fs]
    def S(e, *fs): out.append({"e":e,"kind":"struct","f":F(fs),"vs":[]})
    def T(e, *fs): out.append({"e":e,"kind":"tstruct","f":F([("", x) for x in fs]),"vs":[]})
    def E(e, *vs): out.append({"e":e,"kind":"enum","f":[],"vs":[{"n":n,"vk":vk,"f":F(fs)} for n, vk, fs in vs]})
    def H(e): S(_p(PR, "H", e), ("a", e), ("b", _p("alloc::vec::", "Vec", e)), ("c", _p("core::option::", "Option", _x("t", e, u8))))
    cc = lambda c: _p(PR, "CC", _c(c)); ci = lambda c: _p(PR, "CI", c); cu = lambda c: _p(PR, "CU", _c(c)); ph = lambda e: _p(PR, "PH", e)
    for c in ["'a'", "'\\''", "'\"'", "'\\n'", "'\\\\'", "'é'", "'\\u{1}'", "'\\0'", "' '", "'>'"]: T(cc(c), u8)
    for c in [_c("-5"), _c("0"), _p("i64::", "MIN"), _c("9223372036854775806")]: T(ci(c), u8)
    for c in ["1180591620717411303424", "340282366920938463463374607431768211454"]: T(cu(c), u8)
    for b, n in [("true", 3), ("false", 0)]: S(_p(PR, "CB", _c(b), _c(str(n))), ("a", _x("a", u8, n=n)))
    H(ci(_c("-5"))); H(cc("'a'"))
    fn = _o("fn()"); sl = _x("r", _o("[u8]"))
    for e in [_o("fn(u8) -> u8"), fn, sl, _x("r", _p("", "str")), _x("t"), _x("t", u8), _x("a", u8, n=3), _p("core::option::", "Option", _o("fn() -> " + PR + "CC<'a'>")),
              _o("&dyn core::fmt::Debug + core::marker::Send + core::marker::Sync"), _p("core::marker::", "PhantomData", _x("t", u8, cc("'a'"))), _x("r", _x("r", u8)),
              _p(PR, "L", LT), _p(PR, "L2", LT, LT, _p("alloc::borrow::", "Cow", LT, _p("", "str"))), _p(PR, "L3", LT, _c("3")), _x("t", _p(PR, "L", LT), u8)]: S(ph(e), ("x", u8))
    H(ph(sl))
    for e in [u8, ph(fn)]:
        E(_p(PR, "HE", _c("'x'"), e), ("A", "tuple", [("", e), ("", cc("'x'"))]), ("B", "struct", [("a", _x("a", cc("'x'"), n=2)), ("b", ph(_o("fn(" + PR + "CC<'x'>) -> u8")))]), ("C", "unit", []))
    x = _o(PR + "mod::_priv::_X"); S(x, ("a", u8)); H(x)    # a keyword in the path: no simplified form
    m = "<u8 as " + PR + "Tr>::go::"; i = _p(m, "InImpl"); S(i, ("a", u8))
    E(_p(m, "InImplE"), ("A", "tuple", [("", i)]), ("B", "struct", [("a", _p("alloc::vec::", "Vec", i))])); H(i)
    i = _p("<alloc::vec::Vec<_> as " + PR + "Tr>::go::", "InVec"); T(i, u8); H(i)
    i = _p("<(u8, [u16; 3]) as " + PR + "Tr>::go::{{closure}}::", "InTuple"); T(i, u8, _p("", "u16")); H(i)
    i = _p(PR + "G<_>::go::", "InGen"); S(i, ("a", u8)); H(i)
    f = _p(PR + "outer::", "InFn"); S(f, ("a", u8)); c1 = _p(PR + "outer::{{closure}}::", "InClosure"); S(c1, ("a", f))
    c2 = _p(PR + "outer::{{closure}}::{{closure}}::", "InClosure2"); T(c2, c1); H(c2)
    return out
LOCAL = _local()

f_ = lambda n: {"k":"f","n":n}
u_ = lambda u: {"k":"u","u":u}
v_ = lambda n: {"k":"v","n":n}
g_ = lambda t, x: {"k":"g","v":scal(t, x)}
# what each key_path! invocation of harness/src/macros.rs must stand for
MACRO_PATHS = [
    [], [f_("a")], [u_(0)], [g_("i32", 0)], [g_("String", "k")], [v_("V")], [f_("a"), f_("b"), f_("c")],
    [f_("a"), v_("Some"), u_(0), g_("i32", 1), g_("String", "x"), f_("b")], [v_("A"), v_("B")], [u_(0), u_(1)],
    [g_("u8", 1), g_("i64", 2)], [f_("lit"), f_("x y"), u_(2)], [g_("usize", 3)],
    [f_("employer"), v_("Some"), u_(0), f_("countries"), g_("i32", 0), f_("name")], [v_("Some"), f_("a"), g_("bool", True)],
]
