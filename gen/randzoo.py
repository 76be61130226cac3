"""Random type definitions by seed: arrangements of attributes, kinds and field types the fixed zoo does not have."""
import random
from zoo import *

FNAMES = ["a", "b", "x", "y", "name", "index", "value", "r#type", "r#match", "self_", "other", "fields", "field_at", "out", "Z", "_p", "__x", "é", "vec", "reflect", "this", "enum_", "patch", "n", "v", "iter", "graph", "r#fn", "struct_", "len", "map", "kind", "elem0", "field_0", "i"]
VNAMES = ["A", "B", "None", "Some", "Ok", "Err", "Value", "Unit", "Reflect", "Option", "String", "Vec", "Box", "Tuple", "Struct", "Enum", "U", "T", "X", "Y", "É", "_V", "V0", "Node", "Debug", "Clone", "Kind"]
KEYT = ["u8", "i8", "i32", "u64", "u128", "String", "bool", "char", "NonZeroU8", "(u8, String)", "EKey", "SKey", "Option<u8>", "Vec<u8>", "usize"]
SKIPT = ["u8", "String", "bool", "i64", "Vec<u8>", "Option<u8>", "NoRefl", "f32", "Vec<String>"]
LEAFT = SCALARS + ["u8", "u8", "String", "i32", "bool"]
ZOOT = ["STwo", "SSkip", "EMix", "EUnit", "ESkipF", "ESkipV", "TOne", "TSkip", "Unit0", "Empty", "TZero", "SNames", "SFrw", "TFrw", "SMeta", "EMeta", "RList", "RTree", "ERec", "RTup", "SArr", "SKey", "EKey", "Gen<u8>", "Gen2<STwo, u8>", "EGen<String>", "TGen<u8>", "SAllSkip", "SNest", "SVia", "EMut", "MutA", "MutB", "EMutual", "SFrOut", "EFrOut", "TGenI<u8>"]
NOCLONE = {"TFrOut", "SClone", "SCloneIn", "EClone", "TClone", "SBoth"}
NODEBUG = {"ECrate", "SDebug", "SBoth", "SDebug2", "TDebug", "EDebug"}
RARE = ["Value", "Vec<Value>", "Opq", "Duration", "NonZeroU16", "NonZeroI64", "NonZeroU128", "Range<i32>", "RangeTo<u8>", "Result<u8, String>", "()", "StructValue", "EnumValue", "TupleValue"]

class Rand:
    def __init__(s, seed, n):
        s.r = random.Random("zoo/%s" % seed)
        s.defs = {}; s.clone = {}; s.debug = {}
        s.names = ["X%d" % i for i in range(n)]
        for nm in s.names: s.define(nm)
        s.types = []
        for nm, d in s.defs.items():
            if d.params: s.types += ["%s<%s>" % (nm, ", ".join(s.r.choice(["u8", "String", "STwo", "Vec<u8>", "EMix", "Option<i32>"]) for _ in d.params)) for _ in range(2)]
        for nm in s.r.sample([n for n in s.names if not s.defs[n].params], min(4, n // 2)):
            s.types.append(s.r.choice(["Vec<%s>", "Option<%s>", "[%s; 2]", "BTreeMap<u8, %s>", "Vec<Option<%s>>", "Vec<Box<%s>>"] + ["(%s, u8)"] * s.clone[nm]) % nm)
    def ok(s, t, d):
        """may a field of a type that derives Clone / Debug itself have this type?"""
        ids = idents(parse(t))
        if any(i in NOCLONE or s.clone.get(i) is False for i in in_tuples(parse(t))): return False       # tuples are Reflect only with Clone parts
        if d["clone"] and any(i in NOCLONE or s.clone.get(i) is False for i in ids): return False
        if d["debug"] and any(i in NODEBUG or s.debug.get(i) is False for i in ids): return False
        return True
    def ty(s, nm, d, depth=0, rec=True):
        r = s.r
        while True:
            t = s.ty1(nm, d, depth, rec)
            if s.ok(t, d): return t
    def ty1(s, nm, d, depth, rec):
        r = s.r; c = r.random()
        if d["params"] and c < 0.35: return r.choice(d["params"] + ["Vec<%s>" % d["params"][0], "Option<%s>" % d["params"][0], "[%s; 2]" % d["params"][0]])
        if depth == 0 and rec and c < 0.08 and not d["params"]: return r.choice(["Vec<%s>", "Option<Box<%s>>", "BTreeMap<u8, %s>"]) % nm
        if c < 0.42 or depth > 2: return r.choice(LEAFT)
        sub = lambda: s.ty(nm, d, depth + 1, False)
        if c < 0.5: return "Vec<%s>" % sub()
        if c < 0.58: return "Option<%s>" % sub()
        if c < 0.63: t = sub(); return t if t.startswith("Box<Box<") else "Box<%s>" % t
        if c < 0.68: return "[%s; %d]" % (sub(), r.choice([0, 1, 2, 2, 3]))
        if c < 0.73: return "BTreeMap<%s, %s>" % (r.choice(KEYT), sub())
        if c < 0.78: return "(%s)" % ", ".join([sub() for _ in range(r.choice([1, 2, 3]))] + [""] ).strip().replace(", )", ",)")
        if c < 0.88 and s.defs:
            o = r.choice([n for n in s.defs])
            p = s.defs[o].params
            return o + ("<%s>" % ", ".join(r.choice(["u8", "String"]) for _ in p) if p else "")
        if c < 0.95: return r.choice(ZOOT + list(NOCLONE) + list(NODEBUG))
        return r.choice(RARE)
    def field(s, nm, d, n, pos):
        r = s.r
        kw = dict(meta=s.meta(0.12), docs=s.docs(0.15))
        if r.random() < 0.18:
            t = r.choice([x for x in SKIPT])
            return F(n, t, skip=True, docs=kw["docs"], meta=kw["meta"], frw=r.choice(["", "", "", "or7", "tag"]))
        c = r.random()
        if c < 0.06: return F(n, "u8", frw="or7", **kw)
        if c < 0.10: return F(n, "String", frw="tag", **kw)
        return F(n, s.ty(nm, d, 0, pos), **kw)
    def meta(s, p):
        r = s.r
        if r.random() > p: return []
        return [r.choice([m_int(k, r.randrange(-9, 100)), m_str(k, r.choice(["m", "", "ü"])), m_bool(k, r.random() < 0.5), m_ts(k, r.randrange(0, 9))]) for k in r.sample(["k1", "k2", "unit", "min", "zz", "why"], r.choice([1, 1, 2, 3]))]
    def docs(s, p): return [] if s.r.random() > p else s.r.choice([[" One line."], [" Two", " lines \"quoted\"."], [""], [" a", "", " b"]])
    def count(s): return s.r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 12])
    def fields(s, nm, d, named, rec):
        n = s.count()
        ns = s.r.sample(FNAMES, n) if named else [str(i) for i in range(n)]
        return [s.field(nm, d, x, rec) for x in ns]
    def define(s, nm):
        r = s.r; kind = r.choice(["struct", "struct", "tstruct", "enum", "enum"])
        d = {"clone": r.random() < 0.8, "debug": r.random() < 0.8, "params": ["T"] if r.random() < 0.15 else []}
        d["clone"] |= bool(d["params"])
        kw = dict(clone=d["clone"], debug=d["debug"], meta=s.meta(0.3), docs=s.docs(0.3), params=d["params"])
        if kind == "struct": x = Def(nm, "struct", s.fields(nm, d, True, True), **kw)
        elif kind == "tstruct": x = Def(nm, "tstruct", s.fields(nm, d, False, True), **kw)
        else:
            vs_ = []
            shown = False
            for v in r.sample(VNAMES, r.choice([1, 2, 2, 3, 4, 5])):
                vk = r.choice(["unit", "tuple", "struct"]); skip = r.random() < 0.15
                # the first visible variant is what a default value is made of: it must not contain the type itself
                f = [] if vk == "unit" else [F(str(i) if vk == "tuple" else n, t) for i, (n, t) in enumerate(zip(r.sample(FNAMES, 2), r.sample(["u8", "String"], 2)))][:r.choice([1, 2])] if skip else s.fields(nm, d, vk == "struct", shown)
                vs_.append(V(v, vk, f, skip=skip, meta=[] if skip else s.meta(0.2), docs=s.docs(0.2)))
                shown |= not skip
            if not shown: vs_.append(vu("Last"))
            x = Def(nm, "enum", variants=vs_, **kw)
        x.krate, x.inline = r.random() < 0.25, r.random() < 0.5
        # a parameter must be used
        if d["params"] and "T" not in [i for f in list(x.fields) + [f for v in x.variants for f in v.fields] for i in idents(f.t)]:
            x.params = []
        s.defs[nm] = x; s.clone[nm] = d["clone"]; s.debug[nm] = d["debug"]

def idents(e):
    if e[0] == "p": return [e[1]] + [i for a in e[2] for i in idents(a)]
    if e[0] == "t": return [i for a in e[1] for i in idents(a)]
    return idents(e[1])

def in_tuples(e):
    if e[0] == "t": return idents(e)
    return [i for a in (e[2] if e[0] == "p" else [e[1]]) for i in in_tuples(a)]

def random_types(seed, n=10):
    x = Rand(seed, n)
    return x.defs, x.types
if __name__ == "__main__":
    import sys
    d, t = random_types(sys.argv[1])
    print("\n".join(gen_rust(d))); print(t)
