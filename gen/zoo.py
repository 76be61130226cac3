"""The zoo: every reflected type the harness knows, described once.

From this description come (a) the Rust definitions with their native (non-reflective)
abstraction functions, and (b) the type table TT the TLA+ specification reads.
"""
import json, struct as st, sys, random

# ---------------------------------------------------------------- type expressions
# ("p", name, [args]) | ("t", [elems]) | ("a", elem, n)

def parse(s):
    pos = 0
    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] == ' ': pos += 1
    def ty():
        nonlocal pos
        ws()
        if s[pos] == '(':
            pos += 1; el = []
            while True:
                ws()
                if s[pos] == ')': pos += 1; return ("t", el)
                el.append(ty()); ws()
                if s[pos] == ',': pos += 1
        if s[pos] == '[':
            pos += 1; e = ty(); ws(); assert s[pos] == ';'; pos += 1; ws()
            j = pos
            while s[pos].isalnum(): pos += 1
            n = int(s[j:pos]) if s[j:pos].isdigit() else s[j:pos]; ws(); assert s[pos] == ']'; pos += 1
            return ("a", e, n)
        j = pos
        while pos < len(s) and (s[pos].isalnum() or s[pos] == '_'): pos += 1
        name = s[j:pos]; assert name, (s, pos)
        args = []
        ws()
        if pos < len(s) and s[pos] == '<':
            pos += 1
            while True:
                ws()
                if s[pos] == '>': pos += 1; break
                args.append(ty()); ws()
                if s[pos] == ',': pos += 1
        return ("p", name, args)
    r = ty(); ws(); assert pos == len(s), s
    return r

def show(e):
    if e[0] == "p":
        return e[1] + ("<" + ", ".join(map(show, e[2])) + ">" if e[2] else "")
    if e[0] == "t":
        return "(" + ", ".join(map(show, e[1])) + ("," if len(e[1]) == 1 else "") + ")"
    return "[%s; %s]" % (show(e[1]), e[2])

SCALARS = ["usize","u8","u16","u32","u64","u128","i8","i16","i32","i64","i128","bool","char","f32","f64","String"]
NONZERO = {"NonZeroUsize":"usize","NonZeroU8":"u8","NonZeroU16":"u16","NonZeroU32":"u32","NonZeroU64":"u64","NonZeroU128":"u128",
           "NonZeroI8":"i8","NonZeroI16":"i16","NonZeroI32":"i32","NonZeroI64":"i64","NonZeroI128":"i128"}

# ---------------------------------------------------------------- scalar nodes
W = {"usize":64,"u8":8,"u16":16,"u32":32,"u64":64,"u128":128,"i8":8,"i16":16,"i32":32,"i64":64,"i128":128}
def chunks(x, w):
    n = max(1, w//16)
    return [(x >> (16*(n-1-i))) & 0xffff for i in range(n)]
def rust_debug_str(s):
    out = '"'
    for ch in s:
        out += {'"':'\\"','\\':'\\\\','\n':'\\n','\t':'\\t','\r':'\\r','\0':'\\0'}.get(ch, ch)
    return out + '"'
def rust_debug_char(ch):
    return "'" + {"'":"\\'",'\\':'\\\\','\n':'\\n','\t':'\\t','\r':'\\r','\0':'\\0'}.get(ch, ch) + "'"
def scal(t, x):
    if t in W:
        w = W[t]; x = int(x)
        off = x + (1 << (w-1)) if t[0] == 'i' else x
        assert 0 <= off < 1 << w, (t, x)
        i = min(x, 2**30) if 0 <= x < 2**64 else -1
        return {"k":"s","t":t,"v":str(x),"o":chunks(off, w),"i":i}
    if t == "bool": return {"k":"s","t":t,"v":"true" if x else "false","o":[1 if x else 0],"i":-1}
    if t == "char": return {"k":"s","t":t,"v":rust_debug_char(x),"o":[ord(x)],"i":-1}
    if t == "String": return {"k":"s","t":t,"v":rust_debug_str(x),"o":list(x.encode()),"i":-1}
    # floats are given as Rust debug text
    w = 32 if t == "f32" else 64
    if x == "NaN": o = [65536]*(w//16)
    else:
        f = float(x)
        if t == "f32": b = st.unpack(">I", st.pack(">f", f))[0]
        else: b = st.unpack(">Q", st.pack(">d", f))[0]
        if f == 0.0: b = 0
        b = (~b) & ((1 << w)-1) if b >> (w-1) else b | (1 << (w-1))
        o = chunks(b, w)
    return {"k":"s","t":t,"v":x,"o":o,"i":-1}

POOL = {}
for t, w in W.items():
    if t[0] == 'i': vals = [0, 1, -1, 2, 7, -(1 << (w-1)), (1 << (w-1))-1]
    else: vals = [0, 1, 2, 3, 7, (1 << w)-1]
    if w >= 16: vals += [256]
    if w >= 32: vals += [65536, 70000]
    if w >= 64: vals += [1 << 32, (1 << 32)+1]
    if w >= 128: vals += [1 << 64, (1 << 64)+1]
    POOL[t] = [scal(t, v) for v in vals]
POOL["bool"] = [scal("bool", False), scal("bool", True)]
POOL["char"] = [scal("char", c) for c in ["a", "b", "\0", "é", "\U0001F600", "'", "\n", "\uf900"]]
POOL["String"] = [scal("String", s) for s in ["", "a", "b", "ab", "hello", "é", "\U0001F600x", "quo\"te", "new\nline", "a b", "A", "0", "::U", "\\"]]
POOL["f32"] = [scal("f32", v) for v in ["0.0","-0.0","1.0","-1.5","0.1","NaN","inf","-inf","3.4028235e38","1.1754944e-38","1e-45","16777216.0","2.0"]]
POOL["f64"] = [scal("f64", v) for v in ["0.0","-0.0","1.0","-1.5","0.1","NaN","inf","-inf","1.7976931348623157e308","2.2250738585072014e-308","5e-324","9007199254740992.0","2.0"]]
ZERO = {t: scal(t, 0) for t in W}
ZERO.update({"bool":scal("bool",False),"char":scal("char","\0"),"f32":scal("f32","0.0"),"f64":scal("f64","0.0"),"String":scal("String","")})

# ---------------------------------------------------------------- definitions
class F:
    def __init__(s, n, t, skip=False, frw="", meta=None, docs=None):
        s.n, s.t, s.skip, s.frw, s.meta, s.docs = n, parse(t), skip, frw, meta or [], docs or []
class V:
    def __init__(s, n, kind, fields=(), skip=False, meta=None, docs=None):
        s.n, s.kind, s.fields, s.skip, s.meta, s.docs = n, kind, list(fields), skip, meta or [], docs or []
class Def:
    def __init__(s, n, kind, fields=(), variants=(), params=(), clone=True, debug=True, fr=True, ordd=False, meta=None, docs=None, unit=False, cfg=None, feat=None, dflt=False, krate=False, inline=False, consts=(), own=False):
        s.krate, s.inline, s.consts, s.own = krate, inline, list(consts), own
        s.n, s.kind, s.fields, s.variants, s.params = n, kind, list(fields), list(variants), list(params)
        s.clone, s.debug, s.fr, s.ord, s.meta, s.docs, s.unit, s.cfg, s.dflt = clone, debug, fr, ordd, meta or [], docs or [], unit, cfg, dflt

DEFS = {}
def S(n, fields, **kw): DEFS[n] = Def(n, "struct", [F(*f[:2], **(f[2] if len(f) > 2 else {})) for f in fields], **kw)
def T(n, fields, **kw): DEFS[n] = Def(n, "tstruct", [F(str(i), f[0], **(f[1] if len(f) > 1 else {})) for i, f in enumerate(fields)], **kw)
def E(n, variants, **kw): DEFS[n] = Def(n, "enum", variants=variants, **kw)
def vs(n, fields, **kw): return V(n, "struct", [F(*f[:2], **(f[2] if len(f) > 2 else {})) for f in fields], **kw)
def vt(n, fields, **kw): return V(n, "tuple", [F(str(i), f[0], **(f[1] if len(f) > 1 else {})) for i, f in enumerate(fields)], **kw)
def vu(n, **kw): return V(n, "unit", **kw)
SK = {"skip": True}

# a meta entry: (key, rust expression, abstract node of its Value)
def m_int(k, x): return (k, "%d_i32" % x, scal("i32", x))
def m_str(k, x): return (k, json.dumps(x, ensure_ascii=False), scal("String", x))
def m_bool(k, x): return (k, "true" if x else "false", scal("bool", x))
def m_any(k, i):
    """metadata of every kind"""
    u8 = lambda x: scal("u8", x)
    return (k,) + [("1.5_f32", scal("f32", "1.5")), ("f64::NAN", scal("f64", "NaN")), ("-0.0_f32", scal("f32", "-0.0")), ("u128::MAX", scal("u128", 2**128-1)), ("i64::MIN", scal("i64", -2**63)), ("'\\''", scal("char", "'")),
        ("Some(3_u8)", {"k":"enum","var":"Some","vk":"tuple","n":[],"f":[u8(3)]}), ("None::<u8>", {"k":"enum","var":"None","vk":"unit","n":[],"f":[]}), ("vec![1_u8, 2]", {"k":"list","f":[u8(1), u8(2)]}),
        ("[1_u8, 2]", {"k":"list","f":[u8(1), u8(2)]}), ("(1_u8, true)", {"k":"tuple","f":[u8(1), scal("bool", True)]}), ("()", {"k":"tuple","f":[]}), ("BTreeMap::from([(1_u8, 2_u8)])", {"k":"map","m":[[u8(1), u8(2)]]}),
        ("SOne { a: 1 }", {"k":"struct","n":["a"],"f":[u8(1)]}), ("EUnit::B", {"k":"enum","var":"B","vk":"unit","n":[],"f":[]}), ("SSkip { s0: 1, a: 2, s1: String::new(), b: true, s2: Default::default() }", {"k":"struct","n":["a","b"],"f":[scal("i32", 2), scal("bool", True)]})][i]
def m_ts(k, x): return (k, "TOne(%d)" % x, {"k":"tstruct","f":[scal("u8", x)]})

S("Unit0", [], unit=True)
S("Empty", [])
S("SOne", [("a","u8")])
S("STwo", [("a","i32"),("b","String")])
S("STwoR", [("b","String"),("a","i32")])
S("SAlt", [("a","i64"),("b","String"),("c","bool")])
S("SAll", [("f%d" % i, t) for i, t in enumerate(SCALARS)])
S("SSkip", [("s0","u8",SK),("a","i32"),("s1","String",SK),("b","bool"),("s2","NoRefl",SK)])
S("SAllSkip", [("s0","u8",SK),("s1","Vec<u8>",SK)])
S("SNest", [("inner","SSkip"),("v","Vec<SSkip>"),("o","Option<SSkip>"),("bx","Box<SSkip>"),("t","(u8, SSkip)"),("e","ESkipF")])
S("SNames", [(n,"u8") for n in ["name","index","value","enum_","struct_","field","fields","reflect","graph","f","new","this","r#type","tuple_struct","__name"]])
S("SClone", [("a","u8"),("s","u8",SK),("n","Vec<STwo>"),("k","STwo")], clone=False)
S("SCloneIn", [("c","SClone"),("l","Vec<SClone>"),("x","i32")], clone=False)
S("SDebug", [("a","u8"),("s","u8",SK),("bx","Box<STwo>"),("k","STwo"),("o","Option<STwo>"),("v","Vec<u8>"),("m","BTreeMap<u8, String>"),("t","(u8, String)")], debug=False)
S("SBoth", [("s","u8",SK),("a","SDebug2"),("e","EDebug"),("f","f32")], clone=False, debug=False)
S("SDebug2", [("a","String"),("bx","Box<TDebug>")], debug=False)
S("SFrw", [("a","u8",{"frw":"or7"}),("b","u8"),("c","String",{"frw":"tag"}),("d","bool")])
S("SVal", [("v","Value"),("n","u8"),("l","Vec<Value>"),("m","BTreeMap<Value, Value>")])
S("SMeta", [("a","u8",{"meta":[m_int("min",1),m_str("unit","m")],"docs":[" Field a."]}),("h","u8",{"skip":True,"docs":[" hidden"]}),("b","STwo",{"docs":[" Field b,"," second line."],"meta":[m_ts("t",3)]}),("c","bool")],
  meta=[m_int("answer",42),m_bool("flag",True),m_str("z","end")], docs=[" Docs of SMeta."," More."])
DOCS = [[" a",""," b"], [""," a"], [" a",""], ["",""], [" \"q\" \\ {} é", "no space", "\ttab", "two\nlines"], [" a"," a"]]
S("SDocs", [("f%d" % i,"u8",{"docs":DOCS[i],"meta":[m_any("m", i), m_any("n", i + 6)]}) for i in range(6)] + [("h","u8",{"skip":True,"docs":[" hidden"]}),("z","u8",{"meta":[m_any("m", i) for i in [12]] + [m_any("why", 13)]})],
  meta=[m_any("k%d" % i, i) for i in range(16)], docs=DOCS[0] + DOCS[4])
T("TDocs", [("u8",{"docs":DOCS[i],"meta":[m_any("m", i + 7), m_any("n", i)]}) for i in range(6)] + [("u8",SK),("u8",{"docs":DOCS[0]})], meta=[m_any("m", 8), m_str("n", "")], docs=DOCS[1] + DOCS[4])
S("UDocs", [], unit=True, docs=DOCS[0], meta=[m_any("m", 9)])
E("EDocs", [x for i in range(6) for x in (vu("U%d" % i, docs=DOCS[i], meta=[m_any("m", i)]), vt("T%d" % i, [("u8",{"docs":DOCS[(i+1)%6],"meta":[m_any("n", i)]})], docs=DOCS[(i+2)%6], meta=[m_any("m", i + 8)]),
                                            vs("S%d" % i, [("a","u8",{"docs":DOCS[(i+3)%6],"meta":[m_any("m", i + 5)]})], docs=DOCS[(i+4)%6], meta=[m_any("n", i)]))] +
  [vs("H",[("a","u8",{"docs":[" hidden field"]})],skip=True,docs=[" hidden"]), vt("TS",[("u8",{"skip":True,"docs":[" x"]}),("u8",{"docs":DOCS[0]})])], docs=DOCS[4], meta=[m_any("n", 3), m_any("m", 11)])
S("SVia", [("d","Duration"),("n","NonZeroU8"),("i","NonZeroI64"),("o","Option<NonZeroU16>")])
S("SOpq", [("a","u8"),("o","Opq"),("b","u8")])
S("SOpqR", [("b","u8"),("o","Opq"),("a","u8")])
S("SNoDef", [("a","u8"),("n","NonZeroU8")])
S("SMaps", [("m","BTreeMap<String, i32>"),("n","BTreeMap<u8, STwo>"),("e","BTreeMap<EKey, Vec<u8>>")])
S("SArr", [("a","[u8; 3]"),("b","[STwo; 2]"),("z","[u8; 0]"),("n","[[u8; 2]; 2]")])
S("SRange", [("r","Range<i32>"),("f","RangeFrom<u8>"),("t","RangeTo<u8>"),("i","RangeToInclusive<u8>"),("u","RangeFull")])
S("SKey", [("a","u8"),("b","String")], ordd=True)
S("SInf", [("r","Result<u8, Infallible>"),("o","Option<Infallible>")])
S("SMut", [("e","EMut"),("x","u8")])
S("SDeep", [("l1","Vec<Option<Vec<(u8, BTreeMap<String, [Option<EMix>; 2]>)>>>")])
S("Gen", [("a","T"),("b","Vec<T>"),("s","Option<T>",SK)], params=["T"])
S("Gen2", [("a","T"),("g","Gen<U>")], params=["T","U"])
S("RList", [("v","i32"),("next","Option<Box<RList>>")])
S("RTree", [("kids","Vec<RTree>"),("m","BTreeMap<u8, RTree>"),("name","String")])
T("TZero", [])
T("TOne", [("u8",)])
T("TTwo", [("i32",),("String",)])
T("TSkip", [("u8",SK),("i32",),("String",SK),("bool",),("NoRefl",SK)])
T("TAllSkip", [("u8",SK)])
T("TNest", [("SSkip",),("Vec<TSkip>",),("Box<TSkip>",),("Option<TSkip>",)])
T("TFrw", [("u8",),("u8",{"frw":"or7"}),("u8",SK),("String",{"frw":"tag"})])
T("TClone", [("u8",SK),("STwo",),("Vec<TOne>",)], clone=False)
T("TDebug", [("u8",),("Box<STwo>",),("u8",SK),("Vec<STwo>",)], debug=False)
T("TMeta", [("u8",{"meta":[m_int("min",2)],"docs":[" zero"]}),("u8",SK),("String",{"meta":[m_str("q","r")],"docs":[" two"]})], meta=[m_int("v",7)], docs=[" Tuple docs."])
T("RTup", [("i32",),("Vec<RTup>",)])
T("TGen", [("T",),("[T; 2]",)], params=["T"])
E("EUnit", [vu("A"),vu("B"),vu("C")])
E("EMix", [vu("U"),vt("T",[("u8",),("String",)]),vs("S",[("a","u8"),("b","String")])])
E("EMixB", [vt("U",[("u8",)]),vs("T",[("x","u8"),("y","String")]),vt("S",[("u8",),("String",)]),vu("Z")])
E("EMixC", [vs("S",[("b","String"),("a","u8"),("c","u8")]),vt("T",[("u8",)]),vu("U")])
E("ESame", [vt("X",[("u8",)]),vt("Y",[("u8",)])])
E("ESkipF", [vt("T",[("u8",SK),("i32",),("String",SK),("bool",)]),vs("S",[("s","u8",SK),("a","i32"),("t","String",SK),("b","bool")]),vt("OnlySkip",[("u8",SK)]),vs("OnlySkipS",[("x","u8",SK)]),vt("Empty",[]),vs("EmptyS",[])])
E("ESkipV", [vt("H",[("u8",)],skip=True),vt("A",[("u8",)]),vu("M",skip=True),vs("B",[("x","u8")]),vs("HS",[("q","NoRefl2")],skip=True)])
E("ENames", [vs("S",[(n,"u8") for n in ["name","index","value","enum_","field","variant_matches","new","other","r#type","self_","f"]]),vt("T",[("u8",),("u8",),("u8",)])])
E("EClone", [vt("A",[("u8",SK),("STwo",)]),vs("B",[("x","Vec<STwo>"),("s","u8",SK)]),vu("C")], clone=False)
E("EDebug", [vt("A",[("u8",),("Box<STwo>",)]),vs("B",[("x","Box<STwo>"),("s","u8",SK),("y","u8")]),vu("C"),vt("D",[]),vs("F",[])], debug=False)
E("EFrw", [vt("A",[("u8",{"frw":"or7"}),("u8",)]),vs("B",[("x","u8"),("y","u8",{"frw":"or7"})]),vt("C",[("u8",SK),("String",{"frw":"tag"})])])
E("EMeta", [vu("A",meta=[m_int("a",1)],docs=[" unit"]),vt("H",[("u8",)],skip=True,docs=[" hidden"]),vt("B",[("u8",{"meta":[m_int("f",3)],"docs":[" fld"]})],meta=[m_str("b","x")],docs=[" tup"," le"]),vs("C",[("x","u8",{"docs":[" named"],"meta":[m_bool("n",False)]}),("y","u8",SK)],meta=[m_int("c",-1)],docs=[" str"])],
  meta=[m_int("e",9)], docs=[" Enum docs."])
E("ERec", [vt("Leaf",[("i32",)]),vt("Node",[("Vec<ERec>",)]),vs("Pair",[("l","Box<ERec>"),("r","Box<ERec>")])])
E("EBadDef", [vt("A",[("NonZeroU8",)]),vu("B")])
E("EGen", [vt("One",[("T",)]),vs("Two",[("x","T"),("y","Vec<T>")])], params=["T"])
E("EKey", [vu("Z"),vt("A",[("u8",)]),vs("M",[("s","String")])], ordd=True)
S("MutA", [("b","Option<Box<MutB>>"),("x","u8")])
S("MutB", [("kids","Vec<MutA>"),("e","EMutual")])
E("EMutual", [vu("Leaf"),vt("A",[("Box<MutA>",)]),vs("B",[("m","BTreeMap<u8, MutB>"),("n","u8")])])
S("SFrOut", [("a","u8"),("s","u8",SK),("b","Vec<STwo>"),("r","Option<EFrOut>")], fr=False, krate=True)
T("TFrOut", [("u8",SK),("STwo",),("Vec<SFrOut>",)], fr=False, clone=False)
E("EFrOut", [vs("S",[("s","u8",SK),("a","u8"),("b","String")]),vt("T",[("u8",SK),("Option<u8>",),("u8",)]),vu("U"),vu("H",skip=True)], fr=False, krate=True)
E("ECrate", [vt("A",[("TGenI<u8>",),("EUnit",)]),vs("B",[("x","u8",{"meta":[m_int("k",1)]})])], krate=True, debug=False)
T("TGenI", [("T",),("Vec<T>",)], params=["T"], inline=True, krate=True)
SKX = {"skip":True,"frw":"or7","meta":[m_int("no",1)],"docs":[" hidden"]}
FX = {"frw":"or7","meta":[m_int("m",1),m_str("n","x")],"docs":[" a"," b"]}
S("SFrwC", [("a","u8",{"frw":"or7"}),("s","u8",SKX),("b","String",FX | {"frw":"tag"}),("c","STwo"),("d","Option<u8>"),("e","u8",FX)], clone=False)
T("TFrwC", [("u8",SKX),("u8",FX),("STwo",),("String",FX | {"frw":"tag"}),("u8",)], clone=False, debug=False, meta=[m_int("z",1)], docs=[" c"," d"])
E("EFrwC", [vt("A",[("u8",SKX),("u8",FX),("Vec<STwo>",),("String",FX | {"frw":"tag"})],meta=[m_int("v",1)],docs=[" e"]),vs("B",[("s","u8",SKX),("x","String",FX | {"frw":"tag"}),("y","STwo"),("z","u8",{"frw":"or7"})]),vt("C",[("u8",)])], clone=False, debug=False, krate=True, meta=[m_int("z",1)], docs=[" c"," d"])
E("EFrwX", [vt("A",[("u8",SKX),("u8",FX),("STwo",)],meta=[m_int("v",1)],docs=[" e"," f"]),vs("B",[("s","u8",SKX),("x","u8",FX),("y","String",FX | {"frw":"tag"})],meta=[m_int("v",1)],docs=[" e"," f"]),vt("H",[("u8",)],skip=True,meta=[m_int("no",1)],docs=[" e"])], debug=False, meta=[m_int("z",1)], docs=[" c"," d"])
S("CArr", [("a","[u8; N]"),("n","u8"),("s","u8",SK)], consts=["N"])
T("CMix", [("T",),("[T; M]",),("Vec<[u8; N]>",)], params=["T"], consts=["M","N"], inline=True)
E("CEnum", [vu("U"),vt("A",[("[Option<u8>; N]",)]),vs("B",[("c","CArr<N>"),("o","Option<CArr<2>>")])], consts=["N"], krate=True)
# types with methods of their own named like those of the traits
OWN = {"own": True}
S("SOwn", [("a","u8"),("b","EOwn"),("s","u8",SK)], **OWN)
T("TOwn", [("u8",),("SOwn",),("u8",SK),("EOwn",)], **OWN)
E("EOwn", [vu("U"),vt("A",[("u8",),("u8",SK),("Vec<EOwn>",)]),vs("B",[("x","u8"),("s","u8",SK),("y","Option<Box<TOwn>>")]),vt("C",[("(u8, Box<SOwn>)",)])], **OWN)
S("SOwnF", [("a","EOwn"),("b","u8")], clone=False, debug=False, fr=False, **OWN)
E("EOwnC", [vt("A",[("u8",),("EOwn",)]),vs("B",[("x","TOwn"),("y","EOwn")]),vu("H",skip=True)], clone=False, debug=False, **OWN)
E("EMut", [vt("P",[("Vec<u8>",),("Option<u8>",)]),vs("Q",[("m","BTreeMap<u8, u8>"),("n","STwo")])])

# structures that look like std ones (foreign reflections)
FOREIGN = {
 "Option": ("enum", ["T"], [vu("None"), vt("Some",[("T",)])]),
 "Result": ("enum", ["T","E"], [vt("Ok",[("T",)]), vt("Err",[("E",)])]),
 "Range": ("struct", ["T"], [("start","T"),("end","T")]),
 "RangeFrom": ("struct", ["T"], [("start","T")]),
 "RangeTo": ("struct", ["T"], [("end","T")]),
 "RangeToInclusive": ("struct", ["T"], [("end","T")]),
}

# types to register besides everything mentioned inside definitions
def split_top(line):
    out, d, cur = [], 0, ""
    for ch in line:
        if ch in "[": d += 1
        if ch in "]": d -= 1
        if ch == ";" and d == 0: out.append(cur); cur = ""
        else: cur += ch
    out.append(cur)
    return [x.strip() for x in out if x.strip()]
EXTRA_SRC = """Vec<u8>; Vec<String>; Vec<f32>; Vec<Vec<u8>>; Vec<Option<u8>>; Vec<STwo>; Vec<SSkip>; Vec<EMix>; Vec<Box<STwo>>; Vec<(u8, String)>; Vec<Value>; Vec<EClone>; Vec<ESkipV>; Vec<NonZeroU8>; Vec<Duration>; Vec<[u8; 2]>; Vec<Opq>; Vec<ERec>; Vec<()>; Vec<bool>; Vec<i64>; Vec<Box<ERec>>; Vec<SFrw>
[u8; 0]; [u8; 1]; [u8; 3]; [STwo; 2]; [[u8; 2]; 2]; [EMix; 2]; [SSkip; 1]; [String; 2]; [Vec<u8>; 2]; [NonZeroU8; 0]; [NonZeroU8; 2]; [Opq; 2]; [f32; 2]; [Box<STwo>; 1]; [EClone; 2]
BTreeMap<u8, u8>; BTreeMap<i8, u8>; BTreeMap<String, i32>; BTreeMap<i32, STwo>; BTreeMap<EKey, u8>; BTreeMap<SKey, u8>; BTreeMap<Value, Value>; BTreeMap<(u8, String), Vec<u8>>; BTreeMap<bool, EMix>; BTreeMap<char, u8>; BTreeMap<String, BTreeMap<u8, u8>>; BTreeMap<u8, SSkip>; BTreeMap<NonZeroU8, u8>; BTreeMap<Vec<u8>, u8>; BTreeMap<u128, u8>; BTreeMap<i128, u8>; BTreeMap<u8, Box<STwo>>; BTreeMap<String, Option<Opq>>; BTreeMap<u64, EClone>; BTreeMap<Option<u8>, u8>
Option<u8>; Option<String>; Option<STwo>; Option<SSkip>; Option<Vec<u8>>; Option<Option<u8>>; Option<EMix>; Option<Box<STwo>>; Option<NonZeroU8>; Option<f32>; Option<Value>; Option<Opq>; Option<EClone>
Result<u8, String>; Result<STwo, EUnit>; Result<(), u8>; Range<i32>; Range<u8>; Range<String>; RangeFrom<u8>; RangeTo<i32>; RangeToInclusive<u8>; RangeFull; Range<f32>
(); (u8,); (u8, String); (u8, SSkip, Vec<u8>); (Option<u8>, Box<STwo>); ((u8, u8), (u8,)); (f32, f64); (Value, u8); (Opq, u8)
Gen<u8>; Gen<String>; Gen<STwo>; Gen<Vec<u8>>; Gen2<u8, String>; Gen2<STwo, u8>; TGen<u8>; TGen<STwo>; EGen<u8>; EGen<String>; EGen<STwo>; CArr<0>; CArr<1>; CArr<2>; CMix<u8, 2, 1>; CMix<STwo, 1, 3>; CEnum<1>; CEnum<2>
Duration; Value; StructValue; EnumValue; TupleStructValue; TupleValue; Opq; Infallible"""
EXTRA = [x for l in EXTRA_SRC.split("\n") for x in split_top(l)]
for n in range(3, 17):
    EXTRA.append("(" + ", ".join(["u8","String","i16","bool"][i % 4] for i in range(n)) + ")")
GLAM = ["Vec2","Vec3","Mat3"]
MACAW = ["ColorRgba8"]

def subst(e, env):
    if e[0] == "p":
        if e[1] in env and not e[2]: return env[e[1]]
        return ("p", e[1], [subst(a, env) for a in e[2]])
    if e[0] == "t": return ("t", [subst(a, env) for a in e[1]])
    return ("a", subst(e[1], env), int(env[e[2]][1]) if e[2] in env else e[2])

def unbox(e):
    b = False
    while e[0] == "p" and e[1] == "Box": e = e[2][0]; b = True
    return e, b

def expr_json(e):
    if e[0] == "p":
        if e[1] in NONZERO: return {"k":"p","h":"NonZero","a":[expr_json(("p", NONZERO[e[1]], []))],"n":0}
        return {"k":"p","h":e[1],"a":[expr_json(a) for a in e[2]],"n":0}
    if e[0] == "t": return {"k":"t","h":"","a":[expr_json(a) for a in e[1]],"n":0}
    return {"k":"a","h":"","a":[expr_json(e[1])],"n":e[2]}

def default_node(e):
    e, _ = unbox(e)
    if e[0] == "p":
        n = e[1]
        if n in SCALARS: return ZERO[n]
        if n == "Vec": return {"k":"list","f":[]}
        if n == "Option": return {"k":"enum","var":"None","f":[]}
        if n == "NoRefl": return {"k":"x","v":"7"}
        if n == "NoRefl2": return {"k":"x","v":"0"}
    raise Exception("no default for " + show(e))

class Table:
    def __init__(self, extra_types=(), with_glam=True, with_macaw=True, extra_defs=None):
        self.tt = {}; self.order = []
        self.defs = dict(DEFS)
        if extra_defs: self.defs.update(extra_defs)
        for s in SCALARS: self.add(("p", s, []))
        for s in NONZERO: self.add(("p", s, []))
        for d in self.defs.values():
            if not d.params + d.consts: self.add(("p", d.n, []))
        for x in list(EXTRA) + list(extra_types): self.add(parse(x))
        if with_glam:
            for x in GLAM: self.add(("p", x, []))
        if with_macaw:
            for x in MACAW: self.add(("p", x, []))
    def finish(self):
        """precomputed views of the fields: vf = visible fields in order, inv = storage index -> visible index (0: skipped)"""
        def view(o, named):
            o["vf"] = [{"n": o["fields"][i-1]["n"] if named else "", "t": o["fields"][i-1]["t"], "i": i, "b": o["fields"][i-1]["boxed"], "frw": o["fields"][i-1]["frw"],
                        "meta": o["fields"][i-1]["meta"], "docs": o["fields"][i-1]["docs"]} for i in o["vis"]]
            o["inv"] = [o["vis"].index(i+1)+1 if i+1 in o["vis"] else 0 for i in range(len(o["fields"]))]
        for r in self.tt.values():
            view(r, r["kind"] == "struct")
            for v in r["variants"]: view(v, v["vk"] == "struct")
            r["from"] = False
            r["vvis"] = [i+1 for i, v in enumerate(r["variants"]) if not v["skip"]]
        # does a value of the type (natively, skipped fields included) contain an erased value?
        dyn = {t: r["dyn"] for t, r in self.tt.items()}
        more = True
        while more:
            more = False
            for t, r in self.tt.items():
                subs = [f["t"] for o in [r] + r["variants"] for f in o["fields"]] + [r["elem"], r["key"], r["val"]]
                if not dyn[t] and any(dyn.get(x) for x in subs): dyn[t] = more = True
        for t, r in self.tt.items(): r["hasdyn"] = dyn[t]
        for t, r in self.tt.items(): r["from"] = has_value_from(t, r) and t != "Infallible"
        self.tt["Opq"]["meta"] = [["why", scal("String", "opaque")]]
        return self
    def blank(self, e, kind):
        return {"kind":kind,"dyn":False,"fields":[],"vis":[],"variants":[],"elem":"","len":0,"key":"","val":"","clone":True,"own":True,"dbgname":"",
                "fr":True,"meta":[],"docs":[],"scal":"","expr":expr_json(e),"name":"","ord":False}
    def field(self, f, env):
        t, b = unbox(subst(f.t, env))
        hidden = f.skip
        if not hidden: self.add(t)
        return {"n":f.n,"dn":f.n.replace("r#",""),"t":show(t),"skip":f.skip,"boxed":b,"frw":f.frw,"meta":[[k, n] for k, _, n in sorted(f.meta)],"docs":f.docs,
                "d":[default_node(t)] if f.skip and t[1] not in ("T",) else [], "x": expr_json(subst(f.t, env)), "raw": show(subst(f.t, env))}
    def add(self, e):
        e, _ = unbox(e)
        tid = show(e)
        if tid in self.tt: return tid
        self.order.append(tid)
        if e[0] == "t":
            r = self.tt[tid] = self.blank(e, "tuple")
            r["fields"] = [self.field(F(str(i), show(x)), {}) for i, x in enumerate(e[1])]
            r["vis"] = list(range(1, len(e[1])+1))
            r["own"] = False
            return tid
        if e[0] == "a":
            r = self.tt[tid] = self.blank(e, "array")
            x, b = unbox(e[1]); self.add(x)
            r["elem"], r["len"] = show(x), e[2]; r["clone"] = False; r["own"] = False
            return tid
        n, args = e[1], e[2]
        if n in SCALARS:
            self.tt[tid] = self.blank(e, "scalar"); return tid
        if n in NONZERO or n == "Duration":
            r = self.tt[tid] = self.blank(e, "via"); r["scal"] = NONZERO.get(n, "f32"); return tid
        if n == "Opq":
            self.tt[tid] = self.blank(e, "opaque"); return tid
        if n == "Value":
            r = self.tt[tid] = self.blank(e, "value"); r["dyn"] = True; return tid
        if n in ("StructValue","EnumValue","TupleStructValue","TupleValue"):
            r = self.tt[tid] = self.blank(e, {"StructValue":"struct","EnumValue":"enum","TupleStructValue":"tstruct","TupleValue":"tuple"}[n]); r["dyn"] = True; return tid
        if n == "Infallible":
            self.tt[tid] = self.blank(e, "enum"); return tid
        if n == "RangeFull":
            r = self.tt[tid] = self.blank(e, "struct"); r["dbgname"] = ".."; return tid
        if n == "Vec":
            r = self.tt[tid] = self.blank(e, "list"); x, b = unbox(args[0]); self.add(x); r["elem"] = show(x); r["clone"] = False; r["own"] = False
            return tid
        if n == "BTreeMap":
            r = self.tt[tid] = self.blank(e, "map"); k, _ = unbox(args[0]); v, _ = unbox(args[1]); self.add(k); self.add(v)
            r["key"], r["val"] = show(k), show(v); r["clone"] = False; r["own"] = False
            return tid
        if n in ("Vec2","Vec3","Mat3","ColorRgba8"):
            r = self.tt[tid] = self.blank(e, "tstruct" if n == "ColorRgba8" else "struct")
            fs = {"Vec2":[("x","f32"),("y","f32")],"Vec3":[("x","f32"),("y","f32"),("z","f32")],"Mat3":[(a,"Vec3") for a in ["x_axis","y_axis","z_axis"]],"ColorRgba8":[("0","[u8; 4]")]}[n]
            r["fields"] = [self.field(F(a, b), {}) for a, b in fs]; r["vis"] = list(range(1, len(fs)+1)); r["dbgname"] = "?"
            return tid
        if n in FOREIGN:
            kind, ps, body = FOREIGN[n]
            env = dict(zip(ps, args))
            r = self.tt[tid] = self.blank(e, kind)
            r["clone"] = False; r["own"] = False
            if kind == "struct":
                r["fields"] = [self.field(F(a, b), env) for a, b in body]; r["vis"] = list(range(1, len(body)+1))
            else: r["variants"] = [self.variant(v, env) for v in body]
            r["dbgname"] = n
            return tid
        d = self.defs[n]
        env = dict(zip(d.params + d.consts, args))
        r = self.tt[tid] = self.blank(e, d.kind)
        r["clone"], r["own"], r["fr"], r["ord"] = d.clone, d.debug, d.fr, d.ord
        r["meta"] = [[k, x] for k, _, x in sorted(d.meta)]; r["docs"] = d.docs
        r["dbgname"] = n
        r["fields"] = [self.field(f, env) for f in d.fields]
        r["vis"] = [i+1 for i, f in enumerate(d.fields) if not f.skip]
        r["variants"] = [self.variant(v, env) for v in d.variants]
        return tid
    def variant(self, v, env):
        if v.skip: fields = [{"n":f.n,"dn":f.n.replace("r#",""),"t":show(f.t),"skip":True,"boxed":False,"frw":"","meta":[],"docs":[],"d":[],"x":expr_json(f.t),"raw":show(f.t)} for f in v.fields]
        else: fields = [self.field(f, env) for f in v.fields]
        return {"n":v.n,"vk":v.kind,"skip":v.skip,"fields":fields,"vis":[] if v.skip else [i+1 for i, f in enumerate(v.fields) if not f.skip],
                "meta":[[k, x] for k, _, x in sorted(v.meta)],"docs":v.docs}

# ---------------------------------------------------------------- Rust
def rfield_attr(f):
    a = []
    if f.skip: a.append("skip")
    a += metas(f.meta)
    if f.frw: a.append("from_reflect_with(frw_%s)" % f.frw)
    return attrs(a, f.docs, " ")
TURN = [0, 0]
def metas(meta):
    """metadata in one or two groups"""
    TURN[1] += len(meta) > 1
    k = 1 if TURN[1] % 2 and len(meta) > 1 else 0
    return ["meta(" + ", ".join("%s = %s" % (k, x) for k, x, _ in m) + ")" for m in (meta[:k], meta[k:]) if m]
def attrs(items, docs, sep):
    """the items of an attribute in every order, the attribute before, between or after the documentation, with or without a last comma"""
    d = ["#[doc = %s]%s" % (json.dumps(x, ensure_ascii=False), sep) for x in docs]
    if items:
        TURN[0] += 1; t = TURN[0]
        k = t % len(items)
        items = items[k:] + items[:k]
        d.insert([len(d), 0, len(d) // 2, len(d)][t % 4], "#[reflect(%s%s)]%s" % (", ".join(items), "," if t % 3 == 0 else "", sep))
    return "".join(d)
# what a user may have called methods, with other meanings
OWN_METHODS = """#[allow(dead_code)]
impl %s {
    pub fn to_value(&self) -> u8 { 9 }
    pub fn variant_name(&self) -> &'static str { "own" }
}"""

def gen_rust(defs):
    out = []; TURN[:] = [0, 0]
    for d in defs.values():
        der = []
        if d.debug: der.append("Debug")
        if d.clone: der.append("Clone")
        if d.ord: der += ["PartialEq","Eq","PartialOrd","Ord"]
        o = []
        oo = ([] if d.debug else ["Debug"]) + ([] if d.clone else ["Clone"]) + ([] if d.fr else ["FromReflect"])
        if d.krate: o.append("crate_name(crate::mm2)")
        if oo: o.append("opt_out(" + ", ".join(oo[::-1] if len(d.n) % 2 else oo) + (", " if len(d.n) % 3 == 0 else "") + ")")
        o += metas(d.meta)
        head = "#[allow(dead_code, non_snake_case)]\n#[derive(%sReflect)]\n" % "".join(x + ", " for x in der) + attrs(o, d.docs, "\n")
        bounds = ["Reflect", "DescribeType", "FromReflect", "Zoo"] + (["Clone"] if d.clone else []) + (["fmt::Debug"] if d.debug else [])
        cs_ = ["const %s: usize" % c for c in d.consts]
        angle = lambda xs: "<" + ", ".join(xs) + ">" if xs else ""
        ps = angle(d.params + cs_)
        wh = " where " + ", ".join("%s: %s" % (p, " + ".join(b for b in bounds)) for p in d.params) if d.params else ""
        pn = angle(d.params + d.consts)
        if d.inline and d.params: ps, wh = angle(["%s: %s" % (p, " + ".join(b for b in bounds)) for p in d.params] + cs_), ""
        def fl(fs, named, vis="pub "):
            return ", ".join("%s%s%s%s" % (rfield_attr(f), vis, (f.n + ": ") if named else "", show(f.t)) for f in fs)
        if d.kind == "struct":
            if d.unit: out.append(head + "pub struct %s;" % d.n)
            else: out.append(head + "pub struct %s%s%s { %s }" % (d.n, ps, wh, fl(d.fields, True)))
        elif d.kind == "tstruct":
            out.append(head + "pub struct %s%s(%s)%s;" % (d.n, ps, fl(d.fields, False), wh))
        else:
            vs_ = []
            for v in d.variants:
                va = []
                if v.skip: va.append("skip")
                va += metas(v.meta)
                s = attrs(va, v.docs, " ")
                s += v.n
                if v.kind == "struct": s += " { " + fl(v.fields, True, "") + " }"
                if v.kind == "tuple": s += "(" + fl(v.fields, False, "") + ")"
                vs_.append(s)
            out.append(head + "pub enum %s%s%s { %s }" % (d.n, ps, wh, ", ".join(vs_)))
        if d.own: out.append(OWN_METHODS % d.n)
        # native abstraction
        tid = '"%s".to_string()' % d.n if not d.params + d.consts else 'format!("%s<%s>", %s)' % (d.n, ", ".join("{}" for _ in d.params + d.consts), ", ".join(["<%s as Zoo>::aid()" % p for p in d.params] + d.consts))
        if not d.fr: out.append(manual_from_reflect(d))
        s = "impl%s Zoo for %s%s%s {\n    fn tid() -> String { %s }\n" % (ps, d.n, pn, wh, tid)
        if d.kind in ("struct", "tstruct"):
            s += '    fn zabs(&self) -> J { json!({"k": "%s", "f": Vec::<J>::from([%s])}) }\n' % (d.kind, ", ".join("self.%s.zabs()" % f.n for f in d.fields))
            s += '    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", %d)?; let _ = &f; Some(Self%s) }\n' % (len(d.fields), "" if d.unit else " { " + ", ".join("%s: Zoo::conc(&f[%d])?" % (f.n, i) for i, f in enumerate(d.fields)) + " }")
        else:
            arms = []; carms = []
            for v in d.variants:
                names = ["x%d" % i for i in range(len(v.fields))]
                if v.kind == "struct": pat = " { " + ", ".join("%s: %s" % (f.n, x) for f, x in zip(v.fields, names)) + " }"
                elif v.kind == "tuple": pat = "(" + ", ".join(names) + ")"
                else: pat = ""
                arms.append('Self::%s%s => json!({"k": "enum", "var": "%s", "f": Vec::<J>::from([%s])})' % (v.n, pat, v.n, ", ".join("%s.zabs()" % x for x in names)))
                cs = ["Zoo::conc(&f[%d])?" % i for i in range(len(v.fields))]
                if v.kind == "struct": c = " { " + ", ".join("%s: %s" % (f.n, x) for f, x in zip(v.fields, cs)) + " }"
                elif v.kind == "tuple": c = "(" + ", ".join(cs) + ")"
                else: c = ""
                carms.append('"%s" => { let f = arr(j, "f", %d)?; let _ = &f; Some(Self::%s%s) }' % (v.n, len(v.fields), v.n, c))
            s += "    fn zabs(&self) -> J { match self { %s } }\n" % ", ".join(arms)
            s += '    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { %s, _ => None } }\n' % ", ".join(carms)
        s += "}\n"
        out.append(s)
    return out

def manual_from_reflect(d):
    """what the derive would have written"""
    def go(fs, named, on, p):
        out, i = [], 0
        for k, f in enumerate(fs):
            if f.skip: e = "Default::default()"
            else:
                g = ('%s.field("%s")' % (on, f.n) if named else "%s.field_at(%d)" % (on, i)) + "?"; i += 1
                e = "FromReflect::from_reflect(%s)?" % g
                if d.clone: e = "{ let v = %s; match v.downcast_ref::<%s>() { Some(v) => v.clone(), None => FromReflect::from_reflect(v)? } }" % (g, show(f.t))
            out.append("%s: %s" % (f.n, e))
        return "Some(%s { %s })" % (p, ", ".join(out))
    if d.kind == "struct": b = "let s = r.as_struct()?; " + go(d.fields, True, "s", "Self")
    elif d.kind == "tstruct": b = "let s = r.as_tuple_struct()?; " + go(d.fields, False, "s", "Self")
    else: b = "let s = r.as_enum()?; match s.variant_name() { %s, _ => None }" % ", ".join('"%s" => %s' % (v.n, go(v.fields, v.kind == "struct", "s", "Self::" + v.n)) for v in d.variants if not v.skip)
    return "impl FromReflect for %s { fn from_reflect(r: &dyn Reflect) -> Option<Self> { %s } }" % (d.n, b)

def has_value_from(tid, r):
    if r["kind"] in ("scalar", "list", "array", "map", "via", "opaque"): return True
    if r["kind"] in ("tuple", "value"): return tid in ("TupleValue", "Value")
    return True
def reg_line(table, tid):
    r = table.tt[tid]
    s = "v.push(entry::<%s>()" % tid
    if r["kind"] in ("scalar", "via") or (r["own"] and tid not in ("Opq",)): s += ".dbg::<%s>()" % tid
    if has_value_from(tid, r): s += ".from::<%s>()" % tid
    return s + ");\n"
def gen_reg(table):
    reg = []
    for tid in table.order:
        if tid in GLAM: reg.append('#[cfg(feature = "glam")] ')
        if tid in MACAW: reg.append('#[cfg(feature = "macaw")] ')
        if tid == "Infallible": reg.append('v.push(entry_desc::<Infallible>("Infallible"));\n')
        else: reg.append(reg_line(table, tid))
    return reg

def write_rust(path, defs, table, fname="registry", only=None):
    s = "// generated by gen/zoo.py\n" + "\n".join(gen_rust(defs)) + "\n"
    reg = gen_reg(table) if only is None else [reg_line(table, t) for t in table.order if t in only]
    s += "pub fn %s(v: &mut Vec<Entry>) {\n%s}\n" % (fname, "".join(reg))
    old = None
    try: old = open(path).read()
    except OSError: pass
    if old != s: open(path, "w").write(s)

if __name__ == "__main__":
    t = Table()
    write_rust("/verif/harness/src/zoo_gen.rs", DEFS, t)
    print(len(t.order), "types")
