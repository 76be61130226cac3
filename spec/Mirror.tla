------------------------------- MODULE Mirror -------------------------------
(* The bounded model: every value of every modelled type within the bounds,  *)
(* every operation a property speaks about, in every order up to a depth.    *)
(* TLC explores it exhaustively, checks the laws below on every state and    *)
(* transition, and prints every transition for replay in the real library.   *)
(* The laws are stated independently of the operations' definitions in Core. *)
EXTENDS Ops, SequencesExt

MJ == JsonDeserialize(IOEnv.MM_MODEL)
Prop == MJ.prop
Types == MJ.types
POOL == TLCEval([t \in DOMAIN MJ.pool |-> MJ.pool[t]])
BASE == TLCEval([t \in DOMAIN MJ.base |-> MJ.base[t]])
OTHERS == TLCEval([t \in DOMAIN MJ.other |-> MJ.other[t]])
REL == TLCEval([t \in DOMAIN MJ.related |-> MJ.related[t]])
SIB == TLCEval([t \in DOMAIN MJ.sib |-> MJ.sib[t]])
DYN == MJ.dyn
KEYS == MJ.keys
Depth == MJ.depth
KCap == MJ.kcap        \* alternatives per nested part
VCap == MJ.vcap        \* values per type
FCap == MJ.fcap        \* faults per nested part

Cap(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
Cat(ss) == FlattenSeq(ss)
D(ty, st) == [ty |-> ty, st |-> st]
Rot(s, k) == IF s = <<>> THEN s ELSE Tab(Len(s), LAMBDA i : s[((i - 1 + k) % Len(s)) + 1])
Filter(s, P(_)) == SelectSeq(s, P)
(* a spread of at most n elements of s *)
Spread(s, n) == IF Len(s) <= n THEN s ELSE Tab(n, LAMBDA i : s[1 + ((i - 1) * (Len(s) - 1)) \div (n - 1)])

---------------------------------------------------------------------------
(* all values of a type, within the bounds: one base vector, and every        *)
(* single-position variation of it; base values differ between positions so   *)
(* that mixing parts up shows                                                  *)
Star(ls) ==
  IF \E i \in 1..Len(ls) : ls[i] = <<>> THEN <<>>
  ELSE LET base == Tab(Len(ls), LAMBDA i : ls[i][1])
       IN <<base>> \o Cat(Tab(Len(ls), LAMBDA i : Tab(Len(ls[i]) - 1, LAMBDA j : [base EXCEPT ![i] = ls[i][j + 1]])))

RECURSIVE Vals(_, _)
KidVals(ty, dep, pos) == IF ty \in DOMAIN TT THEN Cap(Rot(Vals(ty, dep), pos - 1), KCap) ELSE Cap(Rot(OTHERS[ty], pos - 1), KCap)
FieldVals(F, dep) == Star(Tab(Len(F), LAMBDA i : KidVals(F[i].t, dep, i)))
Vals(ty, dep) ==
  LET T == TT[ty] IN
  IF T.kind \in {"scalar", "via", "opaque"} THEN POOL[ty]
  ELSE IF dep <= 0 THEN BASE[ty]
  ELSE IF T.kind = "value" THEN DYN
  ELSE IF T.dyn THEN Filter(DYN, LAMBDA x : x.k = T.kind)
  ELSE CASE T.kind \in {"struct", "tstruct", "tuple"} -> MapS(FieldVals(T.fields, dep - 1), LAMBDA fs : [k |-> T.kind, f |-> fs])
         [] T.kind = "enum" ->
              Cat(MapS(T.vvis, LAMBDA i : LET V == T.variants[i] IN MapS(FieldVals(V.fields, dep - 1), LAMBDA fs : [k |-> "enum", var |-> V.n, f |-> fs])))
         [] T.kind = "list" ->
              LET es == KidVals(T.elem, dep - 1, 1)
                  mk(fs) == [k |-> "list", f |-> fs]
                  e(i) == es[((i - 1) % Len(es)) + 1]
              IN IF es = <<>> THEN <<mk(<<>>)>>
                 ELSE <<mk(<<e(1), e(2)>>), mk(<<>>), mk(<<e(2), e(1), e(3)>>)>> \o MapS(es, LAMBDA x : mk(<<x>>))
         [] T.kind = "array" -> MapS(Star(Tab(T.len, LAMBDA i : KidVals(T.elem, dep - 1, i))), LAMBDA fs : [k |-> "array", f |-> fs])
         [] T.kind = "map" ->
              LET ks == KidVals(T.key, dep - 1, 1)
                  vs == KidVals(T.val, dep - 1, 2)
                  v(i) == vs[((i - 1) % Len(vs)) + 1]
                  mk(es) == [k |-> "map", m |-> MapOf(T.key, es, 1, <<>>)]
              IN IF ks = <<>> \/ vs = <<>> THEN <<mk(<<>>)>>
                 ELSE <<mk(Tab(Lesser(2, Len(ks)), LAMBDA i : <<ks[i], v(i)>>)), mk(<<>>), mk(Tab(Len(ks), LAMBDA i : <<ks[i], v(i + 1)>>))>>
                      \o MapS(ks, LAMBDA k : mk(<<<<k, v(1)>>>>)) \o MapS(vs, LAMBDA x : mk(<<<<ks[1], x>>>>))

(* TLC does not cache definitions that use recursive operators: computed once, kept in TLC's registers *)
ASSUME TLCSet(11, [t \in {Types[i] : i \in 1..Len(Types)} |-> TLCEval(Spread(Vals(t, MJ.vdep), VCap))])
VV == TLCGet(11)
ASSUME TLCSet(14, [t \in DOMAIN TT |-> IF Prop \in {"C02", "C04", "C07", "C08", "C10", "C11", "C17", "C18"} THEN TLCEval(Cap(Vals(t, 2), 4)) ELSE <<>>])
SMALL == TLCGet(14)
VR(ty) == IF ty \in DOMAIN VV THEN VV[ty] ELSE Cap(SMALL[ty], 3)

(* is the node a value of the type? *)
RECURSIVE WellTyped(_, _), WellErased(_)
Sorted(kt, m) == \A i \in 1..(Len(m) - 1) : CmpT(kt, m[i][1], m[i + 1][1]) = -1
NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
WellErased(st) ==
  CASE st.k = "s" -> IsScalarTy(st.t)
    [] st.k \in {"tuple", "tstruct", "list"} -> \A i \in 1..Len(st.f) : WellErased(st.f[i])
    [] st.k = "struct" -> Len(st.n) = Len(st.f) /\ NoDup(st.n) /\ \A i \in 1..Len(st.f) : WellErased(st.f[i])
    [] st.k = "enum" ->
         /\ \A i \in 1..Len(st.f) : WellErased(st.f[i])
         /\ (st.vk = "unit" => st.f = <<>>)
         /\ IF st.vk = "struct" THEN Len(st.n) = Len(st.f) /\ NoDup(st.n) ELSE st.n = <<>>
    [] st.k = "map" -> Sorted("Value", st.m) /\ \A i \in 1..Len(st.m) : WellErased(st.m[i][1]) /\ WellErased(st.m[i][2])
    [] OTHER -> FALSE
FieldsOK(F, f) == Len(F) = Len(f) /\ \A i \in 1..Len(F) : F[i].t \in DOMAIN TT => WellTyped(F[i].t, f[i])
WellTyped(ty, st) ==
  LET T == TT[ty] IN
  CASE T.kind = "value" -> WellErased(st)
    [] T.dyn -> st.k = T.kind /\ WellErased(st)
    [] T.kind = "scalar" -> st.k = "s" /\ st.t = ty
    [] T.kind = "via" -> st.k = "via" /\ st.s.t = T.scal
    [] T.kind = "opaque" -> st.k = "opq"
    [] T.kind \in {"struct", "tstruct", "tuple"} -> st.k = T.kind /\ FieldsOK(T.fields, st.f)
    [] T.kind = "enum" -> st.k = "enum" /\ \E i \in 1..Len(T.variants) : T.variants[i].n = st.var /\ FieldsOK(T.variants[i].fields, st.f)
    [] T.kind \in {"list", "array"} -> st.k = T.kind /\ (T.kind = "array" => Len(st.f) = T.len) /\ \A i \in 1..Len(st.f) : WellTyped(T.elem, st.f[i])
    [] T.kind = "map" -> st.k = "map" /\ Sorted(T.key, st.m) /\ \A i \in 1..Len(st.m) : WellTyped(T.key, st.m[i][1]) /\ WellTyped(T.val, st.m[i][2])

---------------------------------------------------------------------------
(* all erased values with a single fault *)
RECURSIVE Faults(_)
Swap2(s) == IF Len(s) < 2 THEN s ELSE <<s[2], s[1]>> \o SubSeq(s, 3, Len(s))
Faults(st) ==
  IF st.k = "s" THEN SIB[st.t] \o <<[k |-> "list", f |-> <<st>>]>>
  ELSE IF st.k = "map" THEN
    LET put(m) == [k |-> "map", m |-> MapOf("Value", m, 1, <<>>)]
        n == Len(st.m)
    IN Cat(Tab(n, LAMBDA i : <<put(DelAt(st.m, i))>>
                   \o MapS(Cap(Faults(st.m[i][1]), FCap), LAMBDA x : put([st.m EXCEPT ![i] = <<x, @[2]>>]))
                   \o MapS(Cap(Faults(st.m[i][2]), FCap), LAMBDA x : put([st.m EXCEPT ![i] = <<@[1], x>>]))))
       \o <<put(Append(st.m, <<MJ.extra, MJ.extra>>)), [k |-> "list", f |-> MapS(st.m, LAMBDA e : e[2])]>>
       \o (IF n > 0 THEN <<put(st.m \o <<<<MJ.extra, st.m[1][2]>>>>)>> ELSE <<>>)
  ELSE
    LET n == Len(st.f)
        named == st.k = "struct" \/ (st.k = "enum" /\ st.vk = "struct")
        with(fs, ns) == IF named THEN [st EXCEPT !.f = fs, !.n = ns] ELSE [st EXCEPT !.f = fs]
        ns == IF named THEN st.n ELSE Tab(n, LAMBDA i : "")
        kids == Cat(Tab(n, LAMBDA i : MapS(Cap(Faults(st.f[i]), FCap), LAMBDA x : [st EXCEPT !.f[i] = x])))
        drops == Tab(n, LAMBDA i : with(DelAt(st.f, i), DelAt(ns, i)))
        unit == st.k = "enum" /\ st.vk = "unit"
        extras == IF unit THEN <<>> ELSE <<with(<<MJ.extra>> \o st.f, <<"zz">> \o ns), with(Append(st.f, MJ.extra), Append(ns, "zz"))>>
        swaps == IF n < 2 THEN <<>> ELSE <<with(Swap2(st.f), ns), with(Swap2(st.f), Swap2(ns))>>
        names == IF named THEN Tab(n, LAMBDA i : [st EXCEPT !.n[i] = "zz"]) ELSE <<>>
        kinds == CASE st.k = "tuple" -> <<[k |-> "tstruct", f |-> st.f], [k |-> "list", f |-> st.f]>>
                   [] st.k = "tstruct" -> <<[k |-> "tuple", f |-> st.f], [k |-> "list", f |-> st.f]>>
                   [] st.k = "list" -> <<[k |-> "tuple", f |-> st.f], [k |-> "tstruct", f |-> st.f], [k |-> "map", m |-> <<>>]>>
                   [] st.k = "struct" -> <<[k |-> "tstruct", f |-> st.f], [k |-> "enum", var |-> "A", vk |-> "struct", n |-> st.n, f |-> st.f]>>
                   [] st.k = "enum" -> <<[st EXCEPT !.var = "Nope"], [k |-> "struct", n |-> ns, f |-> IF named THEN st.f ELSE <<>>]>>
                                       \o (IF st.vk = "struct" THEN <<[st EXCEPT !.vk = "tuple", !.n = <<>>]>>
                                           ELSE IF st.vk = "tuple" /\ n > 0 THEN <<[st EXCEPT !.vk = "struct", !.n = Tab(n, LAMBDA i : MJ.fnames[i])]>>
                                           ELSE <<>>)
                                       \o <<[st EXCEPT !.vk = "unit", !.n = <<>>, !.f = <<>>]>>
    IN kids \o drops \o extras \o swaps \o names \o Filter(kinds, LAMBDA x : x.k # "struct" \/ (NoDup(x.n) /\ Len(x.n) = Len(x.f)))

(* sources one might build ty from, or merge into a value of it *)
Sources(ty) ==
  LET vs == Cap(VV[ty], MJ.scap) IN
  MapS(vs, LAMBDA v : D(ty, v)) \o MapS(vs, LAMBDA v : D("Value", ToV(Norm(ty, v))))
  \o Cat(MapS(Cap(VV[ty], MJ.fvals), LAMBDA v : MapS(Faults(ToV(Norm(ty, v))), LAMBDA x : D("Value", x))))
  \o Cat(MapS(REL[ty], LAMBDA t : MapS(Cap(VR(t), 2), LAMBDA v : D(t, v)) \o MapS(Cap(VR(t), 1), LAMBDA v : D("Value", ToV(Norm(t, v))))))

ASSUME TLCSet(12, [t \in DOMAIN VV |-> IF Prop \in {"C02", "C07", "C08"} THEN TLCEval(Sources(t)) ELSE <<>>])
SRC == TLCGet(12)

---------------------------------------------------------------------------
(* parts: <<path, part, address>> down to depth k *)
StepKeys(d) ==
  LET K == Kind(d) IN
  CASE K \in {"struct", "tstruct", "tuple", "enum"} ->
         LET named == K = "struct" \/ (K = "enum" /\ VarKind(d) = "struct")
         IN Tab(NumF(d), LAMBDA j : <<IF named THEN KF(VFs(d)[j].n) ELSE KU(j - 1), Kid(d, j), VFs(d)[j].i>>)
    [] K \in {"list", "array"} -> Tab(Len(d.st.f), LAMBDA j : <<KG(MJ.index[Lesser(j, Len(MJ.index))]), Elem(d, j), j>>)
    [] K = "map" -> Tab(Len(d.st.m), LAMBDA j : <<KG(ToV(EKey(d, j))), EVal(d, j), j>>)
    [] OTHER -> <<>>
RECURSIVE Parts(_, _)
Parts(d, k) ==
  <<<<<<>>, d, <<>>>>>>
  \o (IF k = 0 THEN <<>>
      ELSE Cat(MapS(StepKeys(d), LAMBDA s : MapS(Parts(s[2], k - 1), LAMBDA q :
             <<(IF IsEnum(d) /\ (Len(q[1]) % 2 = 0) THEN <<KV(d.st.var)>> ELSE <<>>) \o <<s[1]>> \o q[1], q[2], <<s[3]>> \o q[3]>>))))

(* every leaf of a node with its storage address: for the frame *)
RECURSIVE Leaves(_)
Leaves(st) ==
  CASE st.k = "map" -> {<<<<>>, ToString(Len(st.m))>>} \cup UNION {{<<<<i>> \o x[1], x[2]>> : x \in Leaves(st.m[i][2])} : i \in 1..Len(st.m)}
    [] "f" \in DOMAIN st -> {<<<<>>, ToString(Len(st.f))>>} \cup UNION {{<<<<i>> \o x[1], x[2]>> : x \in Leaves(st.f[i])} : i \in 1..Len(st.f)}
    [] OTHER -> {<<<<>>, ToString(st)>>}
IsPre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Outside(st, a) == {x \in Leaves(st) : ~IsPre(a, x[1])}

---------------------------------------------------------------------------
(* the machine *)
VARIABLES regs, n, h
vars == <<regs, n, h>>

Only(r, d) == [NoRegs EXCEPT ![r] = d]
Two(d, e) == [NoRegs EXCEPT !["a"] = d, !["b"] = e]
AllTyped == Cat(MapS(Types, LAMBDA t : MapS(VV[t], LAMBDA v : D(t, v))))
AllErased == Cat(MapS(Types, LAMBDA t : MapS(VV[t], LAMBDA v : D("Value", ToV(Norm(t, v))))))
AllDyn == MapS(DYN, LAMBDA v : D("Value", v))

Pairs(s) == Cat(Tab(Len(s), LAMBDA i : Tab(Len(s), LAMBDA j : <<s[i], s[j]>>)))

Starts0 ==
  CASE Prop \in {"C01", "C15", "C21"} -> MapS(AllTyped, LAMBDA d : Only("a", d))
    [] Prop \in {"C03", "C04", "C05", "C17", "C20"} -> MapS(AllTyped \o AllErased, LAMBDA d : Only("a", d))
    [] Prop \in {"C07", "C08"} ->
         Cat(MapS(Types, LAMBDA t : Cat(MapS(Cap(VV[t], MJ.tcap), LAMBDA v :
            MapS(SRC[t], LAMBDA s : Two(D(t, v), s))
            \o (IF Prop = "C07" THEN MapS(Spread(SRC[t], 12), LAMBDA s : Two(D("Value", ToV(Norm(t, v))), s))
                ELSE MapS(Spread(SRC[t], 12), LAMBDA s : Two(D("Value", ToV(Norm(t, v))), s)))))))
    [] Prop = "C02" -> <<>>
    [] Prop = "C09" -> MapS(Pairs(AllDyn), LAMBDA p : Two(p[1], p[2]))
    [] Prop \in {"C10", "C11"} -> MapS(AllTyped \o Cat(MapS(Types, LAMBDA t : MapS(Cap(VV[t], 2), LAMBDA v : D("Value", ToV(Norm(t, v)))))), LAMBDA d : Only("a", d))
    [] Prop = "C16" -> MapS(AllErased \o AllDyn, LAMBDA d : Only("a", d))
    [] Prop = "C18" -> MapS(AllTyped, LAMBDA d : Two(d, D("Value", ToV(N(d)))))
    [] Prop \in {"C06", "C12", "C14", "C22"} -> MapS(Types, LAMBDA t : Only("a", D("u8", POOL["u8"][1])))      \* h holds the type
    [] Prop \in {"C19", "C23"} -> <<NoRegs>>

ASSUME TLCSet(13, TLCEval(Starts0))
Starts == TLCGet(13)
Op(o, r) == [o |-> o, r |-> r]
RegSeq == <<"a", "b", "c", "d", "e", "f", "g", "h">>
LastReg(rs) == CHOOSE i \in 1..8 : Here(rs, RegSeq[i]) /\ \A j \in (i + 1)..8 : ~Here(rs, RegSeq[j])

Names2(d) ==
  LET T == TT[d.ty] IN
  (IF T.dyn THEN (IF "n" \in DOMAIN d.st THEN d.st.n ELSE <<>>)
   ELSE IF T.kind = "enum" THEN Cat(MapS(T.variants, LAMBDA V : MapS(V.fields, LAMBDA f : f.n)))
   ELSE MapS(T.fields, LAMBDA f : f.n)) \o <<"zz", "0", "">>
Uniq(s) == Cat(Tab(Len(s), LAMBDA i : IF \E j \in 1..(i - 1) : s[j] = s[i] THEN <<>> ELSE <<s[i]>>))
InspOp(r, d) == [o |-> "insp", r |-> r, names |-> Uniq(Names2(N(d)))]

(* every way to write to a part *)
Alts(t) == IF t.ty \in DOMAIN VV THEN Cap(Filter(VV[t.ty], LAMBDA v : v # t.st), 2)
           ELSE IF TT[t.ty].dyn \/ t.ty \in {"Vec<Value>", "BTreeMap<Value, Value>"} THEN Cap(Faults(t.st), 2) 
           ELSE Cap(Filter(SMALL[t.ty], LAMBDA v : v # t.st), 2)
SameKind(t, v) == ~TT[t.ty].dyn \/ v.k = TT[t.ty].kind
WritesTo(t) ==
  LET as == Alts(t)
      ok == Filter(as, LAMBDA v : SameKind(t, v)) IN
  MapS(Cap(ok, 1), LAMBDA v : <<"dc", D(t.ty, v)>>)
  \o MapS(Cap(ok, 1), LAMBDA v : <<"patch", D(t.ty, v)>>)
  \o (IF ok = <<>> THEN <<>> ELSE <<<<"patch", D("Value", ToV(Norm(t.ty, ok[Len(ok)])))>>>>)
  \o (IF Kind(t) = "scalar" THEN MapS(as, LAMBDA v : <<"scal", D(t.ty, v)>>) ELSE <<>>)
  \o <<<<"dc", D(IF t.ty = "u8" THEN "i8" ELSE "u8", POOL[IF t.ty = "u8" THEN "i8" ELSE "u8"][2])>>>>
RoutesOf(d) ==
  LET ps == Parts(d, 2)
      ks == StepKeys(d)
      K == Kind(d)
  IN MapS(ps, LAMBDA p : <<[p |-> "path", path |-> p[1]], p[2]>>)
     \o Cat(Tab(Len(ks), LAMBDA j : <<<<[p |-> "at", i |-> j - 1], ks[j][2]>>, <<[p |-> "it", i |-> j - 1], ks[j][2]>>>>
          \o (IF ks[j][1].k = "f" THEN <<<<[p |-> "field", n |-> ks[j][1].n], ks[j][2]>>>> ELSE <<>>)
          \o (IF K = "map" THEN <<<<[p |-> "mget", kd |-> D(KeyTy(d), d.st.m[j][1])], ks[j][2]>>>> ELSE <<>>)))
     \o <<<<[p |-> "at", i |-> Len(ks)], d>>, <<[p |-> "it", i |-> Len(ks)], d>>, <<[p |-> "field", n |-> "zz"], d>>, <<[p |-> "self"], d>>>>
WriteOps(r, d) == Cat(MapS(RoutesOf(d), LAMBDA q : MapS(WritesTo(q[2]), LAMBDA w : [o |-> "w", r |-> r, route |-> q[1], how |-> w[1], d |-> w[2]])))

(* paths: all the part's own keys, all keys of the neighbourhood *)
RECURSIVE PathsOf(_, _)
PathsOf(d, k) ==
  <<<<>>>>
  \o (IF k = 0 THEN <<>>
      ELSE LET own == StepKeys(d)
               near == IF k = MJ.pdep THEN KEYS ELSE Spread(KEYS, 5)
           IN (IF IsEnum(d) THEN <<<<KV(d.st.var)>>, <<KV(d.st.var), KV(d.st.var)>>>> ELSE <<>>)
              \o MapS(near, LAMBDA x : <<x>>)
              \o Cat(MapS(own, LAMBDA s : MapS(PathsOf(s[2], k - 1), LAMBDA q : <<s[1]>> \o q)))
              \o (IF IsEnum(d) THEN MapS(own, LAMBDA s : <<KV(d.st.var), s[1]>>) ELSE <<>>))
AskTys(d) == <<d.ty, "u8", "String", "Value">>

(* paths on a type *)
TKeys(p) ==
  LET T == TT[p.ty]  K == DKind(p.ty)
      named(F) == MapS(F, LAMBDA f : KF(f.n))
      pos(F) == Tab(Len(F) + 1, LAMBDA i : KU(i - 1))
  IN CASE K = "struct" -> named(T.fields)
       [] K \in {"tstruct", "tuple"} -> pos(T.fields)
       [] K = "enum" -> IF p.var = "" THEN MapS(T.variants, LAMBDA V : KV(V.n)) ELSE LET V == VarOf(p.ty, p.var) IN (IF V.vk = "struct" THEN named(V.fields) ELSE pos(V.fields)) \o <<KV(p.var)>>
       [] OTHER -> <<KG(MJ.index[1]), KG(MJ.index[3])>>
RECURSIVE TPaths(_, _)
TPaths(p, k) ==
  <<<<>>>>
  \o (IF k = 0 THEN <<>>
      ELSE (IF k >= MJ.pdep - 1 THEN MapS(KEYS, LAMBDA x : <<x>>) ELSE <<>>)
           \o Cat(MapS(TKeys(p), LAMBDA key : LET s == TStep(p, key) IN IF s = None THEN <<<<key>>, <<key, KG(MJ.index[1])>>>> ELSE MapS(TPaths(s[1], k - 1), LAMBDA q : <<key>> \o q))))

(* values to push, keys and values to insert *)
Elems(ty) == MapS(Cap(VR(ty), 2), LAMBDA v : D(ty, v)) \o MapS(Cap(VR(ty), 1), LAMBDA v : D("Value", ToV(Norm(ty, v)))) \o MapS(Cap(Faults(ToV(Norm(ty, VR(ty)[1]))), 1), LAMBDA x : D("Value", x))
Has(ty) == VR(ty) # <<>>

Calls(state) == MJ.calls
Fmts == <<"json", "bincode", "cbor", "speedy">>
RECURSIVE JsonOK(_)
JsonOK(x) == CASE x.k = "s" -> x.t \notin {"f32", "f64"} \/ x.v \notin {"NaN", "inf", "-inf"}
               [] x.k = "map" -> x.m = <<>>
               [] OTHER -> \A i \in 1..Len(x.f) : JsonOK(x.f[i])

RECURSIVE HasEnum(_)
HasEnum(x) == CASE x.k = "s" -> FALSE [] x.k = "enum" -> TRUE [] x.k = "map" -> \E i \in 1..Len(x.m) : HasEnum(x.m[i][1]) \/ HasEnum(x.m[i][2]) [] OTHER -> \E i \in 1..Len(x.f) : HasEnum(x.f[i])
MovesOf(rs, hh) ==
  LET a == rs["a"]
      l == LastReg(rs)
      r == RegSeq[l]
      to == RegSeq[l + 1]
      A == N(a)
  IN CASE Prop = "C01" -> <<[o |-> "tov", r |-> r, to |-> to], [o |-> "fr", r |-> r, to |-> to, t |-> a.ty], [o |-> "clone", r |-> r, to |-> to, how |-> "clone_reflect"]>>
                          \o (IF n = 0 THEN <<[o |-> "vfrom", r |-> "b", d |-> a], [o |-> "vref", r |-> "a", to |-> "b"]>> ELSE <<>>)
       [] Prop = "C02" -> <<[o |-> "fr", r |-> "a", to |-> "h", t |-> hh[1]]>> \o (IF n = 0 THEN <<[o |-> "fr", r |-> "a", to |-> "h", t |-> "Value"]>> ELSE <<>>)
       [] Prop = "C03" -> <<InspOp("a", a)>>
       [] Prop = "C04" -> Spread(WriteOps("a", A), MJ.wcap)
       [] Prop = "C05" -> MapS(PathsOf(A, MJ.pdep), LAMBDA p : [o |-> "at", r |-> "a", p |-> p, tys |-> AskTys(A)])
       [] Prop \in {"C06", "C14"} -> MapS(TPaths([ty |-> hh[1], var |-> ""], MJ.pdep), LAMBDA p : [o |-> "tat", t |-> hh[1], p |-> p, mk |-> <<"none">>])
                             \o (IF Prop = "C14" THEN <<[o |-> "dflt", t |-> hh[1]]>> ELSE <<>>)
       [] Prop = "C12" -> <<[o |-> "desc", t |-> hh[1], mk |-> MJ.mk]>> \o MapS(TPaths([ty |-> hh[1], var |-> ""], 3), LAMBDA p : [o |-> "tat", t |-> hh[1], p |-> p, mk |-> MJ.mk])
       [] Prop = "C22" -> <<[o |-> "pp", t |-> hh[1]]>>
       [] Prop = "C07" -> <<[o |-> "patch", r |-> "a", s |-> "b"]>>
       [] Prop = "C08" -> <<[o |-> "eq", r |-> "a", s |-> "b"]>>
       [] Prop = "C09" -> <<[o |-> "cmp", r |-> "a", s |-> "b"]>>
       [] Prop = "C10" ->
            IF ~Has(ElemTy(A)) THEN <<>>
            ELSE MapS(Elems(ElemTy(A)), LAMBDA d : [o |-> "push", r |-> "a", d |-> d])
            \o <<[o |-> "pop", r |-> "a", to |-> "b"]>> \o Tab(Len(A.st.f) + 1, LAMBDA i : [o |-> "rem", r |-> "a", i |-> i - 1, to |-> "b"])
            \o Tab(Len(A.st.f) + 1, LAMBDA i : [o |-> "w", r |-> "a", route |-> [p |-> "at", i |-> i - 1], how |-> "patch", d |-> Elems(ElemTy(A))[1 + (i % 3)]])
            \o <<InspOp("a", a)>>
       [] Prop = "C11" ->
            IF ~Has(KeyTy(A)) \/ ~Has(ValTy(A)) THEN <<>>
            ELSE LET ks == Elems(KeyTy(A))  vs == Elems(ValTy(A)) IN
            Cat(Tab(Len(ks), LAMBDA i : <<[o |-> "mins", r |-> "a", kd |-> ks[i], d |-> vs[1 + (i % Len(vs))], to |-> "b"],
                                          [o |-> "mrem", r |-> "a", kd |-> ks[i], to |-> "b"], [o |-> "mget", r |-> "a", kd |-> ks[i]],
                                          [o |-> "w", r |-> "a", route |-> [p |-> "mget", kd |-> ks[i]], how |-> "patch", d |-> vs[1]]>>))
            \o <<[o |-> "mins", r |-> "a", kd |-> ks[1], d |-> vs[Len(vs)], to |-> "b"], InspOp("a", a)>>
       [] Prop = "C15" -> LET m == Len(VisitT(a.ty, a.st)) IN Tab(Lesser(m, 6) + 2, LAMBDA i : [o |-> "visit", r |-> "a", fail |-> i - 2])
       [] Prop = "C16" -> MapS(Filter(Fmts, LAMBDA f : f # "json" \/ JsonOK(a.st)), LAMBDA f : [o |-> "ser", r |-> "a", fmt |-> f])
       [] Prop = "C17" -> IF n = 0 THEN MapS(<<"clone_reflect", "to_owned", "owned">>, LAMBDA w : [o |-> "clone", r |-> "a", to |-> "b", how |-> w])
                          ELSE IF n = 1 THEN Spread(WriteOps("b", N(rs["b"])), MJ.wcap) \o Spread(WriteOps("a", A), MJ.wcap) ELSE <<InspOp("a", a)>>
       [] Prop = "C18" -> IF hh = <<>> THEN Cat(MapS(Filter(RoutesOf(A), LAMBDA q : q[1].p # "mget" /\ ~(q[1].p = "it" /\ Kind(A) = "map")), LAMBDA q :
                                LET as == Filter(Alts(q[2]), LAMBDA v : SameKind(q[2], v) /\ ~HasEnum(ToV(q[2]))) IN
                                MapS(Cap(as, 1), LAMBDA v : [o |-> "w", r |-> "a", route |-> q[1], how |-> IF Kind(q[2]) = "scalar" THEN "scal" ELSE "patch",
                                                             d |-> IF Kind(q[2]) = "scalar" THEN D(q[2].ty, v) ELSE D("Value", ToV(Norm(q[2].ty, v)))])))
                                \o <<InspOp("b", rs["b"]), [o |-> "tov", r |-> "a", to |-> "c"], [o |-> "tov", r |-> "b", to |-> "c"]>>
                          ELSE <<[hh[1] EXCEPT !.r = "b"]>>
       [] Prop = "C19" -> MapS(MJ.calls, LAMBDA c : [o |-> "kp", calls |-> Append(hh, c), other |-> KpRun(<<>>, hh, 1)])
       [] Prop = "C20" -> MapS(<<FALSE, TRUE>>, LAMBDA b : [o |-> "conv", r |-> "a", boxed |-> b, tys |-> AskTys(A)])
       [] Prop = "C21" -> IF TT[a.ty].hasdyn THEN <<>> ELSE <<[o |-> "dbg", r |-> "a"]>>
       [] Prop = "C23" -> IF hh = <<>> THEN MapS(MJ.builds, LAMBDA w : [o |-> "build", r |-> "a", what |-> w, calls |-> <<>>, cap |-> 0, name |-> "V"])
                          ELSE LET b == hh[1] IN MapS(Filter(MJ.calls, LAMBDA c : c.for = (IF b.what \in {"estruct", "etuple", "eunit"} THEN "e" ELSE IF b.what = "struct" THEN "s" ELSE "t")
                                                                                   /\ (b.calls # <<>> /\ c.for = "e" /\ b.calls[Len(b.calls)].late => c.late) /\ (b.what = "eunit" => c.late)),
                                                      LAMBDA c : [b EXCEPT !.calls = Append(@, c)])

(* what is remembered besides the registers *)
NextH(op) ==
  CASE Prop = "C18" -> IF op.o # "w" THEN h ELSE IF h = <<>> THEN <<op>> ELSE <<>>
    [] Prop = "C19" -> op.calls
    [] Prop = "C23" -> <<op>>
    [] OTHER -> h

---------------------------------------------------------------------------
(* laws *)

(* reflected parts, skipped ones at their default *)
RECURSIVE Canon(_, _)
CanonF(F, f) == Tab(Len(F), LAMBDA i : IF F[i].skip THEN F[i].d[1] ELSE IF F[i].frw = "tag" THEN TJ.tag ELSE Canon(F[i].t, f[i]))
Canon(ty, st) ==
  LET T == TT[ty] IN
  CASE T.dyn \/ T.kind \in {"scalar", "opaque"} -> st
    [] T.kind = "via" -> IF ty = "Duration" /\ st.s.v \in DOMAIN DUR THEN DUR[st.s.v][1] ELSE st      \* known finding: f32 seconds
    [] T.kind \in {"struct", "tstruct", "tuple"} -> [st EXCEPT !.f = CanonF(T.fields, st.f)]
    [] T.kind = "enum" -> [st EXCEPT !.f = CanonF(VarOf(ty, st.var).fields, st.f)]
    [] T.kind \in {"list", "array"} -> [st EXCEPT !.f = Tab(Len(st.f), LAMBDA i : Canon(T.elem, st.f[i]))]
    [] T.kind = "map" -> [st EXCEPT !.m = Tab(Len(st.m), LAMBDA i : <<Canon(T.key, st.m[i][1]), Canon(T.val, st.m[i][2])>>)]

(* can ty be built from d?  stated as what must be there *)
RECURSIVE Fits(_, _)
FieldFits(F, k) == F.skip \/ F.frw = "or7" \/ Fits(F.t, k)
Fits(ty, d) ==
  LET T == TT[ty]  K == Kind(d)
      named(F) == \A i \in 1..Len(F) : F[i].skip \/ \E j \in 1..NumF(d) : VFs(d)[j].n = F[i].n /\ F[i].n # "" /\ FieldFits(F[i], Kid(d, j))
      pos(F, inv) == \A i \in 1..Len(F) : F[i].skip \/ (inv[i] <= NumF(d) /\ FieldFits(F[i], Kid(d, inv[i])))
  IN CASE T.kind = "value" -> TRUE
       [] T.dyn -> K = T.kind
       [] T.kind = "scalar" -> d.ty = ty
       [] T.kind = "via" -> d.ty = ty \/ (d.ty = T.scal /\ IF ty = "Duration" THEN d.st.v \in DOMAIN DUR /\ DUR[d.st.v] # <<>> ELSE d.st.v # "0")
                              \/ (Kind(d) = "via" /\ d.ty = ty)
       [] T.kind = "opaque" -> d.ty \in {ty, "u8"}
       [] T.kind = "struct" -> K = "struct" /\ named(T.fields)
       [] T.kind \in {"tstruct", "tuple"} -> K = T.kind /\ pos(T.fields, T.inv)
       [] T.kind = "enum" -> K = "enum" /\ \E i \in 1..Len(T.variants) :
              LET V == T.variants[i] IN ~V.skip /\ V.n = d.st.var /\ IF V.vk = "struct" THEN named(V.fields) ELSE pos(V.fields, V.inv)
       [] T.kind = "list" -> K = "list" /\ \A i \in 1..Len(d.st.f) : Fits(T.elem, Elem(d, i))
       [] T.kind = "array" -> K \in {"list", "array"} /\ Len(d.st.f) = T.len /\ \A i \in 1..T.len : Fits(T.elem, Elem(d, i))
       [] T.kind = "map" -> K = "map" /\ \A i \in 1..Len(d.st.m) : Fits(T.key, EKey(d, i)) /\ Fits(T.val, EVal(d, i))

(* scalar leaves in visiting order, by walking the erased form of a fully visible value *)
RECURSIVE ErasedLeaves(_)
ErasedLeaves(st) ==
  CASE st.k = "s" -> <<st>>
    [] st.k = "map" -> Cat(Tab(Len(st.m), LAMBDA i : ErasedLeaves(st.m[i][1]) \o ErasedLeaves(st.m[i][2])))
    [] OTHER -> Cat(Tab(Len(st.f), LAMBDA i : ErasedLeaves(st.f[i])))
VisitLeaves(v) == Cat(MapS(v, LAMBDA e : IF e[1] = "opaque" THEN ErasedLeaves(ToV(e[2][2])) ELSE <<e[2]>>))

(* x, of a's type or erased, has the parts of a *)
SameParts(a, x) ==
  LET y == IF x.ty = a.ty THEN <<x.st>> ELSE FromR(a.ty, N(x))
  IN y # None /\ Canon(a.ty, y[1]) = Canon(a.ty, a.st)
(* what patching must keep: the shape *)
RECURSIVE SameSizes(_, _)
SameSizes(x, y) ==
  /\ x.k = y.k
  /\ CASE x.k \in {"list", "array"} -> Len(x.f) = Len(y.f)
       [] x.k = "map" -> Len(x.m) = Len(y.m) /\ \A i \in 1..Len(x.m) : x.m[i][1] = y.m[i][1]
       [] OTHER -> TRUE

(* an erased value with named fields in a fixed order, scalars by type and order key *)
RECURSIVE Sorted2(_)
Sorted2(x) ==
  CASE x.k = "s" -> <<x.t, ToString(x.o)>>
    [] x.k = "map" -> <<"map", ToString({<<Sorted2(x.m[i][1]), Sorted2(x.m[i][2])>> : i \in 1..Len(x.m)})>>
    [] x.k = "struct" -> <<"struct", ToString({<<x.n[i], ToString(Sorted2(x.f[i]))>> : i \in 1..Len(x.n)})>>
    [] x.k = "enum" -> <<"enum" \o x.vk \o x.var, IF x.vk = "struct" THEN ToString({<<x.n[i], ToString(Sorted2(x.f[i]))>> : i \in 1..Len(x.n)}) ELSE ToString(MapS(x.f, Sorted2))>>
    [] OTHER -> <<x.k, ToString(MapS(x.f, Sorted2))>>
RECURSIVE HasNaN(_)
HasNaN(x) == CASE x.k = "s" -> IsNaN(x) [] x.k = "map" -> \E i \in 1..Len(x.m) : HasNaN(x.m[i][1]) \/ HasNaN(x.m[i][2]) [] OTHER -> \E i \in 1..Len(x.f) : HasNaN(x.f[i])

(* does every enum on the way have its variant named before a field is taken, and is nothing erased passed? *)
RECURSIVE NV(_, _, _)
NV(ty, d, p) ==
  IF p = <<>> THEN TRUE
  ELSE IF TT[ty].dyn THEN FALSE
  ELSE LET s == Step1(d, Head(p))  K == Kind(d) IN
       IF s = None THEN FALSE
       ELSE IF K = "enum" /\ Head(p).k # "v" THEN FALSE
       ELSE IF K = "enum" THEN
         \* the variant was named: now a field, or the same variant again
         IF Len(p) = 1 THEN TRUE
         ELSE IF p[2].k = "v" THEN NV(ty, d, Tail(p))
         ELSE LET s2 == Step1(d, p[2]) IN s2 # None /\ NV(VarOf(ty, d.st.var).fields[s2[1][1]].t, GetA(d, s2[1]), SubSeq(p, 3, Len(p)))
       ELSE LET t2 == CASE K \in {"list", "array"} -> TT[ty].elem [] K = "map" -> TT[ty].val [] OTHER -> TT[ty].fields[s[1][1]].t
            IN NV(t2, GetA(d, s[1]), Tail(p))
PathPart(d, p) == LET a == AtA(d, p) IN OptD(d, a)
Law(op, out, rs, rs2) ==
  LET a == rs["a"]  A == N(a)  b == rs["b"] IN
  CASE Prop = "C01" ->
         /\ op.o = "fr" => out.t = "some"
         /\ \A i \in 1..8 : Here(rs2, RegSeq[i]) =>
              LET x == rs2[RegSeq[i]] IN
              IF x.ty = a.ty /\ a.ty # "Value" THEN Canon(x.ty, x.st) = Canon(a.ty, a.st) ELSE (x.ty = "Value" => SameParts(a, x))
    [] Prop = "C02" ->
         /\ (out.t = "some") = Fits(op.t, A)
         /\ rs2["a"] = a
         /\ out.t = "some" /\ ~TT[op.t].dyn => WellTyped(op.t, rs2["h"].st) /\ Canon(op.t, rs2["h"].st) = (IF a.ty = op.t THEN Canon(op.t, a.st) ELSE Canon(op.t, rs2["h"].st))
    [] Prop = "C03" ->
         out.k \in {"struct", "tstruct", "tuple", "list", "array"} =>
           /\ Len(out.it) = out.len /\ out.at = out.atm /\ out.it = out.itm
           /\ \A i \in 1..out.len : out.at[i] = <<IF out.k = "struct" THEN out.it[i][2] ELSE out.it[i]>>
           /\ \A i \in (out.len + 1)..Len(out.at) : out.at[i] = <<>>
    [] Prop \in {"C04"} ->
         LET ad == Route(A, op.route) IN
         /\ ad = None => out.t = "none" /\ rs2 = rs
         /\ ad # None => Outside(rs2["a"].st, ad[1]) = Outside(a.st, ad[1])
         /\ out.t = "ok" /\ op.how \in {"dc", "scal"} => GetA(N(rs2["a"]), ad[1]).st = op.d.st
         /\ out.t # "ok" => rs2 = rs
    [] Prop = "C05" ->
         /\ out.at = out.mut
         /\ \A k \in 0..Len(op.p) :
              LET x == PathPart(A, SubSeq(op.p, 1, k)) IN out.at = (IF x = <<>> THEN <<>> ELSE PathPart(x[1], SubSeq(op.p, k + 1, Len(op.p))))
    [] Prop = "C06" ->
         \A i \in 1..Len(VV[op.t]) :
           LET x == PathPart(Norm(op.t, VV[op.t][i]), op.p) IN
           \* soundness: a path that reaches a part of a value, and is resolved on the type, names the part's type
           /\ x # <<>> /\ out.a # <<>> => Names[x[1].ty] = out.a[1].n \/ out.a[1].n = Names["Value"]
           \* completeness: a path that names its variants and reaches a part of a value is known to the type (below an erased part nothing is)
           /\ x # <<>> /\ NV(op.t, Norm(op.t, VV[op.t][i]), op.p) => out.a # <<>>
    [] Prop = "C07" ->
         LET once == rs2["a"] IN
         /\ SameSizes(a.st, once.st) \/ Kind(A) = "enum"
         /\ Patch(N(once), N(b)) = once.st
         /\ rs2["b"] = b
         /\ Kind(A) \notin {"enum"} /\ Kind(A) # Kind(N(b)) /\ ~(Kind(A) \in {"scalar", "via", "opaque"}) /\ ~(Kind(A) = "array" /\ Kind(N(b)) = "list") => once = a
    [] Prop = "C08" ->
         /\ (out.t = "t") = (out.rev = "t")
         \* yes exactly when the erased forms, fields put in a fixed order, are the same (floats: zeros equal; arrays and opaque parts apart)
         /\ ~(MJ.special[a.ty] \/ MJ.special[b.ty]) /\ ~HasNaN(ToV(A)) /\ ~HasNaN(ToV(N(b))) => (out.t = "t") = (Sorted2(ToV(A)) = Sorted2(ToV(N(b))))
         /\ (a = b /\ ~HasNaN(ToV(A)) /\ out.t # "n") => out.t = "t"
    [] Prop = "C09" ->
         LET c == CmpV(a.st, b.st) IN
         /\ CmpV(b.st, a.st) = 0 - c
         /\ \A i \in 1..Len(DYN) : LET z == DYN[i] IN (c <= 0 /\ CmpV(b.st, z) <= 0) => CmpV(a.st, z) <= 0 /\ ((c < 0 \/ CmpV(b.st, z) < 0) => CmpV(a.st, z) < 0)
         /\ (a.st.k # b.st.k \/ (a.st.k = "s" /\ b.st.k = "s" /\ a.st.t # b.st.t)) => c # 0
    [] Prop = "C10" ->
         LET old == a.st.f  new == rs2["a"].st.f IN
         (CASE op.o = "push" -> IF Kind(A) = "list" /\ Fits(ElemTy(A), N(op.d)) THEN Len(new) = Len(old) + 1 /\ SubSeq(new, 1, Len(old)) = old ELSE new = old
           [] op.o = "pop" -> IF Kind(A) = "list" /\ old # <<>> THEN new = SubSeq(old, 1, Len(old) - 1) /\ rs2["b"].st = old[Len(old)] ELSE new = old
           [] op.o = "rem" -> IF Kind(A) = "list" /\ op.i < Len(old) THEN Len(new) = Len(old) - 1 /\ rs2["b"].st = old[op.i + 1] /\ \A j \in 1..Len(new) : new[j] = old[IF j <= op.i THEN j ELSE j + 1] ELSE new = old
           [] OTHER -> Len(new) = Len(old))
    [] Prop = "C11" ->
         LET old == a.st.m  new == rs2["a"].st.m
             dom(m) == {m[i][1] : i \in 1..Len(m)}
             fits == op.o = "insp" \/ (IF op.o = "w" THEN TRUE ELSE Fits(KeyTy(A), N(op.kd)))
         IN /\ Sorted(KeyTy(A), new)
            /\ (CASE op.o = "mins" -> IF fits /\ Fits(ValTy(A), N(op.d)) THEN Len(new) = Len(old) + (IF out.t = "some" THEN 0 ELSE 1) /\ dom(old) \subseteq dom(new) ELSE new = old
                 [] op.o = "mrem" -> IF out.t = "some" THEN Len(new) = Len(old) - 1 /\ dom(new) \subseteq dom(old) ELSE new = old
                 [] OTHER -> dom(new) = dom(old))
    [] Prop = "C14" ->
         op.o = "dflt" => (out.has = (out.def # <<>>)) /\ (out.has => out.built # <<>> /\ WellTyped(op.t, out.built[1]) /\ Fits(op.t, Norm("Value", out.def[1])))
    [] Prop = "C15" ->
         IF op.fail = -1 THEN out.t = "ok" /\ (MJ.reorders[a.ty] \/ VisitLeaves(out.v) = ErasedLeaves(ToV(A)))
         ELSE LET all == VisitT(a.ty, a.st) IN IsPre(out.v, all) /\ (out.t = "err") = (op.fail < Len(all)) /\ (out.t = "err" => Len(out.v) = op.fail + 1)
    [] Prop = "C16" -> out.st = a.st
    [] Prop = "C17" ->
         IF n = 0 THEN rs2["a"] = a /\ SameParts(a, rs2["b"])
         ELSE IF n = 1 /\ op.o = "w" THEN rs2[IF op.r = "a" THEN "b" ELSE "a"] = rs[IF op.r = "a" THEN "b" ELSE "a"] ELSE TRUE
    [] Prop = "C18" -> (h # <<>>) => ToV(N(rs2["a"])) = rs2["b"].st
    [] Prop = "C19" -> out.len = Len(out.keys) /\ Len(out.crumbs) = out.len /\ \A i \in 1..out.len : Len(out.crumbs[i]) = i /\ IsPre(out.crumbs[i], out.keys) /\ out.rev[i] = out.keys[out.len + 1 - i]
    [] Prop = "C20" -> out.own = out.ref /\ Len(out.refas) = 1 /\ out.self = A
    [] Prop = "C23" -> LET st == rs2["a"].st IN WellErased(st) /\ (st.k = "struct" => \A i \in 1..Len(op.calls) : \E j \in 1..Len(st.n) : st.n[j] = op.calls[i].n)
    [] OTHER -> TRUE

---------------------------------------------------------------------------
Pre(rs) == {<<RegSeq[i], rs[RegSeq[i]]>> : i \in {j \in 1..8 : Here(rs, RegSeq[j])}}
Explain(op, x) == PrintT("LAW " \o ToJson([op |-> op, out |-> x.out, pre |-> Pre(regs), post |-> Pre(x.regs)]))

Init ==
  /\ n = 0
  /\ \/ /\ Prop \notin {"C02", "C06", "C12", "C14", "C22"}
        /\ \E i \in 1..Len(Starts) : regs = Starts[i]
        /\ h = <<>>
     \/ /\ Prop = "C02"
        /\ \E i \in 1..Len(Types) : \E j \in 1..Len(SRC[Types[i]]) : regs = Only("a", SRC[Types[i]][j]) /\ h = <<Types[i]>>
     \/ /\ Prop \in {"C06", "C12", "C14", "C22"}
        /\ regs = NoRegs
        /\ \E i \in 1..Len(Types) : h = <<Types[i]>>
  /\ \A i \in 1..8 : Here(regs, RegSeq[i]) => WellTyped(regs[RegSeq[i]].ty, regs[RegSeq[i]].st)

Next ==
  /\ n < Depth
  /\ n' = n + 1
  /\ LET M == MovesOf(regs, h) IN
     \E i \in 1..Len(M) :
       LET op == M[i]
           x == Step(op, regs)
       IN /\ regs' = x.regs
          /\ h' = NextH(op)
          /\ (Law(op, x.out, regs, x.regs) \/ (Explain(op, x) /\ Assert(FALSE, "a law does not hold")))
          /\ PrintT("T " \o ToJson([pre |-> Pre(regs), op |-> op, out |-> x.out, post |-> {q \in Pre(x.regs) : regs[q[1]] # q[2]}]))

Spec == Init /\ [][Next]_vars
Typed == \A i \in 1..8 : Here(regs, RegSeq[i]) => WellTyped(regs[RegSeq[i]].ty, regs[RegSeq[i]].st)
=============================================================================
