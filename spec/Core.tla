-------------------------------- MODULE Core --------------------------------
(* The meaning of mirror-mirror's reflection: what values are, which parts   *)
(* they have, how they are erased, built, merged, compared, addressed,       *)
(* visited, printed and described.                                           *)
(*                                                                           *)
(* A reflected value is D = [ty, st]: a type id and a node.  The table TT    *)
(* (made from the Rust definitions, see gen/zoo.py) says what each type id   *)
(* means.  Nodes are                                                         *)
(*   scalar  [k "s", t, v, o, i]   v text, o order key, i as an index or -1  *)
(*   via     [k "via", v, s, o]    a type reflected through the scalar s     *)
(*   opaque  [k "opq", v, s]                                                 *)
(*   struct/tstruct/tuple [k, f]   f one node per declared field, skipped    *)
(*                                 ones included; erased structs also have n *)
(*   enum    [k, var, f]           erased ones also have vk and n            *)
(*   list/array [k, f]; map [k, m] m = ordered sequence of <<key, value>>    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets

TJ == JsonDeserialize(IOEnv.MM_TABLE)
TT == TLCEval([t \in DOMAIN TJ.tt |-> TJ.tt[t]])
Names == TLCEval([t \in DOMAIN TJ.names |-> TJ.names[t]])
STR == TLCEval([t \in DOMAIN TJ.str |-> TJ.str[t]])
DUR == TLCEval([t \in DOMAIN TJ.dur |-> TJ.dur[t]])
ZERO == TLCEval([t \in DOMAIN TJ.zero |-> TJ.zero[t]])

Tab(n, Op(_)) == TLCEval([i \in 1..n |-> Op(i)])
MapS(s, Op(_)) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
Lesser(a, b) == IF a < b THEN a ELSE b
None == <<>>
IsSome(o) == Len(o) = 1

ScalarTypes == <<"usize","u8","u16","u32","u64","u128","i8","i16","i32","i64","i128","bool","char","f32","f64","String">>
ScalarRank == TLCEval([t \in {ScalarTypes[i] : i \in 1..16} |-> CHOOSE i \in 1..16 : ScalarTypes[i] = t])
IsScalarTy(t) == t \in DOMAIN ScalarRank

---------------------------------------------------------------------------
(* Types and parts *)

DynTy(st) ==
  CASE st.k = "s" -> st.t
    [] st.k = "struct" -> "StructValue"
    [] st.k = "enum" -> "EnumValue"
    [] st.k = "tuple" -> "TupleValue"
    [] st.k = "tstruct" -> "TupleStructValue"
    [] st.k = "list" -> "Vec<Value>"
    [] st.k = "map" -> "BTreeMap<Value, Value>"

(* an erased value is seen as what it holds *)
Norm(ty, st) == [ty |-> IF ty = "Value" THEN DynTy(st) ELSE ty, st |-> st]
N(d) == Norm(d.ty, d.st)

Kind(d) == TT[d.ty].kind                     \* d normalised
RefKind(d) == IF Kind(d) = "via" THEN "scalar" ELSE Kind(d)
MutKind(d) == IF Kind(d) = "via" THEN "opaque" ELSE Kind(d)

VarIdx(ty, nm) == LET vs == TT[ty].variants IN CHOOSE i \in 1..Len(vs) : vs[i].n = nm
VarOf(ty, nm) == TT[ty].variants[VarIdx(ty, nm)]
IsEnum(d) == Kind(d) = "enum"
VarKind(d) == IF TT[d.ty].dyn THEN d.st.vk ELSE VarOf(d.ty, d.st.var).vk

DynField(n, i) == [n |-> n, t |-> "Value", i |-> i, b |-> FALSE, frw |-> ""]
(* the visible fields of a value of a kind that has fields *)
VFs(d) ==
  LET T == TT[d.ty] IN
  IF T.dyn THEN
    IF Kind(d) = "struct" \/ (Kind(d) = "enum" /\ d.st.vk = "struct")
    THEN [i \in 1..Len(d.st.f) |-> DynField(d.st.n[i], i)]
    ELSE [i \in 1..Len(d.st.f) |-> DynField("<none>", i)]      \* no name, not even the empty one
  ELSE IF T.kind = "enum" THEN VarOf(d.ty, d.st.var).vf ELSE T.vf
NumF(d) == IF TT[d.ty].dyn THEN Len(d.st.f) ELSE Len(VFs(d))

(* storage index of the fields: which visible field (0: skipped) *)
Inv(d) ==
  LET T == TT[d.ty] IN
  IF T.dyn THEN [i \in 1..Len(d.st.f) |-> i]
  ELSE IF T.kind = "enum" THEN VarOf(d.ty, d.st.var).inv ELSE T.inv

Kid(d, j) == LET f == VFs(d)[j] IN Norm(f.t, d.st.f[f.i])
Kids(d) == Tab(NumF(d), LAMBDA j : Kid(d, j))

ElemTy(d) == TT[d.ty].elem
Elem(d, j) == Norm(TT[d.ty].elem, d.st.f[j])
KeyTy(d) == TT[d.ty].key
ValTy(d) == TT[d.ty].val
EKey(d, j) == Norm(TT[d.ty].key, d.st.m[j][1])
EVal(d, j) == Norm(TT[d.ty].val, d.st.m[j][2])

(* position of a field by its name, 0 if there is none *)
FieldIdx(d, n) ==
  LET vf == VFs(d)
      I == {j \in 1..Len(vf) : vf[j].n = n}
  IN IF I = {} \/ (n = "" /\ ~TT[d.ty].dyn) THEN 0 ELSE CHOOSE j \in I : TRUE

---------------------------------------------------------------------------
(* Orders *)

RECURSIVE CmpI(_, _, _)
CmpI(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpI(a, b, i + 1)
CmpInt(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Bytes(s) == IF s \in DOMAIN STR THEN STR[s] ELSE <<>>
CmpS(a, b) == IF a = b THEN 0 ELSE CmpI(Bytes(a), Bytes(b), 1)

KRank(n) == CASE n.k = "s" -> ScalarRank[n.t] [] n.k = "struct" -> 17 [] n.k = "enum" -> 18 [] n.k = "tstruct" -> 19
              [] n.k = "tuple" -> 20 [] n.k = "list" -> 21 [] n.k = "map" -> 22
VKRank(k) == CASE k = "struct" -> 1 [] k = "tuple" -> 2 [] k = "unit" -> 3

RECURSIVE CmpSs(_, _, _)
CmpSs(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE LET c == CmpS(a[i], b[i]) IN IF c # 0 THEN c ELSE CmpSs(a, b, i + 1)

(* field values in the order of their names *)
ByName(n, f) ==
  LET ix == SortSeq([i \in 1..Len(n) |-> i], LAMBDA x, y : CmpS(n[x], n[y]) = -1)
  IN Tab(Len(n), LAMBDA i : f[ix[i]])
FlatM(m) == Tab(2 * Len(m), LAMBDA i : m[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2])

(* the total order of erased values *)
RECURSIVE CmpV(_, _), CmpVs(_, _, _)
CmpVs(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE LET c == CmpV(a[i], b[i]) IN IF c # 0 THEN c ELSE CmpVs(a, b, i + 1)
CmpNF(an, af, bn, bf) ==
  LET c == CmpSs(an, bn, 1) IN IF c # 0 THEN c ELSE CmpVs(ByName(an, af), ByName(bn, bf), 1)
CmpV(a, b) ==
  LET c == CmpInt(KRank(a), KRank(b)) IN
  IF c # 0 THEN c
  ELSE CASE a.k = "s" -> CmpI(a.o, b.o, 1)
         [] a.k = "struct" -> CmpNF(a.n, a.f, b.n, b.f)
         [] a.k = "enum" ->
              LET x == CmpS(a.var, b.var)
                  y == CmpInt(VKRank(a.vk), VKRank(b.vk))
              IN IF x # 0 THEN x ELSE IF y # 0 THEN y
                 ELSE IF a.vk = "struct" THEN CmpNF(a.n, a.f, b.n, b.f) ELSE CmpVs(a.f, b.f, 1)
         [] a.k = "map" -> CmpVs(FlatM(a.m), FlatM(b.m), 1)
         [] OTHER -> CmpVs(a.f, b.f, 1)

(* the order of a typed map's keys *)
RECURSIVE CmpT(_, _, _), CmpTs(_, _, _, _)
CmpTs(tys, a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE LET c == CmpT(tys[i], a[i], b[i]) IN IF c # 0 THEN c ELSE CmpTs(tys, a, b, i + 1)
CmpT(ty, a, b) ==
  LET T == TT[ty] IN
  CASE T.kind = "scalar" -> CmpI(a.o, b.o, 1)
    [] T.kind = "via" -> IF ty = "Duration" THEN CmpI(a.o, b.o, 1) ELSE CmpI(a.s.o, b.s.o, 1)
    [] T.kind = "value" -> CmpV(a, b)
    [] T.kind \in {"struct", "tstruct", "tuple"} -> CmpTs([i \in 1..Len(T.fields) |-> T.fields[i].t], a.f, b.f, 1)
    [] T.kind = "enum" ->
         LET c == CmpInt(VarIdx(ty, a.var), VarIdx(ty, b.var)) IN
         IF c # 0 THEN c ELSE LET F == VarOf(ty, a.var).fields IN CmpTs([i \in 1..Len(F) |-> F[i].t], a.f, b.f, 1)
    [] T.kind \in {"list", "array"} -> CmpTs([i \in 1..Len(a.f) |-> T.elem], a.f, b.f, 1)

(* finite maps as ordered sequences of entries *)
MapIdx(kt, m, k) ==
  LET I == {i \in 1..Len(m) : CmpT(kt, m[i][1], k) = 0} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
MapPut(kt, m, k, v) ==
  LET i == MapIdx(kt, m, k) IN
  IF i # 0 THEN [m EXCEPT ![i] = <<m[i][1], v>>]
  ELSE LET p == Cardinality({j \in 1..Len(m) : CmpT(kt, m[j][1], k) = -1})
       IN SubSeq(m, 1, p) \o <<<<k, v>>>> \o SubSeq(m, p + 1, Len(m))
DelAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE MapOf(_, _, _, _)
MapOf(kt, es, i, acc) == IF i > Len(es) THEN acc ELSE MapOf(kt, es, i + 1, MapPut(kt, acc, es[i][1], es[i][2]))

---------------------------------------------------------------------------
(* Erasing *)

RECURSIVE ToV(_)
ToV(d) ==
  LET T == TT[d.ty] IN
  IF T.dyn \/ T.kind = "scalar" \/ d.ty \in {"Vec<Value>", "BTreeMap<Value, Value>"} THEN d.st
  ELSE CASE T.kind \in {"via", "opaque"} -> d.st.s
         [] T.kind = "struct" -> [k |-> "struct", n |-> Tab(Len(T.vf), LAMBDA j : T.vf[j].n), f |-> Tab(Len(T.vf), LAMBDA j : ToV(Kid(d, j)))]
         [] T.kind \in {"tstruct", "tuple"} -> [k |-> T.kind, f |-> Tab(Len(T.vf), LAMBDA j : ToV(Kid(d, j)))]
         [] T.kind = "enum" ->
              LET V == VarOf(d.ty, d.st.var) IN
              [k |-> "enum", var |-> V.n, vk |-> V.vk, n |-> IF V.vk = "struct" THEN Tab(Len(V.vf), LAMBDA j : V.vf[j].n) ELSE <<>>,
               f |-> Tab(Len(V.vf), LAMBDA j : ToV(Kid(d, j)))]
         [] T.kind \in {"list", "array"} -> [k |-> "list", f |-> Tab(Len(d.st.f), LAMBDA j : ToV(Elem(d, j)))]
         [] T.kind = "map" -> [k |-> "map", m |-> MapOf("Value", Tab(Len(d.st.m), LAMBDA j : <<ToV(EKey(d, j)), ToV(EVal(d, j))>>), 1, <<>>)]

(* does the value have an active skipped variant in a reflected place? it then cannot be erased *)
RECURSIVE HasHidden(_)
HasHidden(d) ==
  LET T == TT[d.ty] IN
  IF T.dyn THEN FALSE
  ELSE CASE T.kind = "enum" -> VarOf(d.ty, d.st.var).skip \/ \E j \in 1..NumF(d) : HasHidden(Kid(d, j))
         [] T.kind \in {"struct", "tstruct", "tuple"} -> \E j \in 1..NumF(d) : HasHidden(Kid(d, j))
         [] T.kind \in {"list", "array"} -> \E j \in 1..Len(d.st.f) : HasHidden(Elem(d, j))
         [] T.kind = "map" -> \E j \in 1..Len(d.st.m) : HasHidden(EKey(d, j)) \/ HasHidden(EVal(d, j))
         [] OTHER -> FALSE

TopHidden(d) == ~TT[d.ty].dyn /\ Kind(d) = "enum" /\ VarOf(d.ty, d.st.var).skip     \* it shows a name and a kind but no fields

---------------------------------------------------------------------------
(* Building a type from a reflected value: <<>> or <<node>> *)

AllSome(s) == \A i \in 1..Len(s) : Len(s[i]) = 1
Ones(s) == MapS(s, LAMBDA o : o[1])

RECURSIVE FromR(_, _)
Frw(how, k) ==
  CASE how = "or7" -> LET x == FromR("u8", k) IN IF IsSome(x) THEN x ELSE <<TJ.seven>>
    [] how = "tag" -> IF IsSome(FromR("String", k)) THEN <<TJ.tag>> ELSE None
(* one field F (a table entry) of a type whose own Clone is used or not *)
FieldFrom(F, clone, k) ==
  IF F.frw # "" THEN Frw(F.frw, k)
  ELSE IF clone /\ ~F.boxed /\ k.ty = F.t THEN <<k.st>>
  ELSE FromR(F.t, k)
(* fields F from d; by name or by position among the visible ones *)
FieldsFrom(F, inv, clone, d, named) ==
  LET one(i) ==
        IF F[i].skip THEN F[i].d
        ELSE LET j == IF named THEN FieldIdx(d, F[i].n) ELSE IF inv[i] <= NumF(d) THEN inv[i] ELSE 0
             IN IF j = 0 THEN None ELSE FieldFrom(F[i], clone, Kid(d, j))
  IN Tab(Len(F), one)
Wrap(fs, Op(_)) == IF AllSome(fs) THEN <<Op(Ones(fs))>> ELSE None

FromR(ty, d) ==
  LET T == TT[ty]  K == Kind(d) IN
  CASE T.kind = "value" -> <<ToV(d)>>
    [] T.dyn -> IF K = T.kind THEN <<ToV(d)>> ELSE None
    [] T.kind = "scalar" -> IF d.ty = ty THEN <<d.st>> ELSE None
    [] T.kind = "via" ->
         IF d.ty = ty THEN <<d.st>>
         ELSE LET x == FromR(T.scal, d) IN
              IF ~IsSome(x) THEN None
              ELSE IF ty = "Duration" THEN (IF x[1].v \in DOMAIN DUR THEN DUR[x[1].v] ELSE None)
              ELSE IF x[1].v = "0" THEN None ELSE <<[k |-> "via", v |-> x[1].v, s |-> x[1], o |-> <<>>]>>
    [] T.kind = "opaque" ->
         IF d.ty = ty THEN <<d.st>>
         ELSE IF d.ty = "u8" THEN <<[k |-> "opq", v |-> "Opq(" \o d.st.v \o ")", s |-> d.st]>> ELSE None
    [] T.kind \in {"struct", "tstruct", "tuple"} ->
         IF K # T.kind THEN None
         ELSE Wrap(FieldsFrom(T.fields, T.inv, T.clone /\ T.kind # "tuple", d, T.kind = "struct"), LAMBDA fs : [k |-> T.kind, f |-> fs])
    [] T.kind = "enum" ->
         IF K # "enum" THEN None
         ELSE LET I == {i \in 1..Len(T.variants) : ~T.variants[i].skip /\ T.variants[i].n = d.st.var} IN
              IF I = {} THEN None
              ELSE LET V == T.variants[CHOOSE i \in I : TRUE] IN
                   Wrap(FieldsFrom(V.fields, V.inv, T.clone, d, V.vk = "struct"), LAMBDA fs : [k |-> "enum", var |-> V.n, f |-> fs])
    [] T.kind = "list" ->
         IF K # "list" THEN None
         ELSE Wrap(Tab(Len(d.st.f), LAMBDA j : FromR(T.elem, Elem(d, j))), LAMBDA fs : [k |-> "list", f |-> fs])
    [] T.kind = "array" ->
         IF K \notin {"array", "list"} \/ (K \in {"array", "list"} /\ Len(d.st.f) # T.len) THEN None
         ELSE Wrap(Tab(Len(d.st.f), LAMBDA j : FromR(T.elem, Elem(d, j))), LAMBDA fs : [k |-> "array", f |-> fs])
    [] T.kind = "map" ->
         IF K # "map" THEN None
         ELSE LET n == Len(d.st.m)
                  ks == Tab(n, LAMBDA j : FromR(T.key, EKey(d, j)))
                  vs == Tab(n, LAMBDA j : FromR(T.val, EVal(d, j)))
              IN IF AllSome(ks) /\ AllSome(vs)
                 THEN <<[k |-> "map", m |-> MapOf(T.key, Tab(n, LAMBDA j : <<ks[j][1], vs[j][1]>>), 1, <<>>)]>>
                 ELSE None

(* cloning: types with their own Clone are copied, others rebuilt *)
CloneR(d) == IF TT[d.ty].dyn \/ TT[d.ty].clone THEN <<d.st>> ELSE FromR(d.ty, d)

---------------------------------------------------------------------------
(* Merging s into d *)

RECURSIVE Patch(_, _)
MergeFields(d, s, named) ==
  LET vf == VFs(d)  inv == Inv(d)
      src(j) == IF named THEN FieldIdx(s, vf[j].n) ELSE IF j <= NumF(s) THEN j ELSE 0
      one(i) == IF inv[i] = 0 THEN d.st.f[i]
                ELSE LET j == inv[i] IN IF src(j) = 0 THEN d.st.f[i] ELSE Patch(Kid(d, j), Kid(s, src(j)))
  IN [d.st EXCEPT !.f = Tab(Len(d.st.f), one)]
RECURSIVE MergeMap(_, _, _)
MergeMap(d, s, i) ==
  IF i > Len(s.st.m) THEN d.st
  ELSE LET k == FromR(KeyTy(d), EKey(s, i))
           p == IF IsSome(k) THEN MapIdx(KeyTy(d), d.st.m, k[1]) ELSE 0
       IN MergeMap(IF p = 0 THEN d ELSE [d EXCEPT !.st.m[p] = <<@[1], Patch(EVal(d, p), EVal(s, i))>>], s, i + 1)
Patch(d, s) ==
  LET T == TT[d.ty]  K == Kind(s) IN
  CASE T.kind \in {"scalar", "via", "opaque"} -> LET x == FromR(d.ty, s) IN IF IsSome(x) THEN x[1] ELSE d.st
    [] T.kind = "struct" -> IF K = "struct" THEN MergeFields(d, s, TRUE) ELSE d.st
    [] T.kind \in {"tstruct", "tuple"} -> IF K = T.kind THEN MergeFields(d, s, FALSE) ELSE d.st
    [] T.kind = "enum" ->
         IF K # "enum" THEN d.st
         ELSE IF T.dyn THEN (IF d.st.var = s.st.var THEN MergeFields(d, s, VarKind(d) = "struct") ELSE ToV(s))
         ELSE IF T.clone /\ d.ty = s.ty THEN s.st
         ELSE LET x == FromR(d.ty, s) IN
              IF IsSome(x) THEN x[1]
              ELSE IF d.st.var = s.st.var THEN MergeFields(d, s, VarKind(d) = "struct") ELSE d.st
    [] T.kind \in {"list", "array"} ->
         IF K = "list" \/ (K = "array" /\ T.kind = "array")
         THEN [d.st EXCEPT !.f = Tab(Len(d.st.f), LAMBDA j : IF j <= Len(s.st.f) THEN Patch(Elem(d, j), Elem(s, j)) ELSE d.st.f[j])]
         ELSE d.st
    [] T.kind = "map" -> IF K = "map" THEN MergeMap(d, s, 1) ELSE d.st

---------------------------------------------------------------------------
(* Structural equality: "t", "f" or "n" (an opaque part was reached) *)

ScalOf(d) == IF Kind(d) = "via" THEN d.st.s ELSE d.st
IsNaN(x) == x.t \in {"f32", "f64"} /\ x.o[1] = 65536
ScalEq(x, y) == x.t = y.t /\ x.o = y.o /\ ~IsNaN(x)

RECURSIVE ReflEq(_, _), EqSeq(_, _, _)
EqSeq(as, bs, i) ==
  IF i > Len(as) THEN "t"
  ELSE IF bs[i] = None THEN "f"
  ELSE LET r == ReflEq(as[i], bs[i][1]) IN IF r = "t" THEN EqSeq(as, bs, i + 1) ELSE r
EqNamed(a, b) ==
  EqSeq(Kids(a), Tab(NumF(a), LAMBDA j : LET x == FieldIdx(b, VFs(a)[j].n) IN IF x = 0 THEN None ELSE <<Kid(b, x)>>), 1)
EqPos(as, bs) == EqSeq(as, MapS(bs, LAMBDA x : <<x>>), 1)
ReflEq(a, b) ==
  LET ka == RefKind(a)  kb == RefKind(b) IN
  IF ka = "opaque" \/ kb = "opaque" THEN "n"
  ELSE IF ka # kb THEN "f"
  ELSE CASE ka = "scalar" -> IF ScalEq(ScalOf(a), ScalOf(b)) THEN "t" ELSE "f"
         [] ka = "struct" -> IF NumF(a) # NumF(b) THEN "f" ELSE EqNamed(a, b)
         [] ka \in {"tstruct", "tuple"} -> IF NumF(a) # NumF(b) THEN "f" ELSE EqPos(Kids(a), Kids(b))
         [] ka = "enum" ->
              IF a.st.var # b.st.var \/ NumF(a) # NumF(b) \/ VarKind(a) # VarKind(b) THEN "f"
              ELSE IF VarKind(a) = "struct" THEN EqNamed(a, b) ELSE EqPos(Kids(a), Kids(b))
         [] ka \in {"list", "array"} ->
              IF Len(a.st.f) # Len(b.st.f) THEN "f"
              ELSE EqPos(Tab(Len(a.st.f), LAMBDA j : Elem(a, j)), Tab(Len(b.st.f), LAMBDA j : Elem(b, j)))
         [] ka = "map" ->
              IF Len(a.st.m) # Len(b.st.m) THEN "f"
              ELSE EqSeq(Tab(Len(a.st.m), LAMBDA j : EVal(a, j)),
                         Tab(Len(a.st.m), LAMBDA j :
                            LET k == FromR(KeyTy(b), EKey(a, j))
                                p == IF IsSome(k) THEN MapIdx(KeyTy(b), b.st.m, k[1]) ELSE 0
                            IN IF p = 0 THEN None ELSE <<EVal(b, p)>>), 1)

---------------------------------------------------------------------------
(* Addresses: sequences of storage indices into f or m *)

Sub1(d, i) ==
  CASE Kind(d) = "map" -> EVal(d, i)
    [] Kind(d) \in {"list", "array"} -> Elem(d, i)
    [] OTHER -> LET T == TT[d.ty] IN
         Norm(IF T.dyn THEN "Value" ELSE IF T.kind = "enum" THEN VarOf(d.ty, d.st.var).fields[i].t ELSE T.fields[i].t, d.st.f[i])
RECURSIVE GetA(_, _), SetA(_, _, _)
GetA(d, a) == IF a = <<>> THEN d ELSE GetA(Sub1(d, Head(a)), Tail(a))
SetA(d, a, st) ==
  IF a = <<>> THEN st
  ELSE LET i == Head(a)  x == SetA(Sub1(d, i), Tail(a), st) IN
       IF Kind(d) = "map" THEN [d.st EXCEPT !.m[i] = <<@[1], x>>] ELSE [d.st EXCEPT !.f[i] = x]

(* one step of a key path: <<>> or <<address of what it reaches, relative to d>> *)
FieldAddr(d, j) == IF j = 0 THEN None ELSE <<<<VFs(d)[j].i>>>>
PosAddr(d, u) == IF u < NumF(d) THEN FieldAddr(d, u + 1) ELSE None
MapAddr(d, k) ==
  LET x == FromR(KeyTy(d), k)
      p == IF IsSome(x) THEN MapIdx(KeyTy(d), d.st.m, x[1]) ELSE 0
  IN IF p = 0 THEN None ELSE <<<<p>>>>
SeqAddr(d, u) == IF u >= 0 /\ u < Len(d.st.f) THEN <<<<u + 1>>>> ELSE None
AsIndex(v) == IF v.k = "s" THEN v.i ELSE -1
Step1(d, key) ==
  LET K == Kind(d) IN
  CASE key.k = "f" ->
         IF K = "struct" \/ (K = "enum" /\ VarKind(d) = "struct") THEN FieldAddr(d, FieldIdx(d, key.n)) ELSE None
    [] key.k = "u" ->
         IF K \in {"tstruct", "tuple"} \/ (K = "enum" /\ VarKind(d) = "tuple") THEN PosAddr(d, key.u) ELSE None
    [] key.k = "g" ->
         IF K = "map" THEN MapAddr(d, Norm("Value", key.v))
         ELSE IF K \in {"list", "array"} THEN SeqAddr(d, AsIndex(key.v)) ELSE None
    [] key.k = "v" -> IF K = "enum" /\ d.st.var = key.n THEN <<<<>>>> ELSE None
RECURSIVE AtA(_, _)
AtA(d, p) ==
  IF p = <<>> THEN <<<<>>>>
  ELSE LET s == Step1(d, Head(p)) IN
       IF s = None THEN None
       ELSE LET r == AtA(GetA(d, s[1]), Tail(p)) IN IF r = None THEN None ELSE <<s[1] \o r[1]>>

---------------------------------------------------------------------------
(* Visiting: by the static type *)

RECURSIVE VisitT(_, _), Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
VisitT(ty, st) ==
  LET T == TT[ty]
      fs(vf) == Flat(Tab(Len(vf), LAMBDA j : VisitT(vf[j].t, st.f[vf[j].i])), 1)
  IN IF T.dyn \/ T.kind \in {"via", "opaque"} THEN <<<<"opaque", <<Names[ty], Norm(ty, st)>>>>>>
     ELSE CASE T.kind = "scalar" -> <<<<ty, st>>>>
            [] T.kind \in {"struct", "tstruct", "tuple"} -> fs(T.vf)
            [] T.kind = "enum" -> fs(VarOf(ty, st.var).vf)
            [] T.kind \in {"list", "array"} -> Flat(Tab(Len(st.f), LAMBDA j : VisitT(T.elem, st.f[j])), 1)
            [] T.kind = "map" -> Flat(Tab(Len(st.m), LAMBDA j : VisitT(T.key, st.m[j][1]) \o VisitT(T.val, st.m[j][2])), 1)

---------------------------------------------------------------------------
(* Defaults: <<>> or <<erased node>> *)

RECURSIVE Def(_), DefFields(_)
DefFields(vf) == Tab(Len(vf), LAMBDA j : Def(vf[j].t))
DefVar(V) == Wrap(DefFields(V.vf), LAMBDA fs : [k |-> "enum", var |-> V.n, vk |-> V.vk, n |-> IF V.vk = "struct" THEN MapS(V.vf, LAMBDA f : f.n) ELSE <<>>, f |-> fs])
Def(ty) ==
  LET T == TT[ty] IN
  CASE T.dyn \/ T.kind = "via" -> None
    [] T.kind = "opaque" -> <<TJ.nine>>
    [] T.kind = "scalar" -> <<ZERO[ty]>>
    [] T.kind = "struct" -> Wrap(DefFields(T.vf), LAMBDA fs : [k |-> "struct", n |-> MapS(T.vf, LAMBDA f : f.n), f |-> fs])
    [] T.kind \in {"tstruct", "tuple"} -> Wrap(DefFields(T.vf), LAMBDA fs : [k |-> T.kind, f |-> fs])
    [] T.kind = "enum" -> IF T.vvis = <<>> THEN None ELSE DefVar(T.variants[T.vvis[1]])
    [] T.kind = "list" -> <<[k |-> "list", f |-> <<>>]>>
    [] T.kind = "map" -> <<[k |-> "map", m |-> <<>>]>>
    [] T.kind = "array" ->
         IF T.len = 0 THEN <<[k |-> "list", f |-> <<>>]>>
         ELSE LET x == Def(T.elem) IN IF x = None THEN None ELSE <<[k |-> "list", f |-> Tab(T.len, LAMBDA i : x[1])]>>

---------------------------------------------------------------------------
(* Descriptors *)

DKind(ty) == LET T == TT[ty] IN IF T.dyn \/ T.kind = "via" THEN "opaque" ELSE T.kind
(* what a path reaches on a type: <<>> or <<[ty, var]>>, var = "" unless a variant was named *)
TStep(p, key) ==
  LET T == TT[p.ty]  K == DKind(p.ty)
      named(vf) == LET J == {j \in 1..Len(vf) : vf[j].n = key.n} IN IF key.n = "" \/ J = {} THEN None ELSE <<[ty |-> vf[CHOOSE j \in J : TRUE].t, var |-> ""]>>
      pos(vf) == IF key.u < Len(vf) THEN <<[ty |-> vf[key.u + 1].t, var |-> ""]>> ELSE None
      V == VarOf(p.ty, p.var)
  IN CASE key.k = "f" -> IF K = "struct" THEN named(T.vf) ELSE IF p.var # "" /\ V.vk = "struct" THEN named(V.vf) ELSE None
       [] key.k = "u" -> IF K \in {"tstruct", "tuple"} THEN pos(T.vf) ELSE IF p.var # "" /\ V.vk = "tuple" THEN pos(V.vf) ELSE None
       [] key.k = "g" ->
            IF K = "map" THEN <<[ty |-> T.val, var |-> ""]>>
            ELSE IF K \in {"list", "array"} /\ AsIndex(key.v) >= 0 THEN <<[ty |-> T.elem, var |-> ""]>> ELSE None
       [] key.k = "v" ->
            IF K # "enum" THEN None
            ELSE IF p.var # "" THEN (IF p.var = key.n THEN <<p>> ELSE None)
            ELSE IF \E i \in 1..Len(T.vvis) : T.variants[T.vvis[i]].n = key.n THEN <<[p EXCEPT !.var = key.n]>> ELSE None
RECURSIVE TypeAt(_, _)
TypeAt(p, path) ==
  IF path = <<>> THEN <<p>>
  ELSE LET s == TStep(p, Head(path)) IN IF s = None THEN None ELSE TypeAt(s[1], Tail(path))

(* metadata is asked key by key *)
RECURSIVE Metas(_, _)
Metas(meta, mk) ==
  IF mk = <<>> THEN <<>>
  ELSE LET I == {i \in 1..Len(meta) : meta[i][1] = Head(mk)} IN
       (IF I = {} THEN <<>> ELSE <<meta[CHOOSE i \in I : TRUE]>>) \o Metas(meta, Tail(mk))
MetaOf(ty, mk) == IF TT[ty].dyn THEN <<>> ELSE Metas(TT[ty].meta, mk)

DescField(f, mk) == [n |-> f.n, t |-> Names[f.t], meta |-> Metas(f.meta, mk), docs |-> f.docs]
DescOf(ty, mk) ==
  LET T == TT[ty]  K == DKind(ty)
      fields(vf) == MapS(vf, LAMBDA f : DescField(f, mk))
      vs == IF K = "enum" THEN MapS(T.vvis, LAMBDA i : T.variants[i]) ELSE <<>>
  IN [n |-> Names[ty], k |-> K,
      fields |-> IF K \in {"struct", "tstruct", "tuple"} THEN fields(T.vf) ELSE <<>>,
      variants |-> MapS(vs, LAMBDA V : [n |-> V.n, vk |-> V.vk, len |-> Len(V.vf), fields |-> fields(V.vf), meta |-> Metas(V.meta, mk), docs |-> V.docs]),
      elem |-> IF K \in {"list", "array"} THEN Names[T.elem] ELSE "",
      key |-> IF K = "map" THEN Names[T.key] ELSE "",
      val |-> IF K = "map" THEN Names[T.val] ELSE "",
      len |-> CASE K \in {"struct", "tstruct", "tuple"} -> Len(T.vf) [] K = "enum" -> Len(vs) [] K = "array" -> T.len [] OTHER -> 0,
      meta |-> MetaOf(ty, mk), docs |-> IF T.dyn THEN <<>> ELSE T.docs, ok |-> TRUE]
Refs(ty) ==
  LET T == TT[ty]  K == DKind(ty) IN
  CASE K \in {"struct", "tstruct", "tuple"} -> MapS(T.vf, LAMBDA f : f.t)
    [] K = "enum" -> Flat(Tab(Len(T.vvis), LAMBDA i : MapS(T.variants[T.vvis[i]].vf, LAMBDA f : f.t)), 1)
    [] K \in {"list", "array"} -> <<T.elem>>
    [] K = "map" -> <<T.key, T.val>>
    [] OTHER -> <<>>
RECURSIVE Fresh(_, _, _)
Fresh(rs, seen, i) ==
  IF i > Len(rs) THEN <<>>
  ELSE IF rs[i] \in seen THEN Fresh(rs, seen, i + 1) ELSE <<rs[i]>> \o Fresh(rs, seen \cup {rs[i]}, i + 1)
RECURSIVE Bfs(_, _, _)
Bfs(todo, seen, out) ==
  IF todo = <<>> THEN out
  ELSE LET ty == Head(todo)  new == Fresh(Refs(ty), seen, 1)
       IN Bfs(Tail(todo) \o new, seen \cup {new[i] : i \in 1..Len(new)}, Append(out, ty))
Desc(ty, mk) == MapS(Bfs(<<ty>>, {ty}, <<>>), LAMBDA t : DescOf(t, mk))

---------------------------------------------------------------------------
(* Type names *)

RECURSIVE Join(_, _, _)
Join(ss, sep, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o (IF i < Len(ss) THEN sep ELSE "") \o Join(ss, sep, i + 1)
RECURSIVE Simple(_)
Simple(e) ==
  LET args == MapS(SelectSeq(e.a, LAMBDA x : x.k # "l"), LAMBDA x : Simple(x)) IN     \* lifetimes are left out
  CASE e.k = "p" -> e.h \o (IF args = <<>> THEN "" ELSE "<" \o Join(args, ", ", 1) \o ">")
    [] e.k = "t" -> "(" \o Join(args, ", ", 1) \o (IF Len(args) = 1 THEN ",)" ELSE ")")
    [] e.k = "a" -> "[" \o args[1] \o "; " \o ToString(e.n) \o "]"
    [] e.k = "r" -> "&" \o args[1]
    [] e.k = "m" -> "&mut " \o args[1]
    [] e.k = "c" -> e.h
SimpleT(ty) == Simple(TT[ty].expr)
(* the text of a type as the compiler writes it, modules included *)
RECURSIVE Full(_)
Full(e) ==
  LET args == MapS(e.a, LAMBDA x : Full(x)) IN
  CASE e.k = "p" -> e.m \o e.h \o (IF args = <<>> THEN "" ELSE "<" \o Join(args, ", ", 1) \o ">")
    [] e.k = "t" -> "(" \o Join(args, ", ", 1) \o (IF Len(args) = 1 THEN ",)" ELSE ")")
    [] e.k = "a" -> "[" \o args[1] \o "; " \o ToString(e.n) \o "]"
    [] e.k = "r" -> "&" \o args[1]
    [] e.k = "m" -> "&mut " \o args[1]
    [] e.k \in {"c", "o", "l"} -> e.h
(* names with a part that has no simplified form are written in full *)
RECURSIVE HasSimple(_)
HasSimple(e) == e.k # "o" /\ \A i \in 1..Len(e.a) : HasSimple(e.a[i])
SimpleOr(e) == IF HasSimple(e) THEN Simple(e) ELSE Full(e)
(* the definition of a type declared somewhere unusual: [e, kind, f, vs] *)
PPLocal(o, nm(_)) ==
  LET tys(F) == Join(MapS(F, LAMBDA f : nm(f.e)), ", ", 1)
      lines(F, ind) == MapS(F, LAMBDA f : ind \o f.n \o ": " \o nm(f.e) \o ",")
      var(W) == CASE W.vk = "struct" -> <<"    " \o W.n \o " {">> \o lines(W.f, "        ") \o <<"    },">>
                  [] W.vk = "tuple" -> <<"    " \o W.n \o "(" \o tys(W.f) \o "),">>
                  [] W.vk = "unit" -> <<"    " \o W.n \o ",">>
  IN CASE o.kind = "struct" -> <<"struct " \o nm(o.e) \o " {">> \o lines(o.f, "    ") \o <<"}">>
       [] o.kind = "tstruct" -> <<"struct " \o nm(o.e) \o "(" \o tys(o.f) \o ")">>
       [] o.kind = "enum" -> <<"enum " \o nm(o.e) \o " {">> \o Flat(MapS(o.vs, LAMBDA W : var(W)), 1) \o <<"}">>
PP(ty, nm(_)) ==
  LET T == TT[ty]  K == DKind(ty)
      tys(vf) == Join(MapS(vf, LAMBDA f : nm(f.t)), ", ", 1)
      lines(vf, ind) == MapS(vf, LAMBDA f : ind \o f.n \o ": " \o nm(f.t) \o ",")
      var(V) == CASE V.vk = "struct" -> IF V.vf = <<>> THEN <<"    " \o V.n \o " {},">>
                                        ELSE <<"    " \o V.n \o " {">> \o lines(V.vf, "        ") \o <<"    },">>
                  [] V.vk = "tuple" -> <<"    " \o V.n \o "(" \o tys(V.vf) \o "),">>
                  [] V.vk = "unit" -> <<"    " \o V.n \o ",">>
  IN CASE K = "struct" -> IF T.vf = <<>> THEN <<"struct " \o nm(ty) \o " {}">> ELSE <<"struct " \o nm(ty) \o " {">> \o lines(T.vf, "    ") \o <<"}">>
       [] K = "tstruct" -> <<"struct " \o nm(ty) \o "(" \o tys(T.vf) \o ")">>
       [] K = "tuple" -> <<"(" \o tys(T.vf) \o ")">>
       [] K = "enum" -> IF T.vvis = <<>> THEN <<"enum " \o nm(ty) \o " {}">>
                        ELSE <<"enum " \o nm(ty) \o " {">> \o Flat(MapS(T.vvis, LAMBDA i : var(T.variants[i])), 1) \o <<"}">>
       [] K = "list" -> <<"[" \o nm(T.elem) \o "]">>
       [] K = "array" -> <<"[" \o nm(T.elem) \o "; " \o ToString(T.len) \o "]">>
       [] K = "map" -> <<"[" \o nm(T.key) \o ": " \o nm(T.val) \o "]">>
       [] K = "scalar" -> <<ty>>
       [] K = "opaque" -> <<nm(ty)>>

---------------------------------------------------------------------------
(* Debug text, as documents: [k, n, f] *)

Leaf(s) == [k |-> "leaf", n |-> s, f |-> <<>>]
RECURSIVE NDoc(_, _), RDoc(_), BDoc(_)
(* a native Debug implementation, skipped fields included *)
NFields(F, st, named) == Tab(Len(F), LAMBDA i : IF named THEN <<F[i].dn, NDoc(F[i].t, st.f[i])>> ELSE <<NDoc(F[i].t, st.f[i])>>)
NDoc(ty, st) ==
  IF ty \notin DOMAIN TT THEN [k |-> "tuple", n |-> ty, f |-> <<<<Leaf(st.v)>>>>]      \* the never-reflected helper types
  ELSE LET T == TT[ty] IN
  CASE T.kind \in {"scalar", "via"} -> Leaf(st.v)
    [] T.kind = "opaque" -> [k |-> "tuple", n |-> ty, f |-> <<<<Leaf(st.s.v)>>>>]
    [] ty \in {"Range<i32>", "Range<u8>", "Range<f32>", "Range<String>"} -> Leaf(st.f[1].v \o ".." \o st.f[2].v)
    [] ty = "RangeFrom<u8>" -> Leaf(st.f[1].v \o "..")
    [] ty \in {"RangeTo<i32>", "RangeTo<u8>"} -> Leaf(".." \o st.f[1].v)
    [] ty = "RangeToInclusive<u8>" -> Leaf("..=" \o st.f[1].v)
    [] ty = "RangeFull" -> Leaf("..")
    [] T.kind = "struct" -> [k |-> "struct", n |-> T.dbgname, f |-> NFields(T.fields, st, TRUE)]
    [] T.kind = "tuple" /\ T.fields = <<>> -> Leaf("()")
    [] T.kind \in {"tstruct", "tuple"} -> [k |-> "tuple", n |-> T.dbgname, f |-> NFields(T.fields, st, FALSE)]
    [] T.kind = "enum" ->
         LET V == VarOf(ty, st.var) IN
         [k |-> IF V.vk = "struct" THEN "struct" ELSE "tuple", n |-> V.n, f |-> NFields(V.fields, st, V.vk = "struct")]
    [] T.kind \in {"list", "array"} -> [k |-> "list", n |-> "", f |-> Tab(Len(st.f), LAMBDA j : <<NDoc(T.elem, st.f[j])>>)]
    [] T.kind = "map" -> [k |-> "map", n |-> "", f |-> Tab(Len(st.m), LAMBDA j : <<NDoc(T.key, st.m[j][1]), NDoc(T.val, st.m[j][2])>>)]
(* how a part prints itself, boxed or not *)
BDoc(d) ==
  LET T == TT[d.ty] IN
       CASE T.kind = "opaque" -> Leaf(d.st.v)
         [] T.kind = "tuple" -> Leaf(Names[d.ty])
         [] T.kind \in {"scalar", "via"} -> Leaf(d.st.v)
         [] T.own -> NDoc(d.ty, d.st)
         [] OTHER -> RDoc(d)
(* the structural form *)
RDoc(d) ==
  LET T == TT[d.ty]
      vf == VFs(d)
      fields(named) == Tab(Len(vf), LAMBDA j : LET x == BDoc(Kid(d, j)) IN IF named THEN <<vf[j].n, x>> ELSE <<x>>)
  IN CASE T.kind \in {"scalar", "via"} -> Leaf(ScalOf(d).v)
       [] T.kind = "opaque" -> Leaf(Names[d.ty])
       [] T.kind = "struct" -> [k |-> "struct", n |-> Names[d.ty], f |-> fields(TRUE)]
       [] T.kind = "tstruct" -> [k |-> "tuple", n |-> Names[d.ty], f |-> fields(FALSE)]
       [] T.kind = "tuple" -> [k |-> "tuple", n |-> "", f |-> fields(FALSE)]
       [] T.kind = "enum" -> [k |-> IF VarKind(d) = "struct" THEN "struct" ELSE "tuple", n |-> d.st.var, f |-> fields(VarKind(d) = "struct")]
       [] T.kind \in {"list", "array"} -> [k |-> "list", n |-> "", f |-> Tab(Len(d.st.f), LAMBDA j : <<BDoc(Elem(d, j))>>)]
       [] T.kind = "map" -> [k |-> "map", n |-> "", f |-> Tab(Len(d.st.m), LAMBDA j : <<BDoc(EKey(d, j)), BDoc(EVal(d, j))>>)]

(* the standard library's plain and pretty layouts *)
RECURSIVE Plain(_), Alt(_)
Plain(x) ==
  LET one(e) == CASE x.k = "struct" -> e[1] \o ": " \o Plain(e[2]) [] x.k = "map" -> Plain(e[1]) \o ": " \o Plain(e[2]) [] OTHER -> Plain(e[1])
      body == Join(MapS(x.f, one), ", ", 1)
  IN CASE x.k = "leaf" -> x.n
       [] x.k = "struct" -> IF x.f = <<>> THEN x.n ELSE x.n \o " { " \o body \o " }"
       [] x.k = "tuple" -> IF x.f = <<>> THEN (IF x.n = "" THEN "" ELSE x.n) ELSE x.n \o "(" \o body \o (IF Len(x.f) = 1 /\ x.n = "" THEN ",)" ELSE ")")
       [] x.k = "list" -> "[" \o body \o "]"
       [] x.k = "map" -> "{" \o body \o "}"
Indent(ls) == MapS(ls, LAMBDA l : IF l = "" THEN l ELSE "    " \o l)
OnLast(ls, suf) == [ls EXCEPT ![Len(ls)] = @ \o suf]
OnFirst(ls, pre) == [ls EXCEPT ![1] = pre \o @]
Glue(a, b) == SubSeq(a, 1, Len(a) - 1) \o <<a[Len(a)] \o b[1]>> \o SubSeq(b, 2, Len(b))
Alt(x) ==
  LET one(e) == Indent(OnLast(CASE x.k = "struct" -> OnFirst(Alt(e[2]), e[1] \o ": ")
                                [] x.k = "map" -> Glue(OnLast(Alt(e[1]), ": "), Alt(e[2]))
                                [] OTHER -> Alt(e[1]), ","))
      body == Flat(MapS(x.f, one), 1)
  IN CASE x.k = "leaf" -> <<x.n>>
       [] x.k = "struct" -> IF x.f = <<>> THEN <<x.n>> ELSE <<x.n \o " {">> \o body \o <<"}">>
       [] x.k = "tuple" -> IF x.f = <<>> THEN <<x.n>> ELSE <<x.n \o "(">> \o body \o <<")">>
       [] x.k = "list" -> IF x.f = <<>> THEN <<"[]">> ELSE <<"[">> \o body \o <<"]">>
       [] x.k = "map" -> IF x.f = <<>> THEN <<"{}">> ELSE <<"{">> \o body \o <<"}">>
=============================================================================
