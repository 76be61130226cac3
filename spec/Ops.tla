-------------------------------- MODULE Ops ---------------------------------
(* The transition system: a set of registers holding values, and one action  *)
(* per public operation.  Step(op, regs) = [regs, out]: the registers after  *)
(* the operation and everything the caller can observe.                      *)
EXTENDS Core

REGS == {"a", "b", "c", "d", "e", "f", "g", "h"}
Gone == [ty |-> "-", st |-> [k |-> "-"]]
NoRegs == [r \in REGS |-> Gone]
Here(regs, r) == regs[r].ty # "-"

T1(x) == [t |-> x]
Res(regs, out) == [regs |-> regs, out |-> out]
Put(regs, r, d, out) == Res([regs EXCEPT ![r] = d], out)
Keep(regs, out) == Res(regs, out)

OptD(d, a) == IF a = None THEN <<>> ELSE <<GetA(d, a[1])>>
(* which of the asked types the part has *)
RECURSIVE TypedAs(_, _)
TypedAs(tys, od) ==
  IF tys = <<>> THEN <<>>
  ELSE (IF od # <<>> /\ od[1].ty = Head(tys) THEN <<<<Head(tys), od[1].st>>>> ELSE <<>>) \o TypedAs(Tail(tys), od)

---------------------------------------------------------------------------
(* field access *)

Probe(n, Op(_)) == Tab(n + 3, LAMBDA i : IF i <= n THEN <<Op(i)>> ELSE <<>>)
CountDown(n) == Tab(n + 1, LAMBDA i : n + 1 - i)
Insp(d, names) ==
  LET K == Kind(d)
      n == NumF(d)
      vf == VFs(d)
      at == Probe(n, LAMBDA i : Kid(d, i))
      by == MapS(names, LAMBDA nm : LET j == FieldIdx(d, nm) IN IF j = 0 THEN <<>> ELSE <<Kid(d, j)>>)
      it == Tab(n, LAMBDA i : <<vf[i].n, Kid(d, i)>>)
      seq(m, Op(_)) == [k |-> K, len |-> m, at |-> Probe(m, Op), it |-> Tab(m, Op), hint |-> CountDown(m), adapt |-> TRUE, empty |-> m = 0, atm |-> Probe(m, Op), itm |-> Tab(m, Op)]
  IN CASE K = "struct" ->
            [k |-> K, len |-> n, names |-> Probe(n, LAMBDA i : vf[i].n), at |-> at, it |-> it, hint |-> CountDown(n), adapt |-> TRUE, by |-> by, atm |-> at, bym |-> by, itm |-> it]
       [] K = "enum" ->
            LET vk == VarKind(d)
                T == TT[d.ty]
                ite == Tab(n, LAMBDA i : IF vk = "struct" THEN <<"s", vf[i].n, Kid(d, i)>> ELSE <<"t", "", Kid(d, i)>>)
            IN [k |-> K, vn |-> d.st.var, vk |-> vk, vlen |-> IF T.dyn THEN 1 ELSE Len(T.vvis), len |-> n,
                names |-> Probe(IF vk = "struct" THEN n ELSE 0, LAMBDA i : vf[i].n) \o (IF vk = "struct" THEN <<>> ELSE Tab(n, LAMBDA i : <<>>)),
                at |-> at, it |-> ite, adapt |-> TRUE, by |-> by, atm |-> at, bym |-> by, itm |-> ite]
       [] K \in {"tstruct", "tuple"} -> seq(n, LAMBDA i : Kid(d, i))
       [] K \in {"list", "array"} -> seq(Len(d.st.f), LAMBDA i : Elem(d, i))
       [] K = "map" -> LET es == Tab(Len(d.st.m), LAMBDA i : <<EKey(d, i), EVal(d, i)>>)
                       IN [k |-> K, len |-> Len(d.st.m), empty |-> Len(d.st.m) = 0, adapt |-> TRUE, it |-> es, itm |-> es]
       [] K \in {"scalar", "via"} -> [k |-> "scalar", it |-> Norm("Value", ScalOf(d))]
       [] K = "opaque" -> [k |-> "opaque", it |-> d]

(* ways to get at a part: <<>> or <<address>> *)
Route(d, o) ==
  LET K == Kind(d) IN
  CASE o.p = "self" -> <<<<>>>>
    [] o.p = "path" -> AtA(d, o.path)
    [] o.p = "field" -> IF K \in {"struct", "enum"} THEN FieldAddr(d, FieldIdx(d, o.n)) ELSE None
    [] o.p \in {"at", "it"} ->
         IF K \in {"struct", "enum", "tstruct", "tuple"} THEN PosAddr(d, o.i)
         ELSE IF K \in {"list", "array"} THEN SeqAddr(d, o.i)
         ELSE IF K = "map" /\ o.p = "it" /\ o.i < Len(d.st.m) THEN <<<<o.i + 1>>>> ELSE None
    [] o.p = "mget" -> IF K = "map" THEN MapAddr(d, N(o.kd)) ELSE None
(* <<result, new node>> of writing d2 to the part t *)
Write(t, how, d2) ==
  CASE how \in {"patch", "asr"} -> <<"ok", Patch(t, N(d2))>>
    [] how = "dc" -> IF t.ty = d2.ty THEN <<"ok", d2.st>> ELSE <<"nt", t.st>>
    [] how = "scal" -> IF Kind(t) # "scalar" THEN <<"none", t.st>> ELSE IF t.ty = d2.ty THEN <<"ok", d2.st>> ELSE <<"nt", t.st>>

(* typed field access through the helper traits *)
KeyD(key) == CASE key.kt = "str" -> [ty |-> "String", st |-> key.v] [] OTHER -> Norm("Value", key.v)
NameOfKey(key) == key.name
GetField(reg, on, key) ==
  LET d == N(reg)
      K == Kind(d)
      kd == KeyD(key)
      u == AsIndex(kd.st)
      ByN == IF K \in {"struct", "enum"} THEN FieldAddr(d, FieldIdx(d, key.name)) ELSE None
      ByU == IF K \in {"tstruct", "tuple", "enum"} THEN PosAddr(d, u) ELSE IF K \in {"list", "array"} THEN SeqAddr(d, u) ELSE None
      a == IF on = "value" THEN
             IF reg.ty # "Value" THEN None
             ELSE IF K = "map" THEN MapAddr(d, kd)
             ELSE IF key.kt = "str" THEN ByN
             ELSE IF kd.ty = "usize" THEN ByU
             ELSE IF kd.ty = "String" THEN ByN
             ELSE None
           ELSE IF on # K THEN None
           ELSE IF on = "map" THEN MapAddr(d, kd)
           ELSE IF key.kt = "str" /\ on \in {"struct", "enum"} THEN ByN
           ELSE IF key.kt = "usize" /\ on # "struct" THEN ByU
           ELSE None
  IN OptD(d, a)

---------------------------------------------------------------------------
(* conversions between projections *)

Conv(reg, tys) ==
  LET d == N(reg)
      rk == RefKind(d)
      mk == MutKind(d)
      sd == IF rk = "scalar" THEN Norm("Value", ScalOf(d)) ELSE d
      l(k, x) == IF k = "opaque" THEN <<>> ELSE <<<<k, x>>>>
      dc == TypedAs(tys, <<d>>)
      cl == IF rk = "scalar" THEN sd ELSE [d EXCEPT !.st = CloneR(d)[1]]      \* a clone of the owned projection
  IN [ref |-> rk, mut |-> mk, own |-> rk, own2 |-> rk, as |-> l(rk, sd), asm |-> l(mk, d), refas |-> <<<<rk, sd>>>>, mutas |-> <<<<mk, d>>>>,
      into |-> l(rk, sd), ownas |-> <<<<rk, sd>>>>, rd |-> sd, md |-> d, mmd |-> d, od |-> sd, omd |-> sd, o2d |-> cl, o2md |-> cl,
      self |-> d, selfm |-> d, dc |-> dc, dcm |-> dc,
      tv |-> IF HasHidden(d) THEN <<>> ELSE <<ToV(d)>>, cl |-> CloneR(d), pt |-> [d EXCEPT !.st = Patch(d, d)], dn |-> Names[reg.ty]]

---------------------------------------------------------------------------
(* key paths *)

KeyDisp(k) ==
  CASE k.k = "f" -> "." \o k.n
    [] k.k = "u" -> "." \o ToString(k.u)
    [] k.k = "g" -> "[" \o Plain(RDoc(Norm("Value", k.v))) \o "]"
    [] k.k = "v" -> "::" \o k.n
KF(n) == [k |-> "f", n |-> n]
KU(u) == [k |-> "u", u |-> u]
KG(v) == [k |-> "g", v |-> v]
KV(n) == [k |-> "v", n |-> n]
KpCall(p, c) ==
  CASE c.c \in {"field", "fieldS", "fieldR", "pfield", "k_named"} -> Append(p, KF(c.n))
    [] c.c \in {"fieldu", "pfieldu", "k_num"} -> Append(p, KU(c.u))
    [] c.c \in {"get", "pget", "k_get"} -> Append(p, KG(c.v))
    [] c.c \in {"variant", "pvariant", "k_variant"} -> Append(p, KV(c.n))
    [] c.c = "push" -> Append(p, c.key)
    [] c.c = "pop" -> IF p = <<>> THEN p ELSE SubSeq(p, 1, Len(p) - 1)
    [] c.c = "extend" -> p \o c.keys
    [] c.c = "collect" -> c.keys
    [] c.c = "from" -> <<c.key>>
    [] c.c = "fn_field" -> <<KF(c.n)>>
    [] c.c = "fn_fieldu" -> <<KU(c.u)>>
    [] c.c = "fn_get" -> <<KG(c.v)>>
    [] c.c = "fn_variant" -> <<KV(c.n)>>
    [] c.c \in {"clone", "rt"} -> p
RECURSIVE KpRun(_, _, _)
KpRun(p, cs, i) == IF i > Len(cs) THEN p ELSE KpRun(KpCall(p, cs[i]), cs, i + 1)
Rev(s) == Tab(Len(s), LAMBDA i : s[Len(s) + 1 - i])
(* taking alternately from the two ends *)
RECURSIVE Ends(_, _)
Ends(s, front) ==
  IF s = <<>> THEN <<>>
  ELSE IF front THEN <<s[1]>> \o Ends(Tail(s), FALSE) ELSE <<s[Len(s)]>> \o Ends(SubSeq(s, 1, Len(s) - 1), TRUE)
(* keys are compared through the erased values' equality *)
KeyEq(a, b) == a.k = b.k /\ CASE a.k = "u" -> a.u = b.u [] a.k = "g" -> CmpV(a.v, b.v) = 0 [] OTHER -> a.n = b.n
PathEq(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : KeyEq(p[i], q[i])
KpOut(p, other) ==
  LET n == Len(p)  disp == MapS(p, KeyDisp) IN
  [keys |-> p, len |-> n, empty |-> n = 0, rev |-> Rev(p), intorev |-> Rev(p), refit |-> p, both |-> Ends(p, TRUE), both2 |-> Ends(p, FALSE),
   lens |-> CountDown(n), lens2 |-> CountDown(n), hint |-> CountDown(n), hint2 |-> CountDown(n), adapt |-> TRUE, adapt2 |-> TRUE, adapt3 |-> TRUE, disp |-> Join(disp, "", 1), kdisp |-> disp,
   crumbs |-> Tab(n, LAMBDA i : SubSeq(p, 1, i)), fresh |-> TRUE, other |-> PathEq(p, other)]

---------------------------------------------------------------------------
(* dynamic values, built call by call *)

SetField(st, n, v) ==
  LET I == {i \in 1..Len(st.n) : st.n[i] = n} IN
  IF I = {} THEN [st EXCEPT !.n = Append(@, n), !.f = Append(@, v)]
  ELSE [st EXCEPT !.f[CHOOSE i \in I : TRUE] = v]
RECURSIVE BuildRun(_, _, _, _)
BuildRun(st, panics, cs, i) ==
  IF i > Len(cs) THEN [st |-> st, panics |-> panics]
  ELSE LET c == cs[i]
           named == c.c \in {"set", "setS", "with"} /\ "n" \in DOMAIN c /\ c.n # ""
           wants == IF st.k = "struct" THEN "struct" ELSE IF st.k = "enum" THEN st.vk ELSE "tuple"
           has == IF st.k = "enum" /\ "late" \in DOMAIN c /\ c.late THEN (IF c.c \in {"set", "with"} THEN "struct" ELSE "tuple") ELSE wants
       IN IF has # wants THEN BuildRun(st, panics + 1, cs, i + 1)
          ELSE BuildRun(IF wants = "struct" THEN SetField(st, c.n, c.v) ELSE [st EXCEPT !.f = Append(@, c.v)], panics, cs, i + 1)
BuildTy(what) == CASE what \in {"struct", "structit"} -> "StructValue" [] what \in {"tuple", "tupleit"} -> "TupleValue"
                   [] what \in {"tstruct", "tstructit"} -> "TupleStructValue" [] OTHER -> "EnumValue"
BuildInit(op) ==
  LET T == BuildTy(op.what) IN
  CASE T = "StructValue" -> [k |-> "struct", n |-> <<>>, f |-> <<>>]
    [] T = "TupleValue" -> [k |-> "tuple", f |-> <<>>]
    [] T = "TupleStructValue" -> [k |-> "tstruct", f |-> <<>>]
    [] OTHER -> [k |-> "enum", var |-> op.name, vk |-> CASE op.what = "estruct" -> "struct" [] op.what = "etuple" -> "tuple" [] op.what = "eunit" -> "unit", n |-> <<>>, f |-> <<>>]

---------------------------------------------------------------------------
(* answers about types *)

DfltOut(ty) ==
  LET d == Def(ty)  T == TT[ty]
      var(i) == LET x == DefVar(T.variants[i]) IN [n |-> T.variants[i].n, has |-> IsSome(x), def |-> x, same |-> TRUE]
  IN [has |-> IsSome(d), def |-> d, same |-> TRUE, vars |-> IF DKind(ty) = "enum" THEN MapS(T.vvis, var) ELSE <<>>,
      built |-> IF IsSome(d) THEN FromR(ty, Norm("Value", d[1])) ELSE <<>>]
TapOut(ty, p, mk) ==
  LET r == TypeAt([ty |-> ty, var |-> ""], p) IN
  IF r = None THEN [a |-> <<>>, same |-> TRUE]
  ELSE LET t == r[1].ty  T == TT[t]
           K == IF r[1].var # "" THEN "variant" ELSE DKind(t)
           V == VarOf(t, r[1].var)
           d == IF K = "variant" THEN DefVar(V) ELSE Def(t)
       IN [a |-> <<[k |-> K, n |-> Names[t], var |-> r[1].var, docs |-> IF K = "variant" THEN V.docs ELSE IF T.dyn THEN <<>> ELSE T.docs,
                    meta |-> IF K = "variant" THEN Metas(V.meta, mk) ELSE MetaOf(t, mk), has |-> IsSome(d), def |-> d, as |-> <<K>>]>>, same |-> TRUE]
NameFn(ty) == IF TJ.std THEN SimpleT(ty) ELSE Names[ty]

DbgOut(reg) ==
  LET d == N(reg)
      x == IF TT[d.ty].own /\ Kind(d) # "opaque" THEN NDoc(d.ty, d.st) ELSE BDoc(d)
      y == RDoc(d)                                         \* the structural form, also that of a boxed value
  IN IF TT[reg.ty].hasdyn THEN [p |-> "", a |-> <<>>, rp |-> "", ra |-> <<>>]      \* erased values print their own Debug, see OutOK
     ELSE [p |-> Plain(x), a |-> Alt(x), rp |-> Plain(y), ra |-> Alt(y)]

VisitFew(v) == SelectSeq(v, LAMBDA x : x[1] \in {"u8", "f64", "String"})      \* a visitor of its own for these alone
VisitOut(reg, fail) ==
  LET v == VisitT(reg.ty, reg.st) IN
  IF fail >= 0 /\ fail < Len(v) THEN [t |-> "err", e |-> fail + 1, v |-> SubSeq(v, 1, fail + 1), few |-> VisitFew(v)] ELSE [t |-> "ok", e |-> 0, v |-> v, few |-> VisitFew(v)]

---------------------------------------------------------------------------
(* one operation *)

Skippable == {"new", "vfrom", "build", "reset"}
Missing(op, regs) ==
  op.o \notin Skippable /\ (("r" \in DOMAIN op /\ ~Here(regs, op.r)) \/ ("s" \in DOMAIN op /\ ~Here(regs, op.s)))

Step(op, regs) ==
  IF op.o = "reset" THEN Res(NoRegs, T1("ok"))
  ELSE IF Missing(op, regs) THEN Keep(regs, T1("skip"))
  ELSE
  LET reg == regs[op.r]
      d == N(reg)
      K == Kind(d)
  IN
  CASE op.o = "new" -> Put(regs, op.r, op.d, T1("ok"))
    [] op.o \in {"tov", "vref"} -> IF HasHidden(d) THEN Keep(regs, T1("panic")) ELSE Put(regs, op.to, [ty |-> "Value", st |-> ToV(d)], T1("ok"))
    [] op.o = "vfrom" -> IF ~TT[op.d.ty].from THEN Keep(regs, T1("none")) ELSE Put(regs, op.r, [ty |-> "Value", st |-> ToV(N(op.d))], T1("ok"))
    [] op.o = "fr" /\ TT[op.t].dyn /\ HasHidden(d) /\ ~(op.t = "EnumValue" /\ TopHidden(d)) /\ Kind(d) \in {TT[op.t].kind, IF op.t = "Value" THEN Kind(d) ELSE ""} -> Keep(regs, T1("panic"))
    [] op.o = "fr" -> LET x == FromR(op.t, d) IN IF IsSome(x) THEN Put(regs, op.to, [ty |-> op.t, st |-> x[1]], T1("some")) ELSE Keep(regs, T1("none"))
    [] op.o = "clone" ->
         LET x == CloneR(d) IN
         IF x = None THEN Keep(regs, T1("panic"))
         ELSE IF op.how = "owned" /\ K = "via" THEN Put(regs, op.to, [ty |-> d.st.s.t, st |-> d.st.s], T1("ok"))
         ELSE Put(regs, op.to, [ty |-> IF op.how = "owned" THEN d.ty ELSE reg.ty, st |-> x[1]], T1("ok"))
    [] op.o = "patch" -> IF op.r = op.s THEN Keep(regs, T1("bad")) ELSE Put(regs, op.r, [reg EXCEPT !.st = Patch(d, N(regs[op.s]))], T1("ok"))
    [] op.o = "eq" ->
         LET e == N(regs[op.s])  x == ReflEq(d, e) IN Keep(regs, [t |-> x, rev |-> ReflEq(e, d), pe |-> x = "t"])
    [] op.o = "at" ->
         LET x == OptD(d, AtA(d, op.p))  y == TypedAs(op.tys, x) IN Keep(regs, [at |-> x, mut |-> x, ga |-> y, gm |-> y])
    [] op.o = "insp" -> Keep(regs, Insp(d, op.names))
    [] op.o = "w" ->
         LET a == Route(d, op.route) IN
         IF a = None THEN Keep(regs, T1("none"))
         ELSE LET w == Write(GetA(d, a[1]), op.how, op.d) IN Put(regs, op.r, [reg EXCEPT !.st = SetA(d, a[1], w[2])], T1(w[1]))
    [] op.o = "gf" -> LET y == TypedAs(op.tys, GetField(reg, op.on, op.key)) IN Keep(regs, [g |-> y, gm |-> y])
    [] op.o = "push" ->
         IF K # "list" THEN Keep(regs, T1("none"))
         ELSE LET x == FromR(ElemTy(d), N(op.d)) IN Put(regs, op.r, IF IsSome(x) THEN [reg EXCEPT !.st.f = Append(@, x[1])] ELSE reg, T1("ok"))
    [] op.o \in {"pop", "rem"} ->
         IF K # "list" THEN Keep(regs, T1("nl"))
         ELSE LET i == IF op.o = "pop" THEN Len(d.st.f) ELSE op.i + 1 IN
              IF i < 1 \/ i > Len(d.st.f) THEN Keep(regs, T1("none"))
              ELSE Res([regs EXCEPT ![op.r].st.f = DelAt(@, i), ![op.to] = [ty |-> ElemTy(d), st |-> d.st.f[i]]], T1("some"))
    [] op.o = "mget" ->
         IF K # "map" THEN Keep(regs, T1("nm"))
         ELSE LET x == OptD(d, MapAddr(d, N(op.kd))) IN Keep(regs, [t |-> "ok", get |-> x, mut |-> x])
    [] op.o = "mins" ->
         IF K # "map" THEN Keep(regs, T1("nm"))
         ELSE LET k == FromR(KeyTy(d), N(op.kd))
                  v == FromR(ValTy(d), N(op.d))
              IN IF k = None \/ v = None THEN Keep(regs, T1("none"))
                 ELSE LET p == MapIdx(KeyTy(d), d.st.m, k[1])
                          r2 == [regs EXCEPT ![op.r].st.m = MapPut(KeyTy(d), @, k[1], v[1])]
                      IN IF p = 0 THEN Res(r2, T1("none")) ELSE Put(r2, op.to, [ty |-> ValTy(d), st |-> d.st.m[p][2]], T1("some"))
    [] op.o = "mrem" ->
         IF K # "map" THEN Keep(regs, T1("nm"))
         ELSE LET a == MapAddr(d, N(op.kd)) IN
              IF a = None THEN Keep(regs, T1("none"))
              ELSE LET p == a[1][1] IN
                   Res([regs EXCEPT ![op.r].st.m = DelAt(@, p), ![op.to] = [ty |-> ValTy(d), st |-> d.st.m[p][2]]], T1("some"))
    [] op.o = "visit" -> Keep(regs, VisitOut(reg, op.fail))
    [] op.o = "cmp" ->
         IF reg.ty # "Value" \/ regs[op.s].ty # "Value" THEN Keep(regs, T1("nv"))
         ELSE LET c == CmpV(reg.st, regs[op.s].st) IN
              Keep(regs, [t |-> "ok", c |-> c, rc |-> 0 - c, pc |-> c, eq |-> c = 0, lt |-> c = -1, heq |-> c = 0, ac |-> 0, ah |-> TRUE])
    [] op.o = "dcmp" ->
         IF reg.ty # regs[op.s].ty \/ reg.ty \notin {"StructValue", "EnumValue", "TupleValue", "TupleStructValue"} THEN Keep(regs, T1("nv"))
         ELSE LET c == CmpV(reg.st, regs[op.s].st) IN Keep(regs, [t |-> "ok", c |-> c, eq |-> c = 0, heq |-> c = 0])
    [] op.o = "ser" -> Keep(regs, IF reg.ty # "Value" THEN T1("nv") ELSE [t |-> "ok", eq |-> TRUE, st |-> reg.st])
    [] op.o = "sers" -> LET x == N(op.d) IN Keep(regs, IF RefKind(x) # "scalar" THEN T1("none") ELSE [t |-> "ok", d |-> Norm("Value", ScalOf(x))])
    [] op.o = "serp" -> Keep(regs, [t |-> "ok", eq |-> TRUE, keys |-> op.p])
    [] op.o = "serd" -> Keep(regs, [t |-> "ok", eq |-> TRUE, desc |-> Desc(op.t, op.mk), has |-> IsSome(Def(op.t)), def |-> Def(op.t)])
    [] op.o = "dbg" -> Keep(regs, DbgOut(reg))
    [] op.o = "conv" -> Keep(regs, Conv(reg, op.tys))
    [] op.o = "desc" -> Keep(regs, [types |-> Desc(op.t, op.mk), same |-> TRUE, root |-> <<DKind(op.t)>>, n |-> Names[op.t], meta |-> MetaOf(op.t, op.mk),
                                    docs |-> IF TT[op.t].dyn THEN <<>> ELSE TT[op.t].docs, sub |-> TRUE])
    [] op.o = "vdesc" -> Keep(regs, [n |-> Names[reg.ty], eq |-> TRUE, types |-> Desc(reg.ty, op.mk), tn |-> Names[reg.ty]])
    [] op.o = "tat" -> Keep(regs, TapOut(op.t, op.p, op.mk))
    [] op.o = "dflt" -> Keep(regs, DfltOut(op.t))
    [] op.o = "pp" -> Keep(regs, [p |-> PP(op.t, NameFn), same |-> TRUE, simple |-> IF TJ.std THEN SimpleT(op.t) ELSE "", n |-> Names[op.t]])
    [] op.o = "ppl" -> Keep(regs, [p |-> PPLocal(op, LAMBDA e : IF TJ.std THEN SimpleOr(e) ELSE Full(e)), n |-> Full(op.e)])
    [] op.o = "simple" -> Keep(regs, IF TJ.std THEN [s |-> IF Full(op.e) = op.name THEN <<Simple(op.e)>> ELSE <<"name and expression differ">>] ELSE T1("skip"))
    [] op.o = "kp" -> Keep(regs, KpOut(KpRun(<<>>, op.calls, 1), op.other))
    [] op.o = "kpm" -> Keep(regs, [t |-> "ok", keys |-> op.keys])
    [] op.o = "build" ->
         LET b == BuildRun(BuildInit(op), 0, op.calls, 1) IN Put(regs, op.r, [ty |-> BuildTy(op.what), st |-> b.st], [t |-> "ok", panics |-> b.panics])

(* is an observed outcome allowed?  Everything is determined, except that     *)
(* unequal values may share a hash and that types printing their own Debug    *)
(* print whatever that is                                                     *)
Same(a, b) == DOMAIN a = DOMAIN b /\ \A x \in DOMAIN a : a[x] = b[x]
OutOK(op, regs, exp, out) ==
  IF DOMAIN out = {"t"} \/ DOMAIN exp = {"t"} THEN Same(exp, out)
  ELSE CASE op.o \in {"cmp", "dcmp"} -> Same([exp EXCEPT !.heq = out.heq], out) /\ (exp.eq => out.heq)
         [] op.o = "dbg" ->
              LET reg == regs[op.r]  own == TT[reg.ty].own \/ TT[reg.ty].dyn IN
              /\ (TT[reg.ty].hasdyn \/ TT[reg.ty].dbgname = "?" \/ (out.p = exp.p /\ out.a = exp.a))
              /\ (TT[reg.ty].hasdyn \/ TT[reg.ty].dbgname = "?" \/ (out.rp = exp.rp /\ out.ra = exp.ra))
              /\ out.bp = out.p /\ out.ba = out.a                          \* boxed, it prints the same
              /\ (own /\ Kind(N(reg)) # "opaque" => out.p = out.np /\ out.a = out.na)
              /\ (reg.ty = "Value" \/ out.kp = out.p)
         [] OTHER -> Same(exp, out)
=============================================================================
