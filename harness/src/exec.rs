//! Executes one operation at a time against the real library and reports what it observed.
use crate::zoo::*;
use mirror_mirror::enum_::{EnumValue, VariantField, VariantFieldMut, VariantKind};
use mirror_mirror::key_path::{GetPath, GetTypePath, Key, KeyPath, NamedOrNumbered};
use mirror_mirror::try_visit::{try_visit, TryVisit};
use mirror_mirror::type_info::pretty_print::PrettyPrintRoot;
use mirror_mirror::type_info::{self as ti, GetMeta, Type, TypeAtPath};
use mirror_mirror::*;
use mirror_mirror::{struct_::StructValue, tuple::TupleValue, tuple_struct::TupleStructValue};
use serde_json::json;
use std::any::{Any, TypeId};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

pub struct Reg {
    pub ents: Vec<Entry>,
    by_tid: HashMap<String, usize>,
    by_type: HashMap<TypeId, usize>,
}
static REG: OnceLock<Reg> = OnceLock::new();
pub fn reg() -> &'static Reg {
    REG.get_or_init(|| {
        let mut ents = Vec::new();
        registry(&mut ents);
        registry_extra(&mut ents);
        let mut by_tid = HashMap::new();
        let mut by_type = HashMap::new();
        for (i, e) in ents.iter().enumerate() {
            by_tid.insert(e.tid.clone(), i);
            by_type.entry(e.id).or_insert(i);
        }
        for (i, e) in ents.iter().enumerate() { by_type.entry(e.box_id).or_insert(i); by_type.entry(e.box2_id).or_insert(i); }
        Reg { ents, by_tid, by_type }
    })
}
impl Reg {
    pub fn get(&self, tid: &str) -> Option<&Entry> { self.by_tid.get(tid).map(|i| &self.ents[*i]) }
}
pub fn ref_node(r: &dyn Reflect) -> J { dref(r)["st"].clone() }
fn norm(ty: &str, st: J) -> J {
    let ty = if ty == "Value" {
        match st["k"].as_str().unwrap_or("") {
            "s" => st["t"].as_str().unwrap().to_string(),
            "struct" => "StructValue".into(), "enum" => "EnumValue".into(), "tuple" => "TupleValue".into(),
            "tstruct" => "TupleStructValue".into(), "list" => "Vec<Value>".into(), "map" => "BTreeMap<Value, Value>".into(),
            _ => "?".into(),
        }
    } else { ty.to_string() };
    json!({"ty": ty, "st": st})
}
/// what a reference refers to, found without going through the library
pub fn dref(r: &dyn Reflect) -> J {
    let a: &dyn Any = r;
    match reg().by_type.get(&a.type_id()) {
        Some(i) => {
            let e = &reg().ents[*i];
            // what it says it is
            if <dyn Reflect as Reflect>::type_id(r) != e.id || r.type_name() != e.name { return json!({"ty": e.tid, "st": {"k": "another", "v": r.type_name()}}); }
            norm(&e.tid, (e.node_of)(a).unwrap_or(json!({"k": "?"})))
        }
        None => json!({"ty": "?", "st": {"k": "?"}}),
    }
}
fn dmut(r: &mut dyn Reflect) -> J { dref(&*r) }
fn own(b: Box<dyn Reflect>) -> Option<Box<dyn Obj>> {
    let a: Box<dyn Any> = b;
    let id = (*a).type_id();
    let e = &reg().ents[*reg().by_type.get(&id)?];
    (e.from_any)(a)
}
fn opt(o: Option<J>) -> J { match o { Some(x) => json!([x]), None => json!([]) } }
pub fn obj(d: &J) -> Option<Box<dyn Obj>> { (reg().get(d["ty"].as_str()?)?.conc?)(&d["st"]) }
fn obj_d(o: &dyn Obj) -> J { json!({"ty": o.tid(), "st": o.node()}) }

// ------------------------------------------------------------------ keys
pub fn key(j: &J) -> Key {
    match j["k"].as_str().unwrap() {
        "f" => Key::Field(NamedOrNumbered::Named(j["n"].as_str().unwrap().into())),
        "u" => Key::Field(NamedOrNumbered::Numbered(j["u"].as_u64().unwrap() as usize)),
        "g" => Key::Get(Value::conc(&j["v"]).unwrap()),
        _ => Key::Variant(j["n"].as_str().unwrap().into()),
    }
}
pub fn key_j(k: &Key) -> J {
    match k {
        Key::Field(NamedOrNumbered::Named(n)) => json!({"k": "f", "n": n}),
        Key::Field(NamedOrNumbered::Numbered(u)) => json!({"k": "u", "u": u}),
        Key::Get(v) => json!({"k": "g", "v": v.zabs()}),
        Key::Variant(n) => json!({"k": "v", "n": n}),
    }
}
pub fn path(j: &J) -> KeyPath { j.as_array().unwrap().iter().map(key).collect() }
fn path_j(p: &KeyPath) -> J { J::Array(p.iter().map(key_j).collect()) }

pub enum KeyArg { Str(String), Usize(usize), String(String), U8(u8), I32(i32), Val(Value) }
fn keyarg(j: &J) -> KeyArg {
    let v = &j["v"];
    match j["kt"].as_str().unwrap() {
        "str" => KeyArg::Str(Zoo::conc(v).unwrap()),
        "usize" => KeyArg::Usize(Zoo::conc(v).unwrap()),
        "String" => KeyArg::String(Zoo::conc(v).unwrap()),
        "u8" => KeyArg::U8(Zoo::conc(v).unwrap()),
        "i32" => KeyArg::I32(Zoo::conc(v).unwrap()),
        _ => KeyArg::Val(Zoo::conc(v).unwrap()),
    }
}
pub fn gf<'a, T: Reflect>(r: &'a dyn Reflect, on: &str, k: &KeyArg) -> Option<&'a T> {
    macro_rules! map_like { ($m:expr) => { match k {
        KeyArg::Str(s) => $m.get_field::<T>(&**s), KeyArg::Usize(u) => $m.get_field::<T>(*u), KeyArg::String(s) => $m.get_field::<T>(s.clone()),
        KeyArg::U8(u) => $m.get_field::<T>(*u), KeyArg::I32(u) => $m.get_field::<T>(*u), KeyArg::Val(v) => $m.get_field::<T>(v.clone()) } } }
    match on {
        "value" => { let a: &dyn Any = r; let v = a.downcast_ref::<Value>()?; map_like!(v) }
        "struct" => { let s = r.as_struct()?; if let KeyArg::Str(n) = k { s.get_field::<T>(&**n) } else { None } }
        "tstruct" => { let s = r.as_tuple_struct()?; if let KeyArg::Usize(n) = k { s.get_field::<T>(*n) } else { None } }
        "tuple" => { let s = r.as_tuple()?; if let KeyArg::Usize(n) = k { s.get_field::<T>(*n) } else { None } }
        "enum" => { let s = r.as_enum()?; match k { KeyArg::Str(n) => s.get_field::<T>(&**n), KeyArg::Usize(n) => s.get_field::<T>(*n), _ => None } }
        "list" => { let s = r.as_list()?; if let KeyArg::Usize(n) = k { s.get_field::<T>(*n) } else { None } }
        "array" => { let s = r.as_array()?; if let KeyArg::Usize(n) = k { s.get_field::<T>(*n) } else { None } }
        "map" => { let s = r.as_map()?; map_like!(s) }
        _ => None,
    }
}
pub fn gfm<'a, T: Reflect>(r: &'a mut dyn Reflect, on: &str, k: &KeyArg) -> Option<&'a mut T> {
    macro_rules! map_like { ($m:expr) => { match k {
        KeyArg::Str(s) => $m.get_field_mut::<T>(&**s), KeyArg::Usize(u) => $m.get_field_mut::<T>(*u), KeyArg::String(s) => $m.get_field_mut::<T>(s.clone()),
        KeyArg::U8(u) => $m.get_field_mut::<T>(*u), KeyArg::I32(u) => $m.get_field_mut::<T>(*u), KeyArg::Val(v) => $m.get_field_mut::<T>(v.clone()) } } }
    match on {
        "value" => { let a: &mut dyn Any = r; let v = a.downcast_mut::<Value>()?; map_like!(v) }
        "struct" => { let s = r.as_struct_mut()?; if let KeyArg::Str(n) = k { s.get_field_mut::<T>(&**n) } else { None } }
        "tstruct" => { let s = r.as_tuple_struct_mut()?; if let KeyArg::Usize(n) = k { s.get_field_mut::<T>(*n) } else { None } }
        "tuple" => { let s = r.as_tuple_mut()?; if let KeyArg::Usize(n) = k { s.get_field_mut::<T>(*n) } else { None } }
        "enum" => { let s = r.as_enum_mut()?; match k { KeyArg::Str(n) => s.get_field_mut::<T>(&**n), KeyArg::Usize(n) => s.get_field_mut::<T>(*n), _ => None } }
        "list" => { let s = r.as_list_mut()?; if let KeyArg::Usize(n) = k { s.get_field_mut::<T>(*n) } else { None } }
        "array" => { let s = r.as_array_mut()?; if let KeyArg::Usize(n) = k { s.get_field_mut::<T>(*n) } else { None } }
        "map" => { let s = r.as_map_mut()?; map_like!(s) }
        _ => None,
    }
}

// ------------------------------------------------------------------ inspection
fn vk(k: VariantKind) -> &'static str { match k { VariantKind::Struct => "struct", VariantKind::Tuple => "tuple", VariantKind::Unit => "unit" } }
fn lens<I: ExactSizeIterator>(mut it: I) -> J {
    let mut v = Vec::new();
    for _ in 0..1000 {
        let (l, (a, b)) = (it.len(), it.size_hint());
        v.push(if a == l && b == Some(l) { l as i64 } else { -1 });
        if it.next().is_none() { break; }
    }
    if it.next().is_some() { v.push(-2); }
    json!(v)
}
/// every way of consuming an iterator gives the items that `next` gives, whatever has been consumed before
pub fn adapt<T, I: Iterator<Item = T>>(mk: impl Fn() -> I, show: impl Fn(T) -> J) -> bool {
    let mut all = Vec::new();
    let mut it = mk();
    while let Some(x) = it.next() { all.push(show(x)); if all.len() > 10_000 { return false } }
    let mut ok = (0..3).all(|_| it.next().is_none());
    let n = all.len();
    ok &= mk().count() == n && mk().last().map(&show) == all.last().cloned();
    let mut sofar = 0;
    mk().for_each(|x| { ok &= all.get(sofar) == Some(&show(x)); sofar += 1; });
    ok &= mk().collect::<Vec<_>>().into_iter().map(&show).eq(all.iter().cloned());
    for i in [0, 1, n / 2, n.saturating_sub(1), n, n + 1, n + 7, usize::MAX] {
        let mut it = mk();
        ok &= it.nth(i).map(&show) == all.get(i).cloned();
        let (lo, hi) = it.size_hint();
        let rest: Vec<J> = it.map(&show).collect();
        let m = n.saturating_sub(i.saturating_add(1));
        ok &= rest[..] == all[n - m..] && lo <= m && hi.map_or(true, |hi| hi >= m);
        ok &= mk().skip(i).map(&show).eq(all.iter().skip(i).cloned());
        if i > 0 { ok &= mk().step_by(i).map(&show).eq(all.iter().step_by(i).cloned()); }
    }
    ok
}
/// and from both ends
pub fn adapt2<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(mk: impl Fn() -> I, show: impl Fn(T) -> J) -> bool {
    let all: Vec<J> = mk().map(&show).collect();
    let n = all.len();
    let mut ok = adapt(&mk, &show) && adapt(|| mk().rev(), &show);
    for i in [0, 1, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX] {
        for j in [0, 1, n / 2, n] {
            let (mut a, mut b) = (mk(), all.iter().cloned());
            ok &= a.nth_back(i).map(&show) == b.nth_back(i) && a.len() == b.len() && a.size_hint() == b.size_hint();
            ok &= a.nth(j).map(&show) == b.nth(j) && a.len() == b.len();
            ok &= a.rev().map(&show).eq(b.rev());
        }
    }
    ok &= mk().peekable().len() == n && mk().take(3).len() == n.min(3) && mk().enumerate().rev().map(|(i, x)| (i, show(x))).eq(all.iter().cloned().enumerate().rev());
    ok &= mk().rposition(|x| Some(&show(x)) == all.first()) == all.iter().rposition(|x| Some(x) == all.first());
    ok &= mk().rfold(0, |k, _| k + 1) == n;
    ok
}
fn insp(r: &mut dyn Reflect, names: &[String]) -> J {
    macro_rules! probes { ($n:expr, $f:expr) => { (0..$n + 3).map($f).collect::<Vec<J>>() } }
    let kind = match r.reflect_ref() {
        ReflectRef::Struct(s) => {
            let n = s.fields_len();
            let mut o = json!({"k": "struct", "len": n,
                "names": probes!(n, |i| opt(s.name_at(i).map(|x| json!(x)))), "at": probes!(n, |i| opt(s.field_at(i).map(dref))),
                "it": s.fields().map(|(n, v)| json!([n, dref(v)])).collect::<Vec<_>>(), "hint": lens(s.fields()), "adapt": adapt(|| s.fields(), |(n, v)| json!([n, dref(v)])),
                "by": names.iter().map(|n| opt(s.field(n).map(dref))).collect::<Vec<_>>()});
            let s = r.as_struct_mut().unwrap();
            o["atm"] = J::Array(probes!(n, |i| opt(s.field_at_mut(i).map(dmut))));
            o["bym"] = J::Array(names.iter().map(|n| opt(s.field_mut(n).map(dmut))).collect());
            o["itm"] = J::Array(s.fields_mut().map(|(n, v)| json!([n, dmut(v)])).collect());
            return o;
        }
        ReflectRef::Enum(s) => {
            let n = s.fields_len();
            let mut o = json!({"k": "enum", "vn": s.variant_name(), "vk": vk(s.variant_kind()), "vlen": s.variants_len(), "len": n,
                "names": probes!(n, |i| opt(s.name_at(i).map(|x| json!(x)))), "at": probes!(n, |i| opt(s.field_at(i).map(dref))),
                "it": s.fields().map(|f| match f { VariantField::Struct(n, v) => json!(["s", n, dref(v)]), VariantField::Tuple(v) => json!(["t", "", dref(v)]) }).collect::<Vec<_>>(),
                "adapt": adapt(|| s.fields(), |f| match f { VariantField::Struct(n, v) => json!(["s", n, dref(v)]), VariantField::Tuple(v) => json!(["t", "", dref(v)]) }),
                "by": names.iter().map(|n| opt(s.field(n).map(dref))).collect::<Vec<_>>()});
            let s = r.as_enum_mut().unwrap();
            o["atm"] = J::Array(probes!(n, |i| opt(s.field_at_mut(i).map(dmut))));
            o["bym"] = J::Array(names.iter().map(|n| opt(s.field_mut(n).map(dmut))).collect());
            o["itm"] = J::Array(s.fields_mut().map(|f| match f { VariantFieldMut::Struct(n, v) => json!(["s", n, dmut(v)]), VariantFieldMut::Tuple(v) => json!(["t", "", dmut(v)]) }).collect());
            return o;
        }
        ReflectRef::TupleStruct(_) => "tstruct", ReflectRef::Tuple(_) => "tuple", ReflectRef::Array(_) => "array", ReflectRef::List(_) => "list",
        ReflectRef::Map(s) => {
            let mut o = json!({"k": "map", "len": s.len(), "empty": s.is_empty(), "it": s.iter().map(|(k, v)| json!([dref(k), dref(v)])).collect::<Vec<_>>(),
                "adapt": adapt(|| s.iter(), |(k, v)| json!([dref(k), dref(v)]))});
            let s = r.as_map_mut().unwrap();
            o["itm"] = J::Array(s.iter_mut().map(|(k, v)| json!([dref(k), dmut(v)])).collect());
            return o;
        }
        ReflectRef::Scalar(s) => return json!({"k": "scalar", "it": dref(s.as_reflect())}),
        ReflectRef::Opaque(s) => return json!({"k": "opaque", "it": dref(s)}),
    };
    macro_rules! seq { ($r:ident, $m:ident, $at:ident, $atm:ident, $it:ident, $itm:ident, $len:ident, $e:expr) => {{
        let s = r.$r().unwrap();
        let n = s.$len();
        let mut o = json!({"k": kind, "len": n, "at": probes!(n, |i| opt(s.$at(i).map(dref))), "it": s.$it().map(dref).collect::<Vec<_>>(), "hint": lens(s.$it()), "adapt": adapt(|| s.$it(), dref), "empty": $e(s)});
        let s = r.$m().unwrap();
        o["atm"] = J::Array(probes!(n, |i| opt(s.$atm(i).map(dmut))));
        o["itm"] = J::Array(s.$itm().map(dmut).collect());
        o
    }}}
    match kind {
        "tstruct" => seq!(as_tuple_struct, as_tuple_struct_mut, field_at, field_at_mut, fields, fields_mut, fields_len, |s: &dyn TupleStruct| s.fields_len() == 0),
        "tuple" => seq!(as_tuple, as_tuple_mut, field_at, field_at_mut, fields, fields_mut, fields_len, |s: &dyn Tuple| s.fields_len() == 0),
        "array" => seq!(as_array, as_array_mut, get, get_mut, iter, iter_mut, len, |s: &dyn Array| s.is_empty()),
        _ => seq!(as_list, as_list_mut, get, get_mut, iter, iter_mut, len, |s: &dyn List| s.is_empty()),
    }
}

// ------------------------------------------------------------------ writing
fn route<'a>(r: &'a mut dyn Reflect, o: &J) -> Option<&'a mut dyn Reflect> {
    let i = o["i"].as_u64().unwrap_or(0) as usize;
    let n = o["n"].as_str().unwrap_or("").to_string();
    match o["p"].as_str().unwrap() {
        "self" => Some(r),
        "path" => r.at_mut(&path(&o["path"])),
        "field" => match r.reflect_mut() { ReflectMut::Struct(s) => s.field_mut(&n), ReflectMut::Enum(s) => s.field_mut(&n), _ => None },
        "at" => match r.reflect_mut() {
            ReflectMut::Struct(s) => s.field_at_mut(i), ReflectMut::Enum(s) => s.field_at_mut(i), ReflectMut::TupleStruct(s) => s.field_at_mut(i),
            ReflectMut::Tuple(s) => s.field_at_mut(i), ReflectMut::List(s) => s.get_mut(i), ReflectMut::Array(s) => s.get_mut(i), _ => None },
        "it" => match r.reflect_mut() {
            ReflectMut::Struct(s) => s.fields_mut().nth(i).map(|x| x.1),
            ReflectMut::Enum(s) => s.fields_mut().nth(i).map(|x| match x { VariantFieldMut::Struct(_, v) => v, VariantFieldMut::Tuple(v) => v }),
            ReflectMut::TupleStruct(s) => s.fields_mut().nth(i), ReflectMut::Tuple(s) => s.fields_mut().nth(i),
            ReflectMut::List(s) => s.iter_mut().nth(i), ReflectMut::Array(s) => s.iter_mut().nth(i),
            ReflectMut::Map(s) => s.iter_mut().nth(i).map(|x| x.1), _ => None },
        "mget" => { let k = obj(&o["kd"]).unwrap(); match r.reflect_mut() { ReflectMut::Map(s) => s.get_mut(k.r()), _ => None } }
        _ => None,
    }
}
fn write(t: &mut dyn Reflect, how: &str, d: &J) -> &'static str {
    match how {
        "patch" => { let o = obj(d).unwrap(); t.patch(o.r()); "ok" }
        "dc" => if (reg().get(d["ty"].as_str().unwrap()).unwrap().dc_set.unwrap())(t, &d["st"]) { "ok" } else { "nt" },
        "asr" => { // the write goes through the projection's own reference
            let o = obj(d).unwrap(); t.reflect_mut().as_reflect_mut().patch(o.r()); "ok"
        }
        _ => {
            let Some(m) = t.as_scalar_mut() else { return "none" };
            macro_rules! set { ($($v:ident)*) => { match (m, Value::conc(&d["st"])) { $((ScalarMut::$v(x), Some(Value::$v(y))) => { *x = y; "ok" })* _ => "nt" } } }
            set!(usize u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 bool char f32 f64 String)
        }
    }
}

// ------------------------------------------------------------------ descriptors
fn metas<'a, G: GetMeta<'a> + Copy>(g: G, probes: &[String]) -> J {
    // the typed question is the untyped one and a conversion
    fn agrees<'a, T: FromReflect + Zoo, G: GetMeta<'a> + Copy>(g: G, k: &str) -> bool { g.get_meta::<T>(k).map(|v| v.zabs()) == g.meta(k).and_then(|v| T::from_reflect(v)).map(|v| v.zabs()) }
    J::Array(probes.iter().filter_map(|k| {
        let ok = agrees::<Value, G>(g, k) && agrees::<u8, G>(g, k) && agrees::<i32, G>(g, k) && agrees::<String, G>(g, k) && agrees::<bool, G>(g, k) && agrees::<Option<u8>, G>(g, k) && agrees::<Vec<u8>, G>(g, k) && agrees::<TOne, G>(g, k) && agrees::<STwo, G>(g, k);
        if !ok { return Some(json!([k, "get_meta and meta disagree"])); }
        g.meta(k).map(|v| json!([k, dref(v)["st"]]))
    }).collect())
}
fn kind_of(t: Type) -> &'static str {
    match t { Type::Struct(_) => "struct", Type::TupleStruct(_) => "tstruct", Type::Tuple(_) => "tuple", Type::Enum(_) => "enum", Type::List(_) => "list",
        Type::Array(_) => "array", Type::Map(_) => "map", Type::Scalar(_) => "scalar", Type::Opaque(_) => "opaque" }
}
fn desc(root: Type, mk: &[String]) -> J {
    let mut seen: Vec<String> = Vec::new();
    let mut todo = std::collections::VecDeque::from([root]);
    let mut out = Vec::new();
    seen.push(root.type_name().to_string());
    while let Some(t) = todo.pop_front() {
        let mut next: Vec<Type> = Vec::new();
        let mut ok = true;
        let mut fields = Vec::new();
        let mut variants = Vec::new();
        let (mut elem, mut key_, mut val, mut len) = (String::new(), String::new(), String::new(), 0);
        match t {
            Type::Struct(s) => {
                for f in s.field_types() { fields.push(json!({"n": f.name(), "t": f.get_type().type_name(), "meta": metas(f, mk), "docs": f.docs()})); next.push(f.get_type()); }
                let n = fields.len();
                len = s.fields_len();
                ok &= s.field_types().collect::<Vec<_>>() == (0..n + 3).filter_map(|i| s.field_type_at(i)).collect::<Vec<_>>();
                ok &= s.field_types().all(|f| s.field_type(f.name()) == Some(f)) && s.field_type("no such field").is_none();
                ok &= t.as_struct() == Some(s) && s.type_name() == t.type_name();
            }
            Type::TupleStruct(s) => {
                for f in s.field_types() { fields.push(json!({"n": "", "t": f.get_type().type_name(), "meta": metas(f, mk), "docs": f.docs()})); next.push(f.get_type()); }
                let n = fields.len();
                len = s.fields_len();
                ok &= s.field_types().collect::<Vec<_>>() == (0..n + 3).filter_map(|i| s.field_type_at(i)).collect::<Vec<_>>();
                ok &= t.as_tuple_struct() == Some(s) && s.type_name() == t.type_name();
            }
            Type::Tuple(s) => {
                for f in s.field_types() { fields.push(json!({"n": "", "t": f.get_type().type_name(), "meta": metas(f, mk), "docs": f.docs()})); next.push(f.get_type()); }
                let n = fields.len();
                len = s.fields_len();
                ok &= s.field_types().collect::<Vec<_>>() == (0..n + 3).filter_map(|i| s.field_type_at(i)).collect::<Vec<_>>();
                ok &= t.as_tuple() == Some(s) && s.type_name() == t.type_name();
            }
            Type::Enum(s) => {
                len = s.variants_len();
                for v in s.variants() {
                    let mut fs = Vec::new();
                    for f in v.field_types() { fs.push(json!({"n": f.name().unwrap_or(""), "t": f.get_type().type_name(), "meta": metas(f, mk), "docs": f.docs()})); next.push(f.get_type()); }
                    let k = match v { ti::Variant::Struct(_) => "struct", ti::Variant::Tuple(_) => "tuple", ti::Variant::Unit(_) => "unit" };
                    ok &= v.field_types().collect::<Vec<_>>() == (0..fs.len() + 3).filter_map(|i| v.field_type_at(i)).collect::<Vec<_>>();
                    ok &= v.field_types().all(|f| match f { ti::VariantField::Named(f) => v.field_type(f.name()) == Some(f), _ => true }) && v.field_type("no such field").is_none();
                    ok &= v.enum_type() == s && s.variant(v.name()) == Some(v) && v.type_name() == t.type_name();
                    ok &= match v {
                        ti::Variant::Struct(x) => x.name() == v.name() && x.fields_len() == v.fields_len() && x.enum_type() == s && x.field_types().map(|f| f.name()).eq(fs.iter().map(|f| f["n"].as_str().unwrap()))
                            && (0..fs.len() + 3).filter_map(|i| x.field_type_at(i)).eq(x.field_types()) && metas(x, mk) == metas(v, mk) && x.docs() == v.docs() && x.type_name() == v.type_name(),
                        ti::Variant::Tuple(x) => x.name() == v.name() && x.fields_len() == v.fields_len() && x.enum_type() == s && x.field_types().count() == fs.len()
                            && (0..fs.len() + 3).filter_map(|i| x.field_type_at(i)).eq(x.field_types()) && metas(x, mk) == metas(v, mk) && x.docs() == v.docs() && x.type_name() == v.type_name(),
                        ti::Variant::Unit(x) => x.name() == v.name() && x.enum_type() == s && metas(x, mk) == metas(v, mk) && x.docs() == v.docs() && x.type_name() == v.type_name(),
                    };
                    variants.push(json!({"n": v.name(), "vk": k, "len": v.fields_len(), "fields": fs, "meta": metas(v, mk), "docs": v.docs()}));
                }
                ok &= s.variant("no such variant").is_none() && t.as_enum() == Some(s) && s.type_name() == t.type_name();
            }
            Type::List(s) => { elem = s.element_type().type_name().into(); next.push(s.element_type()); ok &= t.as_list() == Some(s) && s.type_name() == t.type_name(); }
            Type::Array(s) => { elem = s.element_type().type_name().into(); len = s.len(); next.push(s.element_type()); ok &= t.as_array() == Some(s) && s.is_empty() == (s.len() == 0) && s.type_name() == t.type_name(); }
            Type::Map(s) => { key_ = s.key_type().type_name().into(); val = s.value_type().type_name().into(); next.push(s.key_type()); next.push(s.value_type()); ok &= t.as_map() == Some(s) && s.type_name() == t.type_name(); }
            Type::Scalar(s) => ok &= t.as_scalar() == Some(s) && s.type_name() == t.type_name(),
            Type::Opaque(s) => ok &= t.as_opaque() == Some(s) && s.type_name() == t.type_name() && s.docs() == t.docs() && metas(s, mk) == metas(t, mk),
        }
        let k = kind_of(t);
        let as_ = [("struct", t.as_struct().is_some()), ("tstruct", t.as_tuple_struct().is_some()), ("tuple", t.as_tuple().is_some()), ("enum", t.as_enum().is_some()),
            ("list", t.as_list().is_some()), ("array", t.as_array().is_some()), ("map", t.as_map().is_some()), ("scalar", t.as_scalar().is_some()), ("opaque", t.as_opaque().is_some())];
        ok &= as_.iter().all(|(n, b)| *b == (*n == k));
        out.push(json!({"n": t.type_name(), "k": k, "fields": fields, "variants": variants, "elem": elem, "key": key_, "val": val, "len": len,
            "meta": metas(t, mk), "docs": t.docs(), "ok": ok}));
        for x in next { if !<[String]>::iter(&seen).any(|s| s.as_str() == x.type_name()) { seen.push(x.type_name().to_string()); todo.push_back(x); } }
    }
    J::Array(out)
}
fn strs(j: &J) -> Vec<String> { j.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() }
fn tap(t: Option<TypeAtPath>, mk: &[String]) -> J {
    let Some(t) = t else { return json!([]) };
    let (k, var) = match t {
        TypeAtPath::Struct(_) => ("struct", ""), TypeAtPath::TupleStruct(_) => ("tstruct", ""), TypeAtPath::Tuple(_) => ("tuple", ""), TypeAtPath::Enum(_) => ("enum", ""),
        TypeAtPath::Variant(v) => ("variant", v.name()), TypeAtPath::List(_) => ("list", ""), TypeAtPath::Array(_) => ("array", ""), TypeAtPath::Map(_) => ("map", ""),
        TypeAtPath::Scalar(_) => ("scalar", ""), TypeAtPath::Opaque(_) => ("opaque", ""),
    };
    let as_ = [("struct", t.as_struct().is_some()), ("tstruct", t.as_tuple_struct().is_some()), ("tuple", t.as_tuple().is_some()), ("enum", t.as_enum().is_some()), ("variant", t.as_variant().is_some()),
        ("list", t.as_list().is_some()), ("array", t.as_array().is_some()), ("map", t.as_map().is_some()), ("scalar", t.as_scalar().is_some()), ("opaque", t.as_opaque().is_some())];
    json!([{"k": k, "n": t.type_name(), "var": var, "docs": t.docs(), "meta": metas(t, mk), "has": t.has_default_value(), "def": opt(t.default_value().map(|v| v.zabs())),
        "as": as_.iter().filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>()}])
}

// ------------------------------------------------------------------ visiting
struct Vis { left: i64, out: Vec<J> }
impl Vis {
    fn hit(&mut self, m: &str, x: J) -> Result<(), i64> {
        self.out.push(json!([m, x]));
        if self.left == 0 { return Err(self.out.len() as i64); }
        self.left -= 1;
        Ok(())
    }
}
macro_rules! vis { ($($n:ident $t:ident),*) => {
    impl TryVisit for Vis {
        type Error = i64;
        $(fn $n(&mut self, v: $t) -> Result<(), i64> { self.hit(stringify!($t), v.zabs()) })*
        fn try_visit_string(&mut self, v: &String) -> Result<(), i64> { self.hit("String", v.zabs()) }
        fn try_visit_opaque(&mut self, v: &dyn Reflect, ty: ti::OpaqueType<'_>) -> Result<(), i64> { let d = dref(v); self.hit("opaque", json!([ty.type_name(), d])) }
    }
}}
vis!(try_visit_usize usize, try_visit_u8 u8, try_visit_u16 u16, try_visit_u32 u32, try_visit_u64 u64, try_visit_u128 u128, try_visit_i8 i8, try_visit_i16 i16,
    try_visit_i32 i32, try_visit_i64 i64, try_visit_i128 i128, try_visit_bool bool, try_visit_char char, try_visit_f32 f32, try_visit_f64 f64);

/// a visitor that leaves most of the methods as they are
struct Few(Vec<J>);
impl TryVisit for Few {
    type Error = String;
    fn try_visit_u8(&mut self, v: u8) -> Result<(), String> { self.0.push(json!(["u8", v.zabs()])); Ok(()) }
    fn try_visit_f64(&mut self, v: f64) -> Result<(), String> { self.0.push(json!(["f64", v.zabs()])); Ok(()) }
    fn try_visit_string(&mut self, v: &String) -> Result<(), String> { self.0.push(json!(["String", v.zabs()])); Ok(()) }
}

// ------------------------------------------------------------------ conversions
fn kref(r: &ReflectRef) -> &'static str {
    match r { ReflectRef::Struct(_) => "struct", ReflectRef::TupleStruct(_) => "tstruct", ReflectRef::Tuple(_) => "tuple", ReflectRef::Enum(_) => "enum", ReflectRef::Array(_) => "array",
        ReflectRef::List(_) => "list", ReflectRef::Map(_) => "map", ReflectRef::Scalar(_) => "scalar", ReflectRef::Opaque(_) => "opaque" }
}
fn kmut(r: &ReflectMut) -> &'static str {
    match r { ReflectMut::Struct(_) => "struct", ReflectMut::TupleStruct(_) => "tstruct", ReflectMut::Tuple(_) => "tuple", ReflectMut::Enum(_) => "enum", ReflectMut::Array(_) => "array",
        ReflectMut::List(_) => "list", ReflectMut::Map(_) => "map", ReflectMut::Scalar(_) => "scalar", ReflectMut::Opaque(_) => "opaque" }
}
fn kown(r: &ReflectOwned) -> &'static str {
    match r { ReflectOwned::Struct(_) => "struct", ReflectOwned::TupleStruct(_) => "tstruct", ReflectOwned::Tuple(_) => "tuple", ReflectOwned::Enum(_) => "enum", ReflectOwned::Array(_) => "array",
        ReflectOwned::List(_) => "list", ReflectOwned::Map(_) => "map", ReflectOwned::Scalar(_) => "scalar", ReflectOwned::Opaque(_) => "opaque" }
}
fn as_names(r: &dyn Reflect) -> J {
    let mut v = Vec::new();
    macro_rules! t { ($($n:literal $f:ident),*) => {$( if let Some(x) = r.$f() { v.push(json!([$n, dref(x.as_reflect())])); } )*} }
    t!("struct" as_struct, "tstruct" as_tuple_struct, "tuple" as_tuple, "enum" as_enum, "list" as_list, "array" as_array, "map" as_map);
    if let Some(s) = r.as_scalar() { v.push(json!(["scalar", dref(s.as_reflect())])); }
    J::Array(v)
}
fn ref_names(r: &dyn Reflect) -> J {
    let mut v = Vec::new();
    let p = r.reflect_ref();
    macro_rules! t { ($($n:literal $f:ident),*) => {$( if let Some(x) = p.$f() { v.push(json!([$n, dref(x.as_reflect())])); } )*} }
    t!("struct" as_struct, "tstruct" as_tuple_struct, "tuple" as_tuple, "enum" as_enum, "list" as_list, "array" as_array, "map" as_map, "opaque" as_opaque);
    if let Some(s) = p.as_scalar() { v.push(json!(["scalar", dref(s.as_reflect())])); }
    J::Array(v)
}
fn asm_names(r: &mut dyn Reflect) -> J {
    let mut v = Vec::new();
    macro_rules! t { ($($n:literal $f:ident),*) => {$( if let Some(x) = r.$f() { v.push(json!([$n, dmut(x.as_reflect_mut())])); } )*} }
    t!("struct" as_struct_mut, "tstruct" as_tuple_struct_mut, "tuple" as_tuple_mut, "enum" as_enum_mut, "list" as_list_mut, "array" as_array_mut, "map" as_map_mut);
    if let Some(mut s) = r.as_scalar_mut() { let a = dref(s.as_reflect()); let b = dmut(s.as_reflect_mut()); v.push(json!(["scalar", a])); if a != b { v.push(json!(["scalar!", b])); } }
    J::Array(v)
}
fn mut_names(r: &mut dyn Reflect) -> J {
    let mut v = Vec::new();
    macro_rules! t { ($($n:literal $f:ident),*) => {$( if let Some(x) = r.reflect_mut().$f() { v.push(json!([$n, dmut(x.as_reflect_mut())])); } )*} }
    t!("struct" as_struct_mut, "tstruct" as_tuple_struct_mut, "tuple" as_tuple_mut, "enum" as_enum_mut, "list" as_list_mut, "array" as_array_mut, "map" as_map_mut, "opaque" as_opaque_mut);
    if let Some(s) = r.reflect_mut().as_scalar_mut() { v.push(json!(["scalar", dref(s.as_reflect())])); }
    J::Array(v)
}
fn into_names(mk: &dyn Fn() -> Box<dyn Reflect>) -> J {
    let mut v = Vec::new();
    macro_rules! t { ($($n:literal $f:ident),*) => {$( if let Some(x) = mk().$f() { v.push(json!([$n, dref(x.as_reflect())])); } )*} }
    t!("struct" into_struct, "tstruct" into_tuple_struct, "tuple" into_tuple, "enum" into_enum, "list" into_list, "array" into_array, "map" into_map);
    if let Some(s) = mk().into_scalar() { v.push(json!(["scalar", dref(s.as_reflect())])); }
    J::Array(v)
}
fn owned_names(mk: &dyn Fn() -> Box<dyn Reflect>) -> J {
    let mut v = Vec::new();
    macro_rules! t { ($($n:literal $f:ident),*) => {$( if let Some(x) = mk().reflect_owned().$f() { v.push(json!([$n, dref(x.as_reflect())])); } )*} }
    t!("struct" into_struct, "tstruct" into_tuple_struct, "tuple" into_tuple, "enum" into_enum, "list" into_list, "array" into_array, "map" into_map, "opaque" into_opaque);
    if let Some(s) = mk().reflect_owned().into_scalar() { v.push(json!(["scalar", dref(s.as_reflect())])); }
    J::Array(v)
}
fn catch<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
fn conv(d: &J, boxed: bool, tys: &[String]) -> J {
    let mk: Box<dyn Fn() -> Box<dyn Reflect>> = if boxed { Box::new(move || obj(d).unwrap().boxed()) } else { Box::new(move || obj(d).unwrap().into_r()) };
    let mut x = mk();
    let r: &mut dyn Reflect = &mut *x;
    let mut o = mk().reflect_owned();
    let mut o2 = o.clone();
    let mut dc = Vec::new();
    let mut dcm = Vec::new();
    for t in tys {
        let e = reg().get(t).unwrap();
        if let Some(n) = (e.dc.unwrap())(&*r) { dc.push(json!([t, n])); }
        if let Some(n) = (e.dc_mut.unwrap())(&mut *r) { dcm.push(json!([t, n])); }
    }
    let tv = catch(|| r.to_value()).map_or(json!([]), |v| json!([v.zabs()]));
    let cl = catch(|| r.clone_reflect()).map_or(json!([]), |v| json!([dref(&*v)["st"]]));
    let mut pt = mk();
    pt.patch(r);
    let pt = dref(&*pt);
    json!({"tv": tv, "cl": cl, "pt": pt, "dn": r.type_descriptor().type_name(), "ref": kref(&r.reflect_ref()), "mut": kmut(&r.reflect_mut()), "own": kown(&o), "own2": kown(&o2),
        "as": as_names(r), "asm": asm_names(r), "refas": ref_names(r), "mutas": mut_names(r), "into": into_names(&*mk), "ownas": owned_names(&*mk),
        "rd": dref(r.reflect_ref().as_reflect()), "md": dref(r.reflect_mut().as_reflect()), "mmd": dmut(r.reflect_mut().as_reflect_mut()),
        "od": dref(o.as_reflect()), "omd": dmut(o.as_reflect_mut()), "o2d": dref(o2.as_reflect()), "o2md": dmut(o2.as_reflect_mut()),
        "self": dref(r.as_reflect()), "selfm": dmut(r.as_reflect_mut()), "dc": dc, "dcm": dcm})
}

// ------------------------------------------------------------------ serialisation
fn ser_val(v: &Value, fmt: &str) -> Result<Value, String> {
    match fmt {
        #[cfg(feature = "serde")]
        "json" => serde_json::from_str(&serde_json::to_string(v).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        #[cfg(feature = "serde")]
        "bincode" => bincode::deserialize(&bincode::serialize(v).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        #[cfg(feature = "serde")]
        "cbor" => { let mut b = Vec::new(); ciborium::into_writer(v, &mut b).map_err(|e| e.to_string())?; ciborium::from_reader(&b[..]).map_err(|e| e.to_string()) }
        #[cfg(feature = "speedy")]
        "speedy" => { use speedy::{Readable, Writable}; Value::read_from_buffer(&v.write_to_vec().map_err(|e| e.to_string())?).map_err(|e| e.to_string()) }
        _ => Err("no such format".into()),
    }
}
macro_rules! ser_fn { ($name:ident, $t:ty) => {
    fn $name(v: &$t, fmt: &str) -> Result<$t, String> {
        match fmt {
            #[cfg(feature = "serde")]
            "json" => serde_json::from_str(&serde_json::to_string(v).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
            #[cfg(feature = "serde")]
            "bincode" => bincode::deserialize(&bincode::serialize(v).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
            #[cfg(feature = "serde")]
            "cbor" => { let mut b = Vec::new(); ciborium::into_writer(v, &mut b).map_err(|e| e.to_string())?; ciborium::from_reader(&b[..]).map_err(|e| e.to_string()) }
            #[cfg(feature = "speedy")]
            "speedy" => { use speedy::{Readable, Writable}; <$t>::read_from_buffer(&v.write_to_vec().map_err(|e| e.to_string())?).map_err(|e| e.to_string()) }
            _ => Err("no such format".into()),
        }
    }
}}
ser_fn!(ser_path, KeyPath);
ser_fn!(ser_desc, TypeDescriptor);
ser_fn!(ser_owned, ScalarOwned);
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn ord(o: std::cmp::Ordering) -> i64 { o as i64 }

// ------------------------------------------------------------------ machine
#[derive(Default)]
pub struct Machine { pub regs: BTreeMap<String, Box<dyn Obj>> }
impl Machine {
    pub fn snap(&self) -> BTreeMap<String, J> { self.regs.iter().map(|(k, v)| (k.clone(), obj_d(&**v))).collect() }
    pub fn step(&mut self, op: &J) -> J {
        let s = |k: &str| op[k].as_str().unwrap_or("").to_string();
        let o = s("o");
        if o == "reset" { self.regs.clear(); return json!({"t": "ok"}); }
        for k in ["r", "s"] {
            if let Some(n) = op[k].as_str() { if o != "new" && o != "vfrom" && o != "build" && !self.regs.contains_key(n) { return json!({"t": "skip"}); } }
        }
        let rn = s("r");
        let to = s("to");
        macro_rules! R { ($n:expr) => { self.regs[&$n].r() } }
        macro_rules! M { ($n:expr) => { self.regs.get_mut(&$n).unwrap().r_mut() } }
        let tt = |x: &str| json!({"t": x});
        match &*o {
            "new" => match obj(&op["d"]) { Some(x) => { self.regs.insert(rn, x); tt("ok") } None => tt("bad") },
            "tov" => { let v = R!(rn).to_value(); self.regs.insert(to, Box::new(v)); tt("ok") }
            "vfrom" => { // typed value -> Value through From / IntoValue
                let e = reg().get(op["d"]["ty"].as_str().unwrap()).unwrap();
                match e.from { None => tt("none"), Some(f) => match f(&op["d"]["st"]) { Some(v) => { self.regs.insert(rn, Box::new(v)); tt("ok") } None => tt("bad") } }
            }
            "vref" => { let v = Value::from(R!(rn)); self.regs.insert(to, Box::new(v)); tt("ok") }
            "fr" => {
                let e = reg().get(&s("t")).unwrap();
                match (e.from_reflect.unwrap())(R!(rn)) { Some(x) => { self.regs.insert(to, x); tt("some") } None => tt("none") }
            }
            "clone" => {
                let b = match &*s("how") {
                    "to_owned" => R!(rn).to_owned(),
                    "owned" => {
                        let d = obj_d(&*self.regs[&rn]);
                        let x = obj(&d).unwrap().into_r().reflect_owned();
                        let y = x.clone();
                        match y { ReflectOwned::Opaque(i) => i, mut z => z.as_reflect_mut().clone_reflect() }
                    }
                    _ => R!(rn).clone_reflect(),
                };
                match own(b) { Some(x) => { self.regs.insert(to, x); tt("ok") } None => tt("alien") }
            }
            "patch" => {
                if rn == s("s") { return tt("bad"); }
                let mut x = self.regs.remove(&rn).unwrap();
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.r_mut().patch(R!(s("s")))));
                self.regs.insert(rn, x);
                tt(if res.is_ok() { "ok" } else { "panic" })
            }
            "eq" => {
                let (a, b) = (R!(rn), R!(s("s")));
                let f = |x: Option<bool>| match x { Some(true) => "t", Some(false) => "f", None => "n" };
                json!({"t": f(reflect_eq(a, b)), "rev": f(reflect_eq(b, a)), "pe": *a == *b})
            }
            "at" => {
                let p = path(&op["p"]);
                let a = opt(R!(rn).at(&p).map(dref));
                let m = opt(M!(rn).at_mut(&p).map(dmut));
                let (mut ga, mut gm) = (Vec::new(), Vec::new());
                for t in strs(&op["tys"]) {
                    let e = reg().get(&t).unwrap();
                    if let Some(n) = (e.get_at.unwrap())(R!(rn), &p) { ga.push(json!([t, n])); }
                    if let Some(n) = (e.get_at_mut.unwrap())(M!(rn), &p) { gm.push(json!([t, n])); }
                }
                json!({"at": a, "mut": m, "ga": ga, "gm": gm})
            }
            "insp" => insp(M!(rn), &strs(&op["names"])),
            "w" => match route(M!(rn), &op["route"]) { None => tt("none"), Some(t) => tt(write(t, &s("how"), &op["d"])) },
            "gf" => {
                let k = keyarg(&op["key"]);
                let on = s("on");
                let (mut g, mut gm) = (Vec::new(), Vec::new());
                for t in strs(&op["tys"]) {
                    let e = reg().get(&t).unwrap();
                    if let Some(n) = (e.gf.unwrap())(R!(rn), &on, &k) { g.push(json!([t, n])); }
                    if let Some(n) = (e.gfm.unwrap())(M!(rn), &on, &k) { gm.push(json!([t, n])); }
                    if on == "value" && t == "u8" { // shared access by way of a mutable reference
                        let a: &mut dyn Any = M!(rn);
                        if let Some(v) = a.downcast_mut::<Value>() {
                            let n = match &k { KeyArg::Str(s) => GetField::get_field::<u8>(v, &**s).map(|x| x.zabs()), KeyArg::Usize(u) => GetField::get_field::<u8>(v, *u).map(|x| x.zabs()), KeyArg::String(s) => GetField::get_field::<u8>(v, s.clone()).map(|x| x.zabs()),
                                KeyArg::U8(u) => GetField::get_field::<u8>(v, *u).map(|x| x.zabs()), KeyArg::I32(u) => GetField::get_field::<u8>(v, *u).map(|x| x.zabs()), KeyArg::Val(w) => GetField::get_field::<u8>(v, w.clone()).map(|x| x.zabs()) };
                            if n != g.iter().find(|x| x[0] == "u8").map(|x| x[1].clone()) { g.push(json!(["by mutable reference", n])); }
                        }
                    }
                }
                json!({"g": g, "gm": gm})
            }
            "push" => {
                let x = obj(&op["d"]).unwrap();
                match M!(rn).as_list_mut() { None => tt("none"), Some(l) => { l.push(x.r()); tt("ok") } }
            }
            "pop" | "rem" => {
                let x = match M!(rn).as_list_mut() { None => return tt("nl"), Some(l) => if o == "pop" { l.pop() } else { l.try_remove(op["i"].as_u64().unwrap() as usize) } };
                match x { None => tt("none"), Some(b) => match own(b) { Some(x) => { self.regs.insert(to, x); tt("some") } None => tt("alien") } }
            }
            "mget" => {
                let k = obj(&op["kd"]).unwrap();
                let (a, m);
                match R!(rn).as_map() { None => return tt("nm"), Some(x) => a = opt(x.get(k.r()).map(dref)) }
                match M!(rn).as_map_mut() { None => return tt("nm"), Some(x) => m = opt(x.get_mut(k.r()).map(dmut)) }
                json!({"t": "ok", "get": a, "mut": m})
            }
            "mins" | "mrem" => {
                let k = obj(&op["kd"]).unwrap();
                let v = if o == "mins" { obj(&op["d"]) } else { None };
                let x = match M!(rn).as_map_mut() { None => return tt("nm"), Some(m) => if o == "mins" { m.insert(k.r(), v.unwrap().r()) } else { m.remove(k.r()) } };
                match x { None => tt("none"), Some(b) => match own(b) { Some(x) => { self.regs.insert(to, x); tt("some") } None => tt("alien") } }
            }
            "visit" => {
                let mut v = Vis { left: op["fail"].as_i64().unwrap(), out: vec![] };
                let x = &self.regs[&rn];
                let d = x.desc();
                let r = try_visit(&mut v, x.r(), d.get_type());
                let mut few = Few(vec![]);
                if let Err(e) = try_visit(&mut few, x.r(), d.get_type()) { few.0.push(json!(["error", e])); }
                json!({"t": if r.is_ok() { "ok" } else { "err" }, "e": r.err().unwrap_or(0), "v": v.out, "few": few.0})
            }
            "cmp" => {
                let (Some(a), Some(b)) = (self.regs[&rn].any().downcast_ref::<Value>(), self.regs[&s("s")].any().downcast_ref::<Value>()) else { return tt("nv") };
                json!({"t": "ok", "c": ord(a.cmp(b)), "rc": ord(b.cmp(a)), "pc": a.partial_cmp(b).map_or(9, ord), "eq": a == b, "lt": a < b, "heq": hash(a) == hash(b), "ac": ord(a.cmp(&a.clone())), "ah": hash(a) == hash(&a.clone())})
            }
            "dcmp" => { // the dynamic values' own orders
                macro_rules! go { ($($t:ty),*) => {$( if let (Some(a), Some(b)) = (self.regs[&rn].any().downcast_ref::<$t>(), self.regs[&s("s")].any().downcast_ref::<$t>()) {
                    return json!({"t": "ok", "c": ord(a.cmp(b)), "eq": a == b, "heq": hash(a) == hash(b)}); } )*} }
                go!(StructValue, EnumValue, TupleValue, TupleStructValue);
                tt("nv")
            }
            "ser" => {
                let Some(v) = self.regs[&rn].any().downcast_ref::<Value>() else { return tt("nv") };
                match ser_val(v, &s("fmt")) { Err(_) => tt("err"), Ok(w) => json!({"t": "ok", "eq": *v == w, "st": w.zabs()}) }
            }
            "sers" => { // owned scalars
                let so = obj(&op["d"]).unwrap().into_r().into_scalar();
                match so { None => tt("none"), Some(v) => match ser_owned(&v, &s("fmt")) { Err(_) => tt("err"), Ok(w) => json!({"t": "ok", "d": dref(w.as_reflect())}) } }
            }
            "serp" => { let p = path(&op["p"]); match ser_path(&p, &s("fmt")) { Err(_) => tt("err"), Ok(q) => json!({"t": "ok", "eq": p == q, "keys": path_j(&q)}) } }
            "serd" => {
                let d = (reg().get(&s("t")).unwrap().desc)();
                match ser_desc(&d, &s("fmt")) {
                    Err(_) => tt("err"),
                    Ok(q) => json!({"t": "ok", "eq": *d == q, "desc": desc(q.get_type(), &strs(&op["mk"])), "has": q.has_default_value(), "def": opt(q.default_value().map(|v| v.zabs()))}),
                }
            }
            "dbg" => {
                let x = &self.regs[&rn];
                let r = x.r();
                let nat = reg().get(&x.tid()).and_then(|e| e.dbg);
                let nat = |alt| nat.map_or("".to_string(), |f| f(x.any(), alt));
                let lines = |x: String| x.split('\n').map(String::from).collect::<Vec<_>>();
                let dk = match r.reflect_ref() {
                    ReflectRef::Struct(x) => format!("{x:?}"), ReflectRef::TupleStruct(x) => format!("{x:?}"), ReflectRef::Tuple(x) => format!("{x:?}"), ReflectRef::Enum(x) => format!("{x:?}"),
                    ReflectRef::Array(x) => format!("{x:?}"), ReflectRef::List(x) => format!("{x:?}"), ReflectRef::Map(x) => format!("{x:?}"), ReflectRef::Scalar(_) | ReflectRef::Opaque(_) => format!("{r:?}"),
                };
                // the structural form of any value, asked for directly and as boxed values print themselves
                struct Structure<'a>(&'a dyn Reflect);
                impl std::fmt::Debug for Structure<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { reflect_debug(self.0, f) } }
                let bx = obj(&obj_d(&**x)).unwrap().boxed();
                json!({"p": format!("{r:?}"), "a": lines(format!("{r:#?}")), "np": nat(false), "na": lines(nat(true)), "kp": dk,
                    "rp": format!("{:?}", Structure(r)), "ra": lines(format!("{:#?}", Structure(r))), "bp": format!("{bx:?}"), "ba": lines(format!("{bx:#?}"))})
            }
            "conv" => conv(&obj_d(&*self.regs[&rn]), op["boxed"].as_bool().unwrap(), &strs(&op["tys"])),
            "desc" => {
                let e = reg().get(&s("t")).unwrap();
                let d = (e.desc)();
                let d2 = (e.desc)();
                #[cfg(feature = "std")]
                let same = matches!((&d, &d2), (Cow::Borrowed(a), Cow::Borrowed(b)) if std::ptr::eq(*a, *b));
                #[cfg(not(feature = "std"))]
                let same = *d == *d2;
                let t = d.get_type();
                let root = [("struct", d.as_struct().is_some()), ("tstruct", d.as_tuple_struct().is_some()), ("tuple", d.as_tuple().is_some()), ("enum", d.as_enum().is_some()), ("list", d.as_list().is_some()),
                    ("array", d.as_array().is_some()), ("map", d.as_map().is_some()), ("scalar", d.as_scalar().is_some()), ("opaque", d.as_opaque().is_some())];
                let mk = strs(&op["mk"]);
                let sub = t.into_type_descriptor();
                json!({"types": desc(t, &mk), "same": same, "root": root.iter().filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>(), "n": d.type_name(), "meta": metas(&*d, &mk), "docs": (&*d).docs(),
                    "sub": desc(sub.get_type(), &mk) == desc(t, &mk)})
            }
            "vdesc" => { // descriptor asked from a value
                let x = &self.regs[&rn];
                let d = x.r().type_descriptor();
                let sd = x.desc();
                json!({"n": d.type_name(), "eq": *d == *sd, "types": desc(d.get_type(), &strs(&op["mk"])), "tn": x.r().type_name()})
            }
            "tat" => {
                let d = (reg().get(&s("t")).unwrap().desc)();
                let p = path(&op["p"]);
                let mk = strs(&op["mk"]);
                let a = tap((&*d).type_at(&p), &mk);
                let mut same = tap(d.get_type().type_at(&p), &mk) == a;
                same &= match d.get_type() {
                    Type::Struct(x) => tap(x.type_at(&p), &mk), Type::TupleStruct(x) => tap(x.type_at(&p), &mk), Type::Tuple(x) => tap(x.type_at(&p), &mk), Type::Enum(x) => tap(x.type_at(&p), &mk),
                    Type::List(x) => tap(x.type_at(&p), &mk), Type::Map(x) => tap(x.type_at(&p), &mk), Type::Scalar(x) => tap(x.type_at(&p), &mk), Type::Array(_) | Type::Opaque(_) => a.clone(),
                } == a;
                // one step at a time
                let mut cur = (&*d).type_at(&KeyPath::default());
                for k in p.iter() { cur = cur.and_then(|c| c.type_at(&KeyPath::from(k.clone()))); }
                same &= tap(cur, &mk) == a;
                // the rest of the path, from every type on the way
                let mut cur = (&*d).type_at(&KeyPath::default());
                for i in 0..p.len() {
                    let rest: KeyPath = p.iter().skip(i).cloned().collect();
                    same &= cur.map_or(tap(None, &mk), |c| match c {
                        TypeAtPath::Struct(x) => tap(x.type_at(&rest), &mk), TypeAtPath::TupleStruct(x) => tap(x.type_at(&rest), &mk), TypeAtPath::Tuple(x) => tap(x.type_at(&rest), &mk),
                        TypeAtPath::Enum(x) => tap(x.type_at(&rest), &mk), TypeAtPath::Variant(x) => tap(x.type_at(&rest), &mk), TypeAtPath::List(x) => tap(x.type_at(&rest), &mk),
                        TypeAtPath::Map(x) => tap(x.type_at(&rest), &mk), TypeAtPath::Scalar(x) => tap(x.type_at(&rest), &mk), TypeAtPath::Array(_) | TypeAtPath::Opaque(_) => tap(c.type_at(&rest), &mk),
                    }) == a;
                    cur = cur.and_then(|c| c.type_at(&KeyPath::from(p.iter().nth(i).unwrap().clone())));
                }
                json!({"a": a, "same": same})
            }
            "dflt" => {
                let e = reg().get(&s("t")).unwrap();
                let d = (e.desc)();
                let v = d.default_value();
                let t = d.get_type();
                let same = t.default_value() == v && t.has_default_value() == d.has_default_value() && match t {
                    Type::Struct(x) => x.default_value() == v && x.has_default_value() == v.is_some(), Type::TupleStruct(x) => x.default_value() == v && x.has_default_value() == v.is_some(),
                    Type::Tuple(x) => x.default_value() == v && x.has_default_value() == v.is_some(), Type::Enum(x) => x.default_value() == v && x.has_default_value() == v.is_some(),
                    Type::List(x) => Some(x.default_value()) == v && x.has_default_value(), Type::Array(x) => x.default_value() == v && x.has_default_value() == v.is_some(),
                    Type::Map(x) => Some(x.default_value()) == v && x.has_default_value(), Type::Scalar(x) => Some(x.default_value()) == v && x.has_default_value(),
                    Type::Opaque(x) => x.default_value() == v && x.has_default_value() == v.is_some(),
                };
                let vars = match t {
                    Type::Enum(x) => x.variants().map(|v| {
                        let (dv, h) = (v.default_value(), v.has_default_value());
                        let same = match v { ti::Variant::Struct(y) => y.default_value() == dv && y.has_default_value() == h, ti::Variant::Tuple(y) => y.default_value() == dv && y.has_default_value() == h,
                            ti::Variant::Unit(y) => Some(y.default_value()) == dv && y.has_default_value() == h };
                        json!({"n": v.name(), "has": h, "def": opt(dv.map(|v| v.zabs())), "same": same})
                    }).collect(),
                    _ => Vec::new(),
                };
                let built = match (&v, e.from_reflect) { (Some(v), Some(f)) => opt(f(v).map(|x| x.node())), _ => json!([]) };
                json!({"has": d.has_default_value(), "def": opt(v.as_ref().map(|v| v.zabs())), "same": same, "vars": vars, "built": built})
            }
            "pp" => {
                let e = reg().get(&s("t")).unwrap();
                let d = (e.desc)();
                let p = format!("{}", d.pretty_print_root());
                let same = format!("{}", d.get_type().pretty_print_root()) == p;
                json!({"p": p.split('\n').collect::<Vec<_>>(), "same": same, "simple": (e.simple)(), "n": d.type_name()})
            }
            "ppl" => {
                let x = crate::local::all().swap_remove(op["i"].as_u64().unwrap() as usize);
                let p = std::panic::catch_unwind(|| format!("{}", x.desc.pretty_print_root()));
                let p = p.map(|p| p.split('\n').map(str::to_string).collect::<Vec<_>>()).unwrap_or_else(|_| vec!["panics".into()]);
                json!({"p": p, "n": x.name})
            }
            "simple" => {
                #[cfg(feature = "std")]
                { json!({"s": opt(ti::SimpleTypeName::new(&s("name")).map(|x| { let mut b = String::new(); use std::fmt::Write; match write!(b, "{x}") { Ok(()) => json!(b), Err(_) => json!("<error>") } }))}) }
                #[cfg(not(feature = "std"))]
                { tt("skip") }
            }
            "kp" => kp(op),
            "kpm" => crate::macros::macro_path(op["i"].as_u64().unwrap() as usize).map_or(tt("none"), |p| json!({"t": "ok", "keys": path_j(&p)})),
            "build" => self.build(op),
            _ => panic!("unknown op {o}"),
        }
    }
    /// sequences of builder calls on dynamic values
    fn build(&mut self, op: &J) -> J {
        let val = |j: &J| Value::conc(j).unwrap();
        let rn = op["r"].as_str().unwrap().to_string();
        let calls = op["calls"].as_array().unwrap();
        let fin = |m: &mut Machine, x: Box<dyn Obj>, p: usize| { m.regs.insert(rn.clone(), x); json!({"t": "ok", "panics": p}) };
        let q = |f: &mut dyn FnMut()| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() as usize;
        let mut panics = 0;
        let cap = op["cap"].as_u64().unwrap_or(0) as usize;
        let name = op["name"].as_str().unwrap_or("V");
        match op["what"].as_str().unwrap() {
            "struct" => {
                let mut x = if cap > 0 { StructValue::with_capacity(cap) } else { StructValue::new() };
                for c in calls {
                    let n = c["n"].as_str().unwrap();
                    match c["c"].as_str().unwrap() { "set" => x.set_field(n, val(&c["v"])), "setS" => x.set_field(n.to_string(), val(&c["v"])), _ => x = x.with_field(n, val(&c["v"])) }
                }
                fin(self, Box::new(x), 0)
            }
            "structit" => {
                let x: StructValue = calls.iter().map(|c| (c["n"].as_str().unwrap().to_string(), val(&c["v"]))).collect();
                fin(self, Box::new(x), 0)
            }
            "tuple" => {
                let mut x = if cap > 0 { TupleValue::with_capacity(cap) } else { TupleValue::new() };
                for c in calls { match c["c"].as_str().unwrap() { "set" => x.push_field(val(&c["v"])), _ => x = x.with_field(val(&c["v"])) } }
                fin(self, Box::new(x), 0)
            }
            "tupleit" => { let x: TupleValue = calls.iter().map(|c| val(&c["v"])).collect(); fin(self, Box::new(x), 0) }
            "tstruct" => {
                let mut x = if cap > 0 { TupleStructValue::with_capacity(cap) } else { TupleStructValue::new() };
                for c in calls { match c["c"].as_str().unwrap() { "set" => x.push_field(val(&c["v"])), _ => x = x.with_field(val(&c["v"])) } }
                fin(self, Box::new(x), 0)
            }
            "tstructit" => { let x: TupleStructValue = calls.iter().map(|c| val(&c["v"])).collect(); fin(self, Box::new(x), 0) }
            k => {
                // enum values: pre-finish calls through the builder, "late" calls on the finished value
                let (early, late): (Vec<&J>, Vec<&J>) = calls.iter().partition(|c| !c["late"].as_bool().unwrap_or(false));
                let mut x = match k {
                    "estruct" => {
                        let mut b = if cap > 0 { EnumValue::new_struct_variant_with_capacity(name, cap) } else { EnumValue::new_struct_variant(name) };
                        for c in early { let n = c["n"].as_str().unwrap(); match c["c"].as_str().unwrap() { "set" => b.set_struct_field(n, val(&c["v"])), _ => b = b.with_struct_field(n, val(&c["v"])) } }
                        b.finish()
                    }
                    "etuple" => {
                        let mut b = if cap > 0 { EnumValue::new_tuple_variant_with_capacity(name, cap) } else { EnumValue::new_tuple_variant(name) };
                        for c in early { match c["c"].as_str().unwrap() { "set" => b.push_tuple_field(val(&c["v"])), _ => b = b.with_tuple_field(val(&c["v"])) } }
                        b.finish()
                    }
                    _ => EnumValue::new_unit_variant(name),
                };
                for c in late {
                    let n = c["n"].as_str().unwrap_or("").to_string();
                    match c["c"].as_str().unwrap() {
                        "set" => panics += q(&mut || x.set_struct_field(&*n, val(&c["v"]))),
                        "push" => panics += q(&mut || x.push_tuple_field(val(&c["v"]))),
                        "with" => { let mut y = None; let p = q(&mut || y = Some(x.clone().with_struct_field(&*n, val(&c["v"])))); panics += p; if let Some(y) = y { x = y; } }
                        _ => { let mut y = None; let p = q(&mut || y = Some(x.clone().with_tuple_field(val(&c["v"])))); panics += p; if let Some(y) = y { x = y; } }
                    }
                }
                fin(self, Box::new(x), panics)
            }
        }
    }
}
fn kp(op: &J) -> J {
    let mut p = KeyPath::default();
    for c in op["calls"].as_array().unwrap() {
        let n = || c["n"].as_str().unwrap();
        let u = || c["u"].as_u64().unwrap() as usize;
        let v = || Value::conc(&c["v"]).unwrap();
        let ks = || c["keys"].as_array().unwrap().iter().map(key).collect::<Vec<Key>>();
        match c["c"].as_str().unwrap() {
            "field" => p = p.field(n()), "fieldS" => p = p.field(n().to_string()), "fieldR" => p = p.field(&n().to_string()), "fieldu" => p = p.field(u()),
            "pfield" => p.push_field(n()), "pfieldu" => p.push_field(u()),
            "get" => p = p.get(v()), "pget" => p.push_get(v()),
            "variant" => p = p.variant(n()), "pvariant" => p.push_variant(n()),
            "push" => p.push(key(&c["key"])), "pop" => p.pop(),
            "extend" => p.extend(ks()), "collect" => p = ks().into_iter().collect(), "from" => p = KeyPath::from(key(&c["key"])),
            "fn_field" => p = mirror_mirror::key_path::field(n()), "fn_fieldu" => p = mirror_mirror::key_path::field(u()), "fn_get" => p = mirror_mirror::key_path::get(v()), "fn_variant" => p = mirror_mirror::key_path::variant(n()),
            "k_named" => p.push(Key::named_field(n())), "k_num" => p.push(Key::numbered_field(u())), "k_get" => p.push(Key::get(v())), "k_variant" => p.push(Key::variant(n())),
            "clone" => p = p.clone(),
            "rt" => p = p.into_iter().collect(),
            x => panic!("unknown kp call {x}"),
        }
    }
    let keys: Vec<Key> = p.iter().cloned().collect();
    let mut both = Vec::new(); // alternate front / back
    let mut it = p.iter();
    let mut lens_ = vec![it.len()];
    while let Some(k) = if both.len() % 2 == 0 { it.next() } else { it.next_back() } { both.push(key_j(k)); lens_.push(it.len()); }
    let mut it2 = p.clone().into_iter();
    let mut lens2 = vec![it2.len()];
    let mut both2 = Vec::new();
    while let Some(k) = if both2.len() % 2 == 1 { it2.next() } else { it2.next_back() } { both2.push(key_j(&k)); lens2.push(it2.len()); }
    let fresh: KeyPath = keys.iter().cloned().collect();
    let other = op["other"].as_array().map(|_| path(&op["other"]));
    json!({"keys": path_j(&p), "len": p.len(), "empty": p.is_empty(), "rev": p.iter().rev().map(key_j).collect::<Vec<_>>(), "intorev": p.clone().into_iter().rev().map(|k| key_j(&k)).collect::<Vec<_>>(),
        "refit": (&p).into_iter().map(key_j).collect::<Vec<_>>(), "both": both, "both2": both2, "lens": lens_, "lens2": lens2, "hint": lens(p.iter()), "hint2": lens(p.clone().into_iter()),
        "adapt": adapt2(|| p.iter(), key_j), "adapt2": adapt2(|| p.clone().into_iter(), |k| key_j(&k)), "adapt3": adapt(|| p.breadcrumbs(), |b| J::Array(b.iter().map(key_j).collect())),
        "disp": p.to_string(), "kdisp": keys.iter().map(|k| k.to_string()).collect::<Vec<_>>(),
        "crumbs": p.breadcrumbs().take(1000).map(|b| J::Array(b.iter().map(key_j).collect())).collect::<Vec<_>>(),
        "fresh": p == fresh && hash(&p) == hash(&fresh), "other": other.map_or(false, |o| o == p)})
}

/// A type whose first variant contains the type itself (a recorded finding): asks for its default.
#[derive(Debug, Clone, Reflect)]
#[allow(dead_code)]
enum EInf { A(Box<EInf>), B }
pub fn einf() {
    std::thread::Builder::new().stack_size(1 << 20).spawn(|| {
        let d = <EInf as DescribeType>::type_descriptor();
        let (has, def) = (d.get_type().has_default_value(), d.get_type().default_value());
        assert_eq!(has, def.is_some());
    }).unwrap().join().unwrap();
}
