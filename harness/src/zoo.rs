//! Native (non-reflective) abstraction of every type in the zoo: `abs` maps a Rust value to the
//! node the TLA+ specification talks about, `conc` builds the Rust value of a node. Neither uses
//! the library under test, except where a dynamic value cannot be taken apart in any other way.
use mirror_mirror::enum_::{Enum, EnumValue, VariantField, VariantKind};
use mirror_mirror::struct_::{Struct, StructValue};
use mirror_mirror::tuple::{Tuple, TupleValue};
use mirror_mirror::tuple_struct::{TupleStruct, TupleStructValue};
use mirror_mirror::type_info::graph::{NodeId, OpaqueNode, TypeGraph};
use mirror_mirror::{DescribeType, FromReflect, Reflect, ReflectMut, ReflectOwned, ReflectRef, TypeDescriptor, Value};
use serde_json::json;
pub use serde_json::Value as J;
use std::any::{Any, TypeId};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::convert::Infallible;
use std::fmt;
use std::num::*;
use std::ops::{Range, RangeFrom, RangeFull, RangeTo, RangeToInclusive};
use std::time::Duration;
#[cfg(feature = "glam")]
use glam::{Mat3, Vec2, Vec3};
#[cfg(feature = "macaw")]
use macaw::ColorRgba8;

pub trait Zoo: Sized + 'static {
    fn tid() -> String;
    fn aid() -> String { Self::tid() }
    fn zabs(&self) -> J;
    fn conc(j: &J) -> Option<Self>;
}

pub fn arr<'a>(j: &'a J, f: &str, n: usize) -> Option<&'a Vec<J>> {
    let a = j[f].as_array()?;
    (a.len() == n).then_some(a)
}
pub fn s_node(t: &str, v: String, o: Vec<u64>, i: i64) -> J {
    json!({"k": "s", "t": t, "v": v, "o": o, "i": i})
}
fn chunks(x: u128, w: u32) -> Vec<u64> {
    let n = std::cmp::max(1, w / 16);
    (0..n).map(|i| ((x >> (16 * (n - 1 - i))) & 0xffff) as u64).collect()
}
fn is_s(j: &J, t: &str) -> Option<()> {
    (j["k"] == "s" && j["t"] == t).then_some(())
}
macro_rules! zoo_uint { ($($t:ident $w:expr),*) => {$(
    impl Zoo for $t {
        fn tid() -> String { stringify!($t).into() }
        fn zabs(&self) -> J {
            let x = *self as u128;
            let i = if x < (1u128 << 64) { std::cmp::min(x, 1 << 30) as i64 } else { -1 };
            s_node(stringify!($t), self.to_string(), chunks(x, $w), i)
        }
        fn conc(j: &J) -> Option<Self> { is_s(j, stringify!($t))?; j["v"].as_str()?.parse().ok() }
    }
)*}}
macro_rules! zoo_int { ($($t:ident $w:expr),*) => {$(
    impl Zoo for $t {
        fn tid() -> String { stringify!($t).into() }
        fn zabs(&self) -> J {
            let x = *self as i128;
            let i = if x >= 0 && x < (1i128 << 64) { std::cmp::min(x, 1 << 30) as i64 } else { -1 };
            let off = (x as u128).wrapping_add(1u128 << ($w - 1));
            let off = if $w == 128 { off } else { off & ((1u128 << ($w % 128)) - 1) };
            s_node(stringify!($t), self.to_string(), chunks(off, $w), i)
        }
        fn conc(j: &J) -> Option<Self> { is_s(j, stringify!($t))?; j["v"].as_str()?.parse().ok() }
    }
)*}}
zoo_uint!(usize 64, u8 8, u16 16, u32 32, u64 64, u128 128);
zoo_int!(i8 8, i16 16, i32 32, i64 64, i128 128);
impl Zoo for bool {
    fn tid() -> String { "bool".into() }
    fn zabs(&self) -> J { s_node("bool", self.to_string(), vec![*self as u64], -1) }
    fn conc(j: &J) -> Option<Self> { is_s(j, "bool")?; j["v"].as_str()?.parse().ok() }
}
impl Zoo for char {
    fn tid() -> String { "char".into() }
    fn zabs(&self) -> J { s_node("char", format!("{self:?}"), vec![*self as u64], -1) }
    fn conc(j: &J) -> Option<Self> { is_s(j, "char")?; char::from_u32(j["o"][0].as_u64()? as u32) }
}
impl Zoo for String {
    fn tid() -> String { "String".into() }
    fn zabs(&self) -> J { s_node("String", format!("{self:?}"), self.bytes().map(|b| b as u64).collect(), -1) }
    fn conc(j: &J) -> Option<Self> {
        is_s(j, "String")?;
        String::from_utf8(j["o"].as_array()?.iter().map(|b| b.as_u64().unwrap() as u8).collect()).ok()
    }
}
macro_rules! zoo_float { ($($t:ident $w:expr, $u:ident),*) => {$(
    impl Zoo for $t {
        fn tid() -> String { stringify!($t).into() }
        fn zabs(&self) -> J {
            let o = if self.is_nan() { vec![65536; $w / 16] } else {
                let b = if *self == 0.0 { 0 } else { self.to_bits() };
                let b = if b >> ($w - 1) == 1 { !b } else { b | (1 << ($w - 1)) };
                chunks(b as u128, $w)
            };
            s_node(stringify!($t), format!("{self:?}"), o, -1)
        }
        fn conc(j: &J) -> Option<Self> { is_s(j, stringify!($t))?; j["v"].as_str()?.parse().ok() }
    }
)*}}
zoo_float!(f32 32, u32, f64 64, u64);
macro_rules! zoo_nz { ($($t:ident $s:ident),*) => {$(
    impl Zoo for $t {
        fn tid() -> String { stringify!($t).into() }
        fn zabs(&self) -> J { json!({"k": "via", "v": self.to_string(), "s": self.get().zabs(), "o": []}) }
        fn conc(j: &J) -> Option<Self> { $t::new(<$s as Zoo>::conc(&j["s"])?) }
    }
)*}}
zoo_nz!(NonZeroUsize usize, NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128,
    NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128);
impl Zoo for Duration {
    fn tid() -> String { "Duration".into() }
    fn zabs(&self) -> J {
        let mut o = chunks(self.as_secs() as u128, 64);
        o.extend(chunks(self.subsec_nanos() as u128, 32));
        json!({"k": "via", "v": format!("{self:?}"), "s": self.as_secs_f32().zabs(), "o": o})
    }
    fn conc(j: &J) -> Option<Self> {
        let o = arr(j, "o", 6)?;
        let g = |i: usize| o[i].as_u64().unwrap();
        Some(Duration::new(g(0) << 48 | g(1) << 32 | g(2) << 16 | g(3), (g(4) << 16 | g(5)) as u32))
    }
}
impl<T: Zoo> Zoo for Vec<T> {
    fn tid() -> String { format!("Vec<{}>", T::aid()) }
    fn zabs(&self) -> J { json!({"k": "list", "f": <[T]>::iter(self).map(|x| x.zabs()).collect::<Vec<_>>()}) }
    fn conc(j: &J) -> Option<Self> { j["f"].as_array()?.iter().map(T::conc).collect() }
}
impl<T: Zoo, const N: usize> Zoo for [T; N] {
    fn tid() -> String { format!("[{}; {}]", T::aid(), N) }
    fn zabs(&self) -> J { json!({"k": "array", "f": <[T]>::iter(self).map(|x| x.zabs()).collect::<Vec<_>>()}) }
    fn conc(j: &J) -> Option<Self> { j["f"].as_array()?.iter().map(T::conc).collect::<Option<Vec<T>>>()?.try_into().ok() }
}
impl<K: Zoo + Ord, V: Zoo> Zoo for BTreeMap<K, V> {
    fn tid() -> String { format!("BTreeMap<{}, {}>", K::aid(), V::aid()) }
    fn zabs(&self) -> J { json!({"k": "map", "m": BTreeMap::iter(self).map(|(k, v)| json!([k.zabs(), v.zabs()])).collect::<Vec<_>>()}) }
    fn conc(j: &J) -> Option<Self> { j["m"].as_array()?.iter().map(|e| Some((K::conc(&e[0])?, V::conc(&e[1])?))).collect() }
}
impl<T: Zoo> Zoo for Box<T> {
    fn tid() -> String { T::tid() }
    fn aid() -> String { format!("Box<{}>", T::aid()) }
    fn zabs(&self) -> J { (**self).zabs() }
    fn conc(j: &J) -> Option<Self> { Some(Box::new(T::conc(j)?)) }
}
fn en(var: &str, f: Vec<J>) -> J { json!({"k": "enum", "var": var, "f": f}) }
impl<T: Zoo> Zoo for Option<T> {
    fn tid() -> String { format!("Option<{}>", T::aid()) }
    fn zabs(&self) -> J { match self { None => en("None", vec![]), Some(x) => en("Some", vec![x.zabs()]) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "None" => Some(None), _ => Some(Some(T::conc(&j["f"][0])?)) } }
}
impl<T: Zoo, E: Zoo> Zoo for Result<T, E> {
    fn tid() -> String { format!("Result<{}, {}>", T::aid(), E::aid()) }
    fn zabs(&self) -> J { match self { Ok(x) => en("Ok", vec![x.zabs()]), Err(x) => en("Err", vec![x.zabs()]) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "Ok" => Some(Ok(T::conc(&j["f"][0])?)), _ => Some(Err(E::conc(&j["f"][0])?)) } }
}
impl Zoo for Infallible {
    fn tid() -> String { "Infallible".into() }
    fn zabs(&self) -> J { match *self {} }
    fn conc(_: &J) -> Option<Self> { None }
}
fn stn(f: Vec<J>) -> J { json!({"k": "struct", "f": f}) }
impl<T: Zoo> Zoo for Range<T> {
    fn tid() -> String { format!("Range<{}>", T::aid()) }
    fn zabs(&self) -> J { stn(vec![self.start.zabs(), self.end.zabs()]) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; Some(T::conc(&f[0])?..T::conc(&f[1])?) }
}
impl<T: Zoo> Zoo for RangeFrom<T> {
    fn tid() -> String { format!("RangeFrom<{}>", T::aid()) }
    fn zabs(&self) -> J { stn(vec![self.start.zabs()]) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 1)?; Some(T::conc(&f[0])?..) }
}
impl<T: Zoo> Zoo for RangeTo<T> {
    fn tid() -> String { format!("RangeTo<{}>", T::aid()) }
    fn zabs(&self) -> J { stn(vec![self.end.zabs()]) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 1)?; Some(..T::conc(&f[0])?) }
}
impl<T: Zoo> Zoo for RangeToInclusive<T> {
    fn tid() -> String { format!("RangeToInclusive<{}>", T::aid()) }
    fn zabs(&self) -> J { stn(vec![self.end.zabs()]) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 1)?; Some(..=T::conc(&f[0])?) }
}
impl Zoo for RangeFull {
    fn tid() -> String { "RangeFull".into() }
    fn zabs(&self) -> J { stn(vec![]) }
    fn conc(j: &J) -> Option<Self> { arr(j, "f", 0)?; Some(..) }
}
macro_rules! zoo_tuple { ($($t:ident $i:tt),*) => {
    impl<$($t: Zoo),*> Zoo for ($($t,)*) {
        #[allow(unused_mut)]
        fn tid() -> String {
            let v: Vec<String> = vec![$($t::aid()),*];
            if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
        }
        fn zabs(&self) -> J { json!({"k": "tuple", "f": Vec::<J>::from([$(self.$i.zabs()),*])}) }
        #[allow(unused_variables)]
        fn conc(j: &J) -> Option<Self> { let f = j["f"].as_array()?; Some(($($t::conc(&f[$i])?,)*)) }
    }
}}
zoo_tuple!(); zoo_tuple!(A 0); zoo_tuple!(A 0, B 1); zoo_tuple!(A 0, B 1, C 2); zoo_tuple!(A 0, B 1, C 2, D 3);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4); zoo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5); zoo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7); zoo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9); zoo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10, M 11);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10, M 11, N 12);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10, M 11, N 12, O 13);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10, M 11, N 12, O 13, P 14);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10, M 11, N 12, O 13, P 14, Q 15);
#[cfg(feature = "glam")]
impl Zoo for Vec2 {
    fn tid() -> String { "Vec2".into() }
    fn zabs(&self) -> J { stn(vec![self.x.zabs(), self.y.zabs()]) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; Some(Vec2 { x: Zoo::conc(&f[0])?, y: Zoo::conc(&f[1])? }) }
}
#[cfg(feature = "glam")]
impl Zoo for Vec3 {
    fn tid() -> String { "Vec3".into() }
    fn zabs(&self) -> J { stn(vec![Zoo::zabs(&self.x), Zoo::zabs(&self.y), Zoo::zabs(&self.z)]) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; Some(Vec3 { x: Zoo::conc(&f[0])?, y: Zoo::conc(&f[1])?, z: Zoo::conc(&f[2])? }) }
}
#[cfg(feature = "glam")]
impl Zoo for Mat3 {
    fn tid() -> String { "Mat3".into() }
    fn zabs(&self) -> J { stn(vec![Zoo::zabs(&self.x_axis), Zoo::zabs(&self.y_axis), Zoo::zabs(&self.z_axis)]) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; Some(Mat3 { x_axis: Zoo::conc(&f[0])?, y_axis: Zoo::conc(&f[1])?, z_axis: Zoo::conc(&f[2])? }) }
}
#[cfg(feature = "macaw")]
impl Zoo for ColorRgba8 {
    fn tid() -> String { "ColorRgba8".into() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": [self.0.zabs()]}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 1)?; Some(ColorRgba8(Zoo::conc(&f[0])?)) }
}

// ------------------------------------------------------------------ dynamic values
impl Zoo for Value {
    fn tid() -> String { "Value".into() }
    fn zabs(&self) -> J {
        match self {
            Value::usize(x) => x.zabs(), Value::u8(x) => x.zabs(), Value::u16(x) => x.zabs(), Value::u32(x) => x.zabs(),
            Value::u64(x) => x.zabs(), Value::u128(x) => x.zabs(), Value::i8(x) => x.zabs(), Value::i16(x) => x.zabs(),
            Value::i32(x) => x.zabs(), Value::i64(x) => x.zabs(), Value::i128(x) => x.zabs(), Value::bool(x) => x.zabs(),
            Value::char(x) => x.zabs(), Value::f32(x) => x.zabs(), Value::f64(x) => x.zabs(), Value::String(x) => x.zabs(),
            Value::StructValue(x) => x.zabs(), Value::EnumValue(x) => x.zabs(), Value::TupleStructValue(x) => x.zabs(),
            Value::TupleValue(x) => x.zabs(), Value::List(x) => x.zabs(), Value::Map(x) => x.zabs(),
        }
    }
    fn conc(j: &J) -> Option<Self> {
        Some(match j["k"].as_str()? {
            "s" => match j["t"].as_str()? {
                "usize" => Value::usize(Zoo::conc(j)?), "u8" => Value::u8(Zoo::conc(j)?), "u16" => Value::u16(Zoo::conc(j)?),
                "u32" => Value::u32(Zoo::conc(j)?), "u64" => Value::u64(Zoo::conc(j)?), "u128" => Value::u128(Zoo::conc(j)?),
                "i8" => Value::i8(Zoo::conc(j)?), "i16" => Value::i16(Zoo::conc(j)?), "i32" => Value::i32(Zoo::conc(j)?),
                "i64" => Value::i64(Zoo::conc(j)?), "i128" => Value::i128(Zoo::conc(j)?), "bool" => Value::bool(Zoo::conc(j)?),
                "char" => Value::char(Zoo::conc(j)?), "f32" => Value::f32(Zoo::conc(j)?), "f64" => Value::f64(Zoo::conc(j)?),
                "String" => Value::String(Zoo::conc(j)?),
                _ => return None,
            },
            "struct" => StructValue::conc(j)?.into(),
            "enum" => EnumValue::conc(j)?.into(),
            "tuple" => TupleValue::conc(j)?.into(),
            "tstruct" => TupleStructValue::conc(j)?.into(),
            "list" => Value::List(Zoo::conc(j)?),
            "map" => Value::Map(Zoo::conc(j)?),
            _ => return None,
        })
    }
}
/// the node of a field of a dynamic value (always a `Value`)
fn dynf(r: &dyn Reflect) -> J {
    let a: &dyn Any = r;
    match a.downcast_ref::<Value>() {
        Some(v) => v.zabs(),
        None => crate::exec::ref_node(r),
    }
}
impl Zoo for StructValue {
    fn tid() -> String { "StructValue".into() }
    fn zabs(&self) -> J {
        let mut n = Vec::new();
        let mut f = Vec::new();
        for i in 0.. {
            let Some(name) = Struct::name_at(self, i) else { break };
            n.push(name.to_string());
            f.push(Struct::field(self, name).map_or(json!({"k": "?"}), dynf));
        }
        json!({"k": "struct", "n": n, "f": f})
    }
    fn conc(j: &J) -> Option<Self> {
        let mut s = StructValue::new();
        for (n, f) in j["n"].as_array()?.iter().zip(j["f"].as_array()?) { s.set_field(n.as_str()?, Value::conc(f)?); }
        Some(s)
    }
}
impl Zoo for TupleValue {
    fn tid() -> String { "TupleValue".into() }
    fn zabs(&self) -> J { json!({"k": "tuple", "f": (0..).map_while(|i| Tuple::field_at(self, i)).map(dynf).collect::<Vec<_>>()}) }
    fn conc(j: &J) -> Option<Self> {
        let mut s = TupleValue::new();
        for f in j["f"].as_array()? { s.push_field(Value::conc(f)?); }
        Some(s)
    }
}
impl Zoo for TupleStructValue {
    fn tid() -> String { "TupleStructValue".into() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": (0..).map_while(|i| TupleStruct::field_at(self, i)).map(dynf).collect::<Vec<_>>()}) }
    fn conc(j: &J) -> Option<Self> {
        let mut s = TupleStructValue::new();
        for f in j["f"].as_array()? { s.push_field(Value::conc(f)?); }
        Some(s)
    }
}
impl Zoo for EnumValue {
    fn tid() -> String { "EnumValue".into() }
    fn zabs(&self) -> J {
        let vk = match self.variant_kind() { VariantKind::Struct => "struct", VariantKind::Tuple => "tuple", VariantKind::Unit => "unit" };
        let mut n = Vec::new();
        let mut f = Vec::new();
        for x in Enum::fields(self) {
            match x {
                VariantField::Struct(name, v) => { n.push(name.to_string()); f.push(dynf(v)) }
                VariantField::Tuple(v) => f.push(dynf(v)),
            }
        }
        json!({"k": "enum", "var": self.variant_name(), "vk": vk, "n": n, "f": f})
    }
    fn conc(j: &J) -> Option<Self> {
        let f = j["f"].as_array()?;
        let var = j["var"].as_str()?;
        Some(match j["vk"].as_str()? {
            "struct" => {
                let mut b = EnumValue::new_struct_variant(var);
                for (n, f) in j["n"].as_array()?.iter().zip(f) { b.set_struct_field(n.as_str()?, Value::conc(f)?); }
                b.finish()
            }
            "tuple" => {
                let mut b = EnumValue::new_tuple_variant(var);
                for f in f { b.push_tuple_field(Value::conc(f)?); }
                b.finish()
            }
            _ => EnumValue::new_unit_variant(var),
        })
    }
}

// ------------------------------------------------------------------ helper types
/// never reflected, only in skipped places
#[derive(Debug, Clone)]
pub struct NoRefl(pub u32);
impl Default for NoRefl { fn default() -> Self { NoRefl(7) } }
impl Zoo for NoRefl {
    fn tid() -> String { "NoRefl".into() }
    fn zabs(&self) -> J { json!({"k": "x", "v": self.0.to_string()}) }
    fn conc(j: &J) -> Option<Self> { Some(NoRefl(j["v"].as_str()?.parse().ok()?)) }
}
#[derive(Debug, Clone, Default)]
pub struct NoRefl2(pub u32);
impl Zoo for NoRefl2 {
    fn tid() -> String { "NoRefl2".into() }
    fn zabs(&self) -> J { json!({"k": "x", "v": self.0.to_string()}) }
    fn conc(j: &J) -> Option<Self> { Some(NoRefl2(j["v"].as_str()?.parse().ok()?)) }
}
/// a hand-written opaque reflected type; its erased form is a `u8`
#[derive(Debug, Clone)]
pub struct Opq(pub u8);
impl Zoo for Opq {
    fn tid() -> String { "Opq".into() }
    fn zabs(&self) -> J { json!({"k": "opq", "v": format!("{self:?}"), "s": self.0.zabs()}) }
    fn conc(j: &J) -> Option<Self> { Some(Opq(Zoo::conc(&j["s"])?)) }
}
impl DescribeType for Opq {
    fn build(graph: &mut TypeGraph) -> NodeId {
        graph.get_or_build_node_with::<Self, _>(|graph| {
            OpaqueNode::new::<Self>(BTreeMap::from([("why", Value::from("opaque"))]), graph).default_value(9_u8)
        })
    }
}
impl Reflect for Opq {
    fn type_descriptor(&self) -> Cow<'static, TypeDescriptor> { <Self as DescribeType>::type_descriptor() }
    fn as_any(&self) -> &dyn Any { self }
    fn as_any_mut(&mut self) -> &mut dyn Any { self }
    fn as_reflect(&self) -> &dyn Reflect { self }
    fn as_reflect_mut(&mut self) -> &mut dyn Reflect { self }
    fn reflect_owned(self: Box<Self>) -> ReflectOwned { ReflectOwned::Opaque(self) }
    fn reflect_ref(&self) -> ReflectRef<'_> { ReflectRef::Opaque(self) }
    fn reflect_mut(&mut self) -> ReflectMut<'_> { ReflectMut::Opaque(self) }
    fn patch(&mut self, value: &dyn Reflect) { if let Some(v) = Self::from_reflect(value) { *self = v; } }
    fn to_value(&self) -> Value { Value::u8(self.0) }
    fn clone_reflect(&self) -> Box<dyn Reflect> { Box::new(self.clone()) }
    fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
impl FromReflect for Opq {
    fn from_reflect(r: &dyn Reflect) -> Option<Self> {
        if let Some(x) = r.downcast_ref::<Opq>() { return Some(x.clone()); }
        r.downcast_ref::<u8>().map(|x| Opq(*x))
    }
}
impl From<Opq> for Value { fn from(o: Opq) -> Value { Value::u8(o.0) } }
pub fn frw_or7(r: &dyn Reflect) -> Option<u8> { Some(u8::from_reflect(r).unwrap_or(7)) }
pub fn frw_tag(r: &dyn Reflect) -> Option<String> { String::from_reflect(r).map(|_| "tag".to_string()) }

// ------------------------------------------------------------------ registry entries
pub trait Obj: 'static {
    fn tid(&self) -> String;
    fn node(&self) -> J;
    fn r(&self) -> &dyn Reflect;
    fn r_mut(&mut self) -> &mut dyn Reflect;
    fn into_r(self: Box<Self>) -> Box<dyn Reflect>;
    fn boxed(self: Box<Self>) -> Box<dyn Reflect>;
    fn desc(&self) -> Cow<'static, TypeDescriptor>;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
}
impl<T: Zoo + FromReflect + DescribeType> Obj for T {
    fn tid(&self) -> String { T::tid() }
    fn node(&self) -> J { self.zabs() }
    fn r(&self) -> &dyn Reflect { self }
    fn r_mut(&mut self) -> &mut dyn Reflect { self }
    fn into_r(self: Box<Self>) -> Box<dyn Reflect> { self }
    fn boxed(self: Box<Self>) -> Box<dyn Reflect> { Box::new(self) }
    fn desc(&self) -> Cow<'static, TypeDescriptor> { <T as DescribeType>::type_descriptor() }
    fn any(&self) -> &dyn Any { self }
    fn any_mut(&mut self) -> &mut dyn Any { self }
}
use crate::exec::KeyArg;
use mirror_mirror::key_path::{GetPath, KeyPath};
pub struct Entry {
    pub tid: String,
    pub id: TypeId,
    pub box_id: TypeId,
    pub box2_id: TypeId,
    pub name: &'static str,
    pub conc: Option<fn(&J) -> Option<Box<dyn Obj>>>,
    pub from_reflect: Option<fn(&dyn Reflect) -> Option<Box<dyn Obj>>>,
    pub from_any: fn(Box<dyn Any>) -> Option<Box<dyn Obj>>,
    pub node_of: fn(&dyn Any) -> Option<J>,
    pub dc: Option<fn(&dyn Reflect) -> Option<J>>,
    pub dc_mut: Option<fn(&mut dyn Reflect) -> Option<J>>,
    pub dc_set: Option<fn(&mut dyn Reflect, &J) -> bool>,
    pub get_at: Option<fn(&dyn Reflect, &KeyPath) -> Option<J>>,
    pub get_at_mut: Option<fn(&mut dyn Reflect, &KeyPath) -> Option<J>>,
    pub gf: Option<fn(&dyn Reflect, &str, &KeyArg) -> Option<J>>,
    pub gfm: Option<fn(&mut dyn Reflect, &str, &KeyArg) -> Option<J>>,
    pub desc: fn() -> Cow<'static, TypeDescriptor>,
    pub simple: fn() -> String,
    pub dbg: Option<fn(&dyn Any, bool) -> String>,
    pub from: Option<fn(&J) -> Option<Value>>,
}
#[cfg(feature = "std")]
fn simple<T: 'static>() -> String { mirror_mirror::type_info::SimpleTypeName::new_from_type::<T>().to_string() }
#[cfg(not(feature = "std"))]
fn simple<T: 'static>() -> String { String::new() }
pub fn entry<T: Zoo + FromReflect + DescribeType>() -> Entry {
    Entry {
        tid: T::tid(),
        id: TypeId::of::<T>(),
        box_id: TypeId::of::<Box<T>>(),
        box2_id: TypeId::of::<Box<Box<T>>>(),
        name: std::any::type_name::<T>(),
        conc: Some(|j| Some(Box::new(T::conc(j)?))),
        from_reflect: Some(|r| Some(Box::new(T::from_reflect(r)?))),
        from_any: |a| match a.downcast::<T>() {
            Ok(x) => Some(x),
            Err(a) => match a.downcast::<Box<T>>() {
                Ok(x) => Some(*x),
                Err(a) => Some(**a.downcast::<Box<Box<T>>>().ok()?),
            },
        },
        node_of: |a| match a.downcast_ref::<T>() {
            Some(x) => Some(x.zabs()),
            None => match a.downcast_ref::<Box<T>>() {
                Some(x) => Some(x.zabs()),
                None => Some(a.downcast_ref::<Box<Box<T>>>()?.zabs()),
            },
        },
        dc: Some(|r| r.downcast_ref::<T>().map(|x| x.zabs())),
        dc_mut: Some(|r| r.downcast_mut::<T>().map(|x| x.zabs())),
        dc_set: Some(|r, j| {
            let Some(v) = T::conc(j) else { return false };
            match r.downcast_mut::<T>() { Some(x) => { *x = v; true } None => false }
        }),
        get_at: Some(|r, p| r.get_at::<T>(p).map(|x| x.zabs())),
        get_at_mut: Some(|r, p| r.get_at_mut::<T>(p).map(|x| x.zabs())),
        gf: Some(|r, on, k| crate::exec::gf::<T>(r, on, k).map(|x| x.zabs())),
        gfm: Some(|r, on, k| crate::exec::gfm::<T>(r, on, k).map(|x| x.zabs())),
        desc: <T as DescribeType>::type_descriptor,
        simple: simple::<T>,
        dbg: None,
        from: None,
    }
}
impl Entry {
    pub fn dbg<T: fmt::Debug + 'static>(mut self) -> Self {
        self.dbg = Some(|a, alt| { let x = a.downcast_ref::<T>().unwrap(); if alt { format!("{x:#?}") } else { format!("{x:?}") } });
        self
    }
    pub fn from<T: Zoo + Into<Value>>(mut self) -> Self {
        self.from = Some(|j| Some(T::conc(j)?.into()));
        self
    }
}
pub fn entry_desc<T: DescribeType>(tid: &str) -> Entry {
    Entry {
        tid: tid.into(), id: TypeId::of::<T>(), box_id: TypeId::of::<Box<T>>(), box2_id: TypeId::of::<Box<Box<T>>>(), name: std::any::type_name::<T>(),
        conc: None, from_reflect: None, from_any: |_| None, node_of: |_| None, dc: None, dc_mut: None, dc_set: None,
        get_at: None, get_at_mut: None, gf: None, gfm: None, desc: <T as DescribeType>::type_descriptor, simple: simple::<T>, dbg: None, from: None,
    }
}
include!("zoo_gen.rs");
include!(env!("MM_EXTRA"));
