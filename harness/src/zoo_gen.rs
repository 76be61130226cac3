// generated by gen/zoo.py
#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct Unit0;
impl Zoo for Unit0 {
    fn tid() -> String { "Unit0".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 0)?; let _ = &f; Some(Self) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct Empty {  }
impl Zoo for Empty {
    fn tid() -> String { "Empty".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 0)?; let _ = &f; Some(Self {  }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SOne { pub a: u8 }
impl Zoo for SOne {
    fn tid() -> String { "SOne".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 1)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct STwo { pub a: i32, pub b: String }
impl Zoo for STwo {
    fn tid() -> String { "STwo".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.b.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, b: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct STwoR { pub b: String, pub a: i32 }
impl Zoo for STwoR {
    fn tid() -> String { "STwoR".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.b.zabs(), self.a.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { b: Zoo::conc(&f[0])?, a: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SAlt { pub a: i64, pub b: String, pub c: bool }
impl Zoo for SAlt {
    fn tid() -> String { "SAlt".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.b.zabs(), self.c.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, b: Zoo::conc(&f[1])?, c: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SAll { pub f0: usize, pub f1: u8, pub f2: u16, pub f3: u32, pub f4: u64, pub f5: u128, pub f6: i8, pub f7: i16, pub f8: i32, pub f9: i64, pub f10: i128, pub f11: bool, pub f12: char, pub f13: f32, pub f14: f64, pub f15: String }
impl Zoo for SAll {
    fn tid() -> String { "SAll".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.f0.zabs(), self.f1.zabs(), self.f2.zabs(), self.f3.zabs(), self.f4.zabs(), self.f5.zabs(), self.f6.zabs(), self.f7.zabs(), self.f8.zabs(), self.f9.zabs(), self.f10.zabs(), self.f11.zabs(), self.f12.zabs(), self.f13.zabs(), self.f14.zabs(), self.f15.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 16)?; let _ = &f; Some(Self { f0: Zoo::conc(&f[0])?, f1: Zoo::conc(&f[1])?, f2: Zoo::conc(&f[2])?, f3: Zoo::conc(&f[3])?, f4: Zoo::conc(&f[4])?, f5: Zoo::conc(&f[5])?, f6: Zoo::conc(&f[6])?, f7: Zoo::conc(&f[7])?, f8: Zoo::conc(&f[8])?, f9: Zoo::conc(&f[9])?, f10: Zoo::conc(&f[10])?, f11: Zoo::conc(&f[11])?, f12: Zoo::conc(&f[12])?, f13: Zoo::conc(&f[13])?, f14: Zoo::conc(&f[14])?, f15: Zoo::conc(&f[15])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SSkip { #[reflect(skip)] pub s0: u8, pub a: i32, #[reflect(skip)] pub s1: String, pub b: bool, #[reflect(skip,)] pub s2: NoRefl }
impl Zoo for SSkip {
    fn tid() -> String { "SSkip".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.s0.zabs(), self.a.zabs(), self.s1.zabs(), self.b.zabs(), self.s2.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 5)?; let _ = &f; Some(Self { s0: Zoo::conc(&f[0])?, a: Zoo::conc(&f[1])?, s1: Zoo::conc(&f[2])?, b: Zoo::conc(&f[3])?, s2: Zoo::conc(&f[4])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SAllSkip { #[reflect(skip)] pub s0: u8, #[reflect(skip)] pub s1: Vec<u8> }
impl Zoo for SAllSkip {
    fn tid() -> String { "SAllSkip".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.s0.zabs(), self.s1.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { s0: Zoo::conc(&f[0])?, s1: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SNest { pub inner: SSkip, pub v: Vec<SSkip>, pub o: Option<SSkip>, pub bx: Box<SSkip>, pub t: (u8, SSkip), pub e: ESkipF }
impl Zoo for SNest {
    fn tid() -> String { "SNest".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.inner.zabs(), self.v.zabs(), self.o.zabs(), self.bx.zabs(), self.t.zabs(), self.e.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 6)?; let _ = &f; Some(Self { inner: Zoo::conc(&f[0])?, v: Zoo::conc(&f[1])?, o: Zoo::conc(&f[2])?, bx: Zoo::conc(&f[3])?, t: Zoo::conc(&f[4])?, e: Zoo::conc(&f[5])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SNames { pub name: u8, pub index: u8, pub value: u8, pub enum_: u8, pub struct_: u8, pub field: u8, pub fields: u8, pub reflect: u8, pub graph: u8, pub f: u8, pub new: u8, pub this: u8, pub r#type: u8, pub tuple_struct: u8, pub __name: u8 }
impl Zoo for SNames {
    fn tid() -> String { "SNames".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.name.zabs(), self.index.zabs(), self.value.zabs(), self.enum_.zabs(), self.struct_.zabs(), self.field.zabs(), self.fields.zabs(), self.reflect.zabs(), self.graph.zabs(), self.f.zabs(), self.new.zabs(), self.this.zabs(), self.r#type.zabs(), self.tuple_struct.zabs(), self.__name.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 15)?; let _ = &f; Some(Self { name: Zoo::conc(&f[0])?, index: Zoo::conc(&f[1])?, value: Zoo::conc(&f[2])?, enum_: Zoo::conc(&f[3])?, struct_: Zoo::conc(&f[4])?, field: Zoo::conc(&f[5])?, fields: Zoo::conc(&f[6])?, reflect: Zoo::conc(&f[7])?, graph: Zoo::conc(&f[8])?, f: Zoo::conc(&f[9])?, new: Zoo::conc(&f[10])?, this: Zoo::conc(&f[11])?, r#type: Zoo::conc(&f[12])?, tuple_struct: Zoo::conc(&f[13])?, __name: Zoo::conc(&f[14])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Reflect)]
#[reflect(opt_out(Clone, ),)]
pub struct SClone { pub a: u8, #[reflect(skip)] pub s: u8, pub n: Vec<STwo>, pub k: STwo }
impl Zoo for SClone {
    fn tid() -> String { "SClone".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.s.zabs(), self.n.zabs(), self.k.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, s: Zoo::conc(&f[1])?, n: Zoo::conc(&f[2])?, k: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Reflect)]
#[reflect(opt_out(Clone))]
pub struct SCloneIn { pub c: SClone, pub l: Vec<SClone>, pub x: i32 }
impl Zoo for SCloneIn {
    fn tid() -> String { "SCloneIn".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.c.zabs(), self.l.zabs(), self.x.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { c: Zoo::conc(&f[0])?, l: Zoo::conc(&f[1])?, x: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Clone, Reflect)]
#[reflect(opt_out(Debug, ),)]
pub struct SDebug { pub a: u8, #[reflect(skip)] pub s: u8, pub bx: Box<STwo>, pub k: STwo, pub o: Option<STwo>, pub v: Vec<u8>, pub m: BTreeMap<u8, String>, pub t: (u8, String) }
impl Zoo for SDebug {
    fn tid() -> String { "SDebug".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.s.zabs(), self.bx.zabs(), self.k.zabs(), self.o.zabs(), self.v.zabs(), self.m.zabs(), self.t.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 8)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, s: Zoo::conc(&f[1])?, bx: Zoo::conc(&f[2])?, k: Zoo::conc(&f[3])?, o: Zoo::conc(&f[4])?, v: Zoo::conc(&f[5])?, m: Zoo::conc(&f[6])?, t: Zoo::conc(&f[7])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Reflect)]
#[reflect(opt_out(Clone, Debug))]
pub struct SBoth { #[reflect(skip,)] pub s: u8, pub a: SDebug2, pub e: EDebug, pub f: f32 }
impl Zoo for SBoth {
    fn tid() -> String { "SBoth".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.s.zabs(), self.a.zabs(), self.e.zabs(), self.f.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { s: Zoo::conc(&f[0])?, a: Zoo::conc(&f[1])?, e: Zoo::conc(&f[2])?, f: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Clone, Reflect)]
#[reflect(opt_out(Debug))]
pub struct SDebug2 { pub a: String, pub bx: Box<TDebug> }
impl Zoo for SDebug2 {
    fn tid() -> String { "SDebug2".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.bx.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, bx: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SFrw { #[reflect(from_reflect_with(frw_or7))] pub a: u8, pub b: u8, #[reflect(from_reflect_with(frw_tag),)] pub c: String, pub d: bool }
impl Zoo for SFrw {
    fn tid() -> String { "SFrw".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.b.zabs(), self.c.zabs(), self.d.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, b: Zoo::conc(&f[1])?, c: Zoo::conc(&f[2])?, d: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SVal { pub v: Value, pub n: u8, pub l: Vec<Value>, pub m: BTreeMap<Value, Value> }
impl Zoo for SVal {
    fn tid() -> String { "SVal".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.v.zabs(), self.n.zabs(), self.l.zabs(), self.m.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { v: Zoo::conc(&f[0])?, n: Zoo::conc(&f[1])?, l: Zoo::conc(&f[2])?, m: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
#[doc = " Docs of SMeta."]
#[doc = " More."]
#[reflect(meta(answer = 42_i32), meta(flag = true, z = "end"))]
pub struct SMeta { #[reflect(meta(min = 1_i32, unit = "m"))] #[doc = " Field a."] pub a: u8, #[reflect(skip,)] #[doc = " hidden"] pub h: u8, #[doc = " Field b,"] #[doc = " second line."] #[reflect(meta(t = TOne(3)))] pub b: STwo, pub c: bool }
impl Zoo for SMeta {
    fn tid() -> String { "SMeta".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.h.zabs(), self.b.zabs(), self.c.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, h: Zoo::conc(&f[1])?, b: Zoo::conc(&f[2])?, c: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
#[doc = " a"]
#[doc = ""]
#[doc = " b"]
#[doc = " \"q\" \\ {} é"]
#[doc = "no space"]
#[doc = "\ttab"]
#[doc = "two\nlines"]
#[reflect(meta(k0 = 1.5_f32), meta(k1 = f64::NAN, k2 = -0.0_f32, k3 = u128::MAX, k4 = i64::MIN, k5 = '\'', k6 = Some(3_u8), k7 = None::<u8>, k8 = vec![1_u8, 2], k9 = [1_u8, 2], k10 = (1_u8, true), k11 = (), k12 = BTreeMap::from([(1_u8, 2_u8)]), k13 = SOne { a: 1 }, k14 = EUnit::B, k15 = SSkip { s0: 1, a: 2, s1: String::new(), b: true, s2: Default::default() }))]
pub struct SDocs { #[reflect(meta(m = 1.5_f32, n = Some(3_u8)),)] #[doc = " a"] #[doc = ""] #[doc = " b"] pub f0: u8, #[doc = ""] #[reflect(meta(m = f64::NAN), meta(n = None::<u8>))] #[doc = " a"] pub f1: u8, #[doc = " a"] #[doc = ""] #[reflect(meta(m = -0.0_f32, n = vec![1_u8, 2]))] pub f2: u8, #[doc = ""] #[doc = ""] #[reflect(meta(m = u128::MAX), meta(n = [1_u8, 2]),)] pub f3: u8, #[reflect(meta(m = i64::MIN, n = (1_u8, true)))] #[doc = " \"q\" \\ {} é"] #[doc = "no space"] #[doc = "\ttab"] #[doc = "two\nlines"] pub f4: u8, #[doc = " a"] #[reflect(meta(m = '\''), meta(n = ()))] #[doc = " a"] pub f5: u8, #[doc = " hidden"] #[reflect(skip,)] pub h: u8, #[reflect(meta(m = BTreeMap::from([(1_u8, 2_u8)]), why = SOne { a: 1 }))] pub z: u8 }
impl Zoo for SDocs {
    fn tid() -> String { "SDocs".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.f0.zabs(), self.f1.zabs(), self.f2.zabs(), self.f3.zabs(), self.f4.zabs(), self.f5.zabs(), self.h.zabs(), self.z.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 8)?; let _ = &f; Some(Self { f0: Zoo::conc(&f[0])?, f1: Zoo::conc(&f[1])?, f2: Zoo::conc(&f[2])?, f3: Zoo::conc(&f[3])?, f4: Zoo::conc(&f[4])?, f5: Zoo::conc(&f[5])?, h: Zoo::conc(&f[6])?, z: Zoo::conc(&f[7])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
#[reflect(meta(n = ""), meta(m = vec![1_u8, 2]))]
#[doc = ""]
#[doc = " a"]
#[doc = " \"q\" \\ {} é"]
#[doc = "no space"]
#[doc = "\ttab"]
#[doc = "two\nlines"]
pub struct TDocs(#[doc = " a"] #[reflect(meta(m = None::<u8>, n = 1.5_f32),)] #[doc = ""] #[doc = " b"] pub u8, #[doc = ""] #[doc = " a"] #[reflect(meta(n = f64::NAN), meta(m = vec![1_u8, 2]))] pub u8, #[doc = " a"] #[doc = ""] #[reflect(meta(m = [1_u8, 2], n = -0.0_f32))] pub u8, #[reflect(meta(n = u128::MAX), meta(m = (1_u8, true)),)] #[doc = ""] #[doc = ""] pub u8, #[doc = " \"q\" \\ {} é"] #[doc = "no space"] #[reflect(meta(m = (), n = i64::MIN))] #[doc = "\ttab"] #[doc = "two\nlines"] pub u8, #[doc = " a"] #[doc = " a"] #[reflect(meta(n = '\''), meta(m = BTreeMap::from([(1_u8, 2_u8)])))] pub u8, #[reflect(skip,)] pub u8, #[doc = " a"] #[doc = ""] #[doc = " b"] pub u8);
impl Zoo for TDocs {
    fn tid() -> String { "TDocs".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs(), self.2.zabs(), self.3.zabs(), self.4.zabs(), self.5.zabs(), self.6.zabs(), self.7.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 8)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])?, 2: Zoo::conc(&f[2])?, 3: Zoo::conc(&f[3])?, 4: Zoo::conc(&f[4])?, 5: Zoo::conc(&f[5])?, 6: Zoo::conc(&f[6])?, 7: Zoo::conc(&f[7])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
#[reflect(meta(m = [1_u8, 2]))]
#[doc = " a"]
#[doc = ""]
#[doc = " b"]
pub struct UDocs;
impl Zoo for UDocs {
    fn tid() -> String { "UDocs".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 0)?; let _ = &f; Some(Self) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
#[doc = " \"q\" \\ {} é"]
#[doc = "no space"]
#[reflect(meta(n = u128::MAX, m = ()))]
#[doc = "\ttab"]
#[doc = "two\nlines"]
pub enum EDocs { #[doc = " a"] #[doc = ""] #[doc = " b"] #[reflect(meta(m = 1.5_f32),)] U0, #[doc = " a"] #[doc = ""] #[reflect(meta(m = vec![1_u8, 2]))] T0(#[reflect(meta(n = 1.5_f32))] #[doc = ""] #[doc = " a"] u8), #[doc = " \"q\" \\ {} é"] #[doc = "no space"] #[reflect(meta(n = 1.5_f32),)] #[doc = "\ttab"] #[doc = "two\nlines"] S0 { #[doc = ""] #[doc = ""] #[reflect(meta(m = '\''))] a: u8 }, #[doc = ""] #[doc = " a"] #[reflect(meta(m = f64::NAN))] U1, #[reflect(meta(m = [1_u8, 2]),)] #[doc = ""] #[doc = ""] T1(#[doc = " a"] #[reflect(meta(n = f64::NAN))] #[doc = ""] u8), #[doc = " a"] #[doc = " a"] #[reflect(meta(n = f64::NAN))] S1 { #[doc = " \"q\" \\ {} é"] #[doc = "no space"] #[doc = "\ttab"] #[doc = "two\nlines"] #[reflect(meta(m = Some(3_u8)),)] a: u8 }, #[reflect(meta(m = -0.0_f32))] #[doc = " a"] #[doc = ""] U2, #[doc = " \"q\" \\ {} é"] #[doc = "no space"] #[reflect(meta(m = (1_u8, true)))] #[doc = "\ttab"] #[doc = "two\nlines"] T2(#[doc = ""] #[doc = ""] #[reflect(meta(n = -0.0_f32),)] u8), #[doc = " a"] #[doc = ""] #[doc = " b"] #[reflect(meta(n = -0.0_f32))] S2 { #[reflect(meta(m = None::<u8>))] #[doc = " a"] #[doc = " a"] a: u8 }, #[doc = ""] #[reflect(meta(m = u128::MAX),)] #[doc = ""] U3, #[doc = " a"] #[doc = " a"] #[reflect(meta(m = ()))] T3(#[doc = " \"q\" \\ {} é"] #[doc = "no space"] #[doc = "\ttab"] #[doc = "two\nlines"] #[reflect(meta(n = u128::MAX))] u8), #[reflect(meta(n = u128::MAX),)] #[doc = ""] #[doc = " a"] S3 { #[doc = " a"] #[reflect(meta(m = vec![1_u8, 2]))] #[doc = ""] #[doc = " b"] a: u8 }, #[doc = " \"q\" \\ {} é"] #[doc = "no space"] #[doc = "\ttab"] #[doc = "two\nlines"] #[reflect(meta(m = i64::MIN))] U4, #[doc = " a"] #[doc = ""] #[doc = " b"] #[reflect(meta(m = BTreeMap::from([(1_u8, 2_u8)])),)] T4(#[reflect(meta(n = i64::MIN))] #[doc = " a"] #[doc = " a"] u8), #[doc = " a"] #[reflect(meta(n = i64::MIN))] #[doc = ""] S4 { #[doc = ""] #[doc = " a"] #[reflect(meta(m = [1_u8, 2]),)] a: u8 }, #[doc = " a"] #[doc = " a"] #[reflect(meta(m = '\''))] U5, #[reflect(meta(m = SOne { a: 1 }))] #[doc = ""] #[doc = " a"] T5(#[doc = " a"] #[reflect(meta(n = '\''),)] #[doc = ""] #[doc = " b"] u8), #[doc = ""] #[doc = ""] #[reflect(meta(n = '\''))] S5 { #[doc = " a"] #[doc = ""] #[reflect(meta(m = (1_u8, true)))] a: u8 }, #[reflect(skip,)] #[doc = " hidden"] H { #[doc = " hidden field"] a: u8 }, TS(#[reflect(skip)] #[doc = " x"] u8, #[doc = " a"] #[doc = ""] #[doc = " b"] u8) }
impl Zoo for EDocs {
    fn tid() -> String { "EDocs".to_string() }
    fn zabs(&self) -> J { match self { Self::U0 => json!({"k": "enum", "var": "U0", "f": Vec::<J>::from([])}), Self::T0(x0) => json!({"k": "enum", "var": "T0", "f": Vec::<J>::from([x0.zabs()])}), Self::S0 { a: x0 } => json!({"k": "enum", "var": "S0", "f": Vec::<J>::from([x0.zabs()])}), Self::U1 => json!({"k": "enum", "var": "U1", "f": Vec::<J>::from([])}), Self::T1(x0) => json!({"k": "enum", "var": "T1", "f": Vec::<J>::from([x0.zabs()])}), Self::S1 { a: x0 } => json!({"k": "enum", "var": "S1", "f": Vec::<J>::from([x0.zabs()])}), Self::U2 => json!({"k": "enum", "var": "U2", "f": Vec::<J>::from([])}), Self::T2(x0) => json!({"k": "enum", "var": "T2", "f": Vec::<J>::from([x0.zabs()])}), Self::S2 { a: x0 } => json!({"k": "enum", "var": "S2", "f": Vec::<J>::from([x0.zabs()])}), Self::U3 => json!({"k": "enum", "var": "U3", "f": Vec::<J>::from([])}), Self::T3(x0) => json!({"k": "enum", "var": "T3", "f": Vec::<J>::from([x0.zabs()])}), Self::S3 { a: x0 } => json!({"k": "enum", "var": "S3", "f": Vec::<J>::from([x0.zabs()])}), Self::U4 => json!({"k": "enum", "var": "U4", "f": Vec::<J>::from([])}), Self::T4(x0) => json!({"k": "enum", "var": "T4", "f": Vec::<J>::from([x0.zabs()])}), Self::S4 { a: x0 } => json!({"k": "enum", "var": "S4", "f": Vec::<J>::from([x0.zabs()])}), Self::U5 => json!({"k": "enum", "var": "U5", "f": Vec::<J>::from([])}), Self::T5(x0) => json!({"k": "enum", "var": "T5", "f": Vec::<J>::from([x0.zabs()])}), Self::S5 { a: x0 } => json!({"k": "enum", "var": "S5", "f": Vec::<J>::from([x0.zabs()])}), Self::H { a: x0 } => json!({"k": "enum", "var": "H", "f": Vec::<J>::from([x0.zabs()])}), Self::TS(x0, x1) => json!({"k": "enum", "var": "TS", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "U0" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::U0) }, "T0" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::T0(Zoo::conc(&f[0])?)) }, "S0" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::S0 { a: Zoo::conc(&f[0])? }) }, "U1" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::U1) }, "T1" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::T1(Zoo::conc(&f[0])?)) }, "S1" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::S1 { a: Zoo::conc(&f[0])? }) }, "U2" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::U2) }, "T2" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::T2(Zoo::conc(&f[0])?)) }, "S2" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::S2 { a: Zoo::conc(&f[0])? }) }, "U3" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::U3) }, "T3" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::T3(Zoo::conc(&f[0])?)) }, "S3" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::S3 { a: Zoo::conc(&f[0])? }) }, "U4" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::U4) }, "T4" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::T4(Zoo::conc(&f[0])?)) }, "S4" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::S4 { a: Zoo::conc(&f[0])? }) }, "U5" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::U5) }, "T5" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::T5(Zoo::conc(&f[0])?)) }, "S5" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::S5 { a: Zoo::conc(&f[0])? }) }, "H" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::H { a: Zoo::conc(&f[0])? }) }, "TS" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::TS(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?)) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SVia { pub d: Duration, pub n: NonZeroU8, pub i: NonZeroI64, pub o: Option<NonZeroU16> }
impl Zoo for SVia {
    fn tid() -> String { "SVia".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.d.zabs(), self.n.zabs(), self.i.zabs(), self.o.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { d: Zoo::conc(&f[0])?, n: Zoo::conc(&f[1])?, i: Zoo::conc(&f[2])?, o: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SOpq { pub a: u8, pub o: Opq, pub b: u8 }
impl Zoo for SOpq {
    fn tid() -> String { "SOpq".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.o.zabs(), self.b.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, o: Zoo::conc(&f[1])?, b: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SOpqR { pub b: u8, pub o: Opq, pub a: u8 }
impl Zoo for SOpqR {
    fn tid() -> String { "SOpqR".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.b.zabs(), self.o.zabs(), self.a.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { b: Zoo::conc(&f[0])?, o: Zoo::conc(&f[1])?, a: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SNoDef { pub a: u8, pub n: NonZeroU8 }
impl Zoo for SNoDef {
    fn tid() -> String { "SNoDef".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.n.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, n: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SMaps { pub m: BTreeMap<String, i32>, pub n: BTreeMap<u8, STwo>, pub e: BTreeMap<EKey, Vec<u8>> }
impl Zoo for SMaps {
    fn tid() -> String { "SMaps".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.m.zabs(), self.n.zabs(), self.e.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { m: Zoo::conc(&f[0])?, n: Zoo::conc(&f[1])?, e: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SArr { pub a: [u8; 3], pub b: [STwo; 2], pub z: [u8; 0], pub n: [[u8; 2]; 2] }
impl Zoo for SArr {
    fn tid() -> String { "SArr".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.b.zabs(), self.z.zabs(), self.n.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, b: Zoo::conc(&f[1])?, z: Zoo::conc(&f[2])?, n: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SRange { pub r: Range<i32>, pub f: RangeFrom<u8>, pub t: RangeTo<u8>, pub i: RangeToInclusive<u8>, pub u: RangeFull }
impl Zoo for SRange {
    fn tid() -> String { "SRange".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.r.zabs(), self.f.zabs(), self.t.zabs(), self.i.zabs(), self.u.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 5)?; let _ = &f; Some(Self { r: Zoo::conc(&f[0])?, f: Zoo::conc(&f[1])?, t: Zoo::conc(&f[2])?, i: Zoo::conc(&f[3])?, u: Zoo::conc(&f[4])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Reflect)]
pub struct SKey { pub a: u8, pub b: String }
impl Zoo for SKey {
    fn tid() -> String { "SKey".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.b.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, b: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SInf { pub r: Result<u8, Infallible>, pub o: Option<Infallible> }
impl Zoo for SInf {
    fn tid() -> String { "SInf".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.r.zabs(), self.o.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { r: Zoo::conc(&f[0])?, o: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SMut { pub e: EMut, pub x: u8 }
impl Zoo for SMut {
    fn tid() -> String { "SMut".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.e.zabs(), self.x.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { e: Zoo::conc(&f[0])?, x: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SDeep { pub l1: Vec<Option<Vec<(u8, BTreeMap<String, [Option<EMix>; 2]>)>>> }
impl Zoo for SDeep {
    fn tid() -> String { "SDeep".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.l1.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 1)?; let _ = &f; Some(Self { l1: Zoo::conc(&f[0])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct Gen<T> where T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug { pub a: T, pub b: Vec<T>, #[reflect(skip)] pub s: Option<T> }
impl<T> Zoo for Gen<T> where T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug {
    fn tid() -> String { format!("Gen<{}>", <T as Zoo>::aid()) }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.b.zabs(), self.s.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, b: Zoo::conc(&f[1])?, s: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct Gen2<T, U> where T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug, U: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug { pub a: T, pub g: Gen<U> }
impl<T, U> Zoo for Gen2<T, U> where T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug, U: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug {
    fn tid() -> String { format!("Gen2<{}, {}>", <T as Zoo>::aid(), <U as Zoo>::aid()) }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.g.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, g: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct RList { pub v: i32, pub next: Option<Box<RList>> }
impl Zoo for RList {
    fn tid() -> String { "RList".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.v.zabs(), self.next.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { v: Zoo::conc(&f[0])?, next: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct RTree { pub kids: Vec<RTree>, pub m: BTreeMap<u8, RTree>, pub name: String }
impl Zoo for RTree {
    fn tid() -> String { "RTree".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.kids.zabs(), self.m.zabs(), self.name.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { kids: Zoo::conc(&f[0])?, m: Zoo::conc(&f[1])?, name: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct TZero();
impl Zoo for TZero {
    fn tid() -> String { "TZero".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 0)?; let _ = &f; Some(Self {  }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct TOne(pub u8);
impl Zoo for TOne {
    fn tid() -> String { "TOne".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 1)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct TTwo(pub i32, pub String);
impl Zoo for TTwo {
    fn tid() -> String { "TTwo".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct TSkip(#[reflect(skip,)] pub u8, pub i32, #[reflect(skip)] pub String, pub bool, #[reflect(skip)] pub NoRefl);
impl Zoo for TSkip {
    fn tid() -> String { "TSkip".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs(), self.2.zabs(), self.3.zabs(), self.4.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 5)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])?, 2: Zoo::conc(&f[2])?, 3: Zoo::conc(&f[3])?, 4: Zoo::conc(&f[4])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct TAllSkip(#[reflect(skip,)] pub u8);
impl Zoo for TAllSkip {
    fn tid() -> String { "TAllSkip".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 1)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct TNest(pub SSkip, pub Vec<TSkip>, pub Box<TSkip>, pub Option<TSkip>);
impl Zoo for TNest {
    fn tid() -> String { "TNest".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs(), self.2.zabs(), self.3.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])?, 2: Zoo::conc(&f[2])?, 3: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct TFrw(pub u8, #[reflect(from_reflect_with(frw_or7))] pub u8, #[reflect(skip)] pub u8, #[reflect(from_reflect_with(frw_tag),)] pub String);
impl Zoo for TFrw {
    fn tid() -> String { "TFrw".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs(), self.2.zabs(), self.3.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])?, 2: Zoo::conc(&f[2])?, 3: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Reflect)]
#[reflect(opt_out(Clone, ))]
pub struct TClone(#[reflect(skip)] pub u8, pub STwo, pub Vec<TOne>);
impl Zoo for TClone {
    fn tid() -> String { "TClone".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs(), self.2.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])?, 2: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Clone, Reflect)]
#[reflect(opt_out(Debug, ),)]
pub struct TDebug(pub u8, pub Box<STwo>, #[reflect(skip)] pub u8, pub Vec<STwo>);
impl Zoo for TDebug {
    fn tid() -> String { "TDebug".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs(), self.2.zabs(), self.3.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])?, 2: Zoo::conc(&f[2])?, 3: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
#[doc = " Tuple docs."]
#[reflect(meta(v = 7_i32))]
pub struct TMeta(#[doc = " zero"] #[reflect(meta(min = 2_i32),)] pub u8, #[reflect(skip)] pub u8, #[reflect(meta(q = "r"))] #[doc = " two"] pub String);
impl Zoo for TMeta {
    fn tid() -> String { "TMeta".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs(), self.2.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])?, 2: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct RTup(pub i32, pub Vec<RTup>);
impl Zoo for RTup {
    fn tid() -> String { "RTup".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct TGen<T>(pub T, pub [T; 2]) where T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug;
impl<T> Zoo for TGen<T> where T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug {
    fn tid() -> String { format!("TGen<{}>", <T as Zoo>::aid()) }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum EUnit { A, B, C }
impl Zoo for EUnit {
    fn tid() -> String { "EUnit".to_string() }
    fn zabs(&self) -> J { match self { Self::A => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([])}), Self::B => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([])}), Self::C => json!({"k": "enum", "var": "C", "f": Vec::<J>::from([])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "A" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::A) }, "B" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::B) }, "C" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::C) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum EMix { U, T(u8, String), S { a: u8, b: String } }
impl Zoo for EMix {
    fn tid() -> String { "EMix".to_string() }
    fn zabs(&self) -> J { match self { Self::U => json!({"k": "enum", "var": "U", "f": Vec::<J>::from([])}), Self::T(x0, x1) => json!({"k": "enum", "var": "T", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::S { a: x0, b: x1 } => json!({"k": "enum", "var": "S", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "U" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::U) }, "T" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::T(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?)) }, "S" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::S { a: Zoo::conc(&f[0])?, b: Zoo::conc(&f[1])? }) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum EMixB { U(u8), T { x: u8, y: String }, S(u8, String), Z }
impl Zoo for EMixB {
    fn tid() -> String { "EMixB".to_string() }
    fn zabs(&self) -> J { match self { Self::U(x0) => json!({"k": "enum", "var": "U", "f": Vec::<J>::from([x0.zabs()])}), Self::T { x: x0, y: x1 } => json!({"k": "enum", "var": "T", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::S(x0, x1) => json!({"k": "enum", "var": "S", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::Z => json!({"k": "enum", "var": "Z", "f": Vec::<J>::from([])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "U" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::U(Zoo::conc(&f[0])?)) }, "T" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::T { x: Zoo::conc(&f[0])?, y: Zoo::conc(&f[1])? }) }, "S" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::S(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?)) }, "Z" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::Z) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum EMixC { S { b: String, a: u8, c: u8 }, T(u8), U }
impl Zoo for EMixC {
    fn tid() -> String { "EMixC".to_string() }
    fn zabs(&self) -> J { match self { Self::S { b: x0, a: x1, c: x2 } => json!({"k": "enum", "var": "S", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs()])}), Self::T(x0) => json!({"k": "enum", "var": "T", "f": Vec::<J>::from([x0.zabs()])}), Self::U => json!({"k": "enum", "var": "U", "f": Vec::<J>::from([])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "S" => { let f = arr(j, "f", 3)?; let _ = &f; Some(Self::S { b: Zoo::conc(&f[0])?, a: Zoo::conc(&f[1])?, c: Zoo::conc(&f[2])? }) }, "T" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::T(Zoo::conc(&f[0])?)) }, "U" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::U) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum ESame { X(u8), Y(u8) }
impl Zoo for ESame {
    fn tid() -> String { "ESame".to_string() }
    fn zabs(&self) -> J { match self { Self::X(x0) => json!({"k": "enum", "var": "X", "f": Vec::<J>::from([x0.zabs()])}), Self::Y(x0) => json!({"k": "enum", "var": "Y", "f": Vec::<J>::from([x0.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "X" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::X(Zoo::conc(&f[0])?)) }, "Y" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::Y(Zoo::conc(&f[0])?)) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum ESkipF { T(#[reflect(skip,)] u8, i32, #[reflect(skip)] String, bool), S { #[reflect(skip)] s: u8, a: i32, #[reflect(skip,)] t: String, b: bool }, OnlySkip(#[reflect(skip)] u8), OnlySkipS { #[reflect(skip)] x: u8 }, Empty(), EmptyS {  } }
impl Zoo for ESkipF {
    fn tid() -> String { "ESkipF".to_string() }
    fn zabs(&self) -> J { match self { Self::T(x0, x1, x2, x3) => json!({"k": "enum", "var": "T", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs(), x3.zabs()])}), Self::S { s: x0, a: x1, t: x2, b: x3 } => json!({"k": "enum", "var": "S", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs(), x3.zabs()])}), Self::OnlySkip(x0) => json!({"k": "enum", "var": "OnlySkip", "f": Vec::<J>::from([x0.zabs()])}), Self::OnlySkipS { x: x0 } => json!({"k": "enum", "var": "OnlySkipS", "f": Vec::<J>::from([x0.zabs()])}), Self::Empty() => json!({"k": "enum", "var": "Empty", "f": Vec::<J>::from([])}), Self::EmptyS {  } => json!({"k": "enum", "var": "EmptyS", "f": Vec::<J>::from([])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "T" => { let f = arr(j, "f", 4)?; let _ = &f; Some(Self::T(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?, Zoo::conc(&f[2])?, Zoo::conc(&f[3])?)) }, "S" => { let f = arr(j, "f", 4)?; let _ = &f; Some(Self::S { s: Zoo::conc(&f[0])?, a: Zoo::conc(&f[1])?, t: Zoo::conc(&f[2])?, b: Zoo::conc(&f[3])? }) }, "OnlySkip" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::OnlySkip(Zoo::conc(&f[0])?)) }, "OnlySkipS" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::OnlySkipS { x: Zoo::conc(&f[0])? }) }, "Empty" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::Empty()) }, "EmptyS" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::EmptyS {  }) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum ESkipV { #[reflect(skip,)] H(u8), A(u8), #[reflect(skip)] M, B { x: u8 }, #[reflect(skip)] HS { q: NoRefl2 } }
impl Zoo for ESkipV {
    fn tid() -> String { "ESkipV".to_string() }
    fn zabs(&self) -> J { match self { Self::H(x0) => json!({"k": "enum", "var": "H", "f": Vec::<J>::from([x0.zabs()])}), Self::A(x0) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs()])}), Self::M => json!({"k": "enum", "var": "M", "f": Vec::<J>::from([])}), Self::B { x: x0 } => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs()])}), Self::HS { q: x0 } => json!({"k": "enum", "var": "HS", "f": Vec::<J>::from([x0.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "H" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::H(Zoo::conc(&f[0])?)) }, "A" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?)) }, "M" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::M) }, "B" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::B { x: Zoo::conc(&f[0])? }) }, "HS" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::HS { q: Zoo::conc(&f[0])? }) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum ENames { S { name: u8, index: u8, value: u8, enum_: u8, field: u8, variant_matches: u8, new: u8, other: u8, r#type: u8, self_: u8, f: u8 }, T(u8, u8, u8) }
impl Zoo for ENames {
    fn tid() -> String { "ENames".to_string() }
    fn zabs(&self) -> J { match self { Self::S { name: x0, index: x1, value: x2, enum_: x3, field: x4, variant_matches: x5, new: x6, other: x7, r#type: x8, self_: x9, f: x10 } => json!({"k": "enum", "var": "S", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs(), x3.zabs(), x4.zabs(), x5.zabs(), x6.zabs(), x7.zabs(), x8.zabs(), x9.zabs(), x10.zabs()])}), Self::T(x0, x1, x2) => json!({"k": "enum", "var": "T", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "S" => { let f = arr(j, "f", 11)?; let _ = &f; Some(Self::S { name: Zoo::conc(&f[0])?, index: Zoo::conc(&f[1])?, value: Zoo::conc(&f[2])?, enum_: Zoo::conc(&f[3])?, field: Zoo::conc(&f[4])?, variant_matches: Zoo::conc(&f[5])?, new: Zoo::conc(&f[6])?, other: Zoo::conc(&f[7])?, r#type: Zoo::conc(&f[8])?, self_: Zoo::conc(&f[9])?, f: Zoo::conc(&f[10])? }) }, "T" => { let f = arr(j, "f", 3)?; let _ = &f; Some(Self::T(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?, Zoo::conc(&f[2])?)) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Reflect)]
#[reflect(opt_out(Clone, ),)]
pub enum EClone { A(#[reflect(skip)] u8, STwo), B { x: Vec<STwo>, #[reflect(skip)] s: u8 }, C }
impl Zoo for EClone {
    fn tid() -> String { "EClone".to_string() }
    fn zabs(&self) -> J { match self { Self::A(x0, x1) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::B { x: x0, s: x1 } => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::C => json!({"k": "enum", "var": "C", "f": Vec::<J>::from([])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "A" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?)) }, "B" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::B { x: Zoo::conc(&f[0])?, s: Zoo::conc(&f[1])? }) }, "C" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::C) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Clone, Reflect)]
#[reflect(opt_out(Debug, ),)]
pub enum EDebug { A(u8, Box<STwo>), B { x: Box<STwo>, #[reflect(skip)] s: u8, y: u8 }, C, D(), F {  } }
impl Zoo for EDebug {
    fn tid() -> String { "EDebug".to_string() }
    fn zabs(&self) -> J { match self { Self::A(x0, x1) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::B { x: x0, s: x1, y: x2 } => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs()])}), Self::C => json!({"k": "enum", "var": "C", "f": Vec::<J>::from([])}), Self::D() => json!({"k": "enum", "var": "D", "f": Vec::<J>::from([])}), Self::F {  } => json!({"k": "enum", "var": "F", "f": Vec::<J>::from([])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "A" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?)) }, "B" => { let f = arr(j, "f", 3)?; let _ = &f; Some(Self::B { x: Zoo::conc(&f[0])?, s: Zoo::conc(&f[1])?, y: Zoo::conc(&f[2])? }) }, "C" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::C) }, "D" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::D()) }, "F" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::F {  }) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum EFrw { A(#[reflect(from_reflect_with(frw_or7))] u8, u8), B { x: u8, #[reflect(from_reflect_with(frw_or7),)] y: u8 }, C(#[reflect(skip)] u8, #[reflect(from_reflect_with(frw_tag))] String) }
impl Zoo for EFrw {
    fn tid() -> String { "EFrw".to_string() }
    fn zabs(&self) -> J { match self { Self::A(x0, x1) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::B { x: x0, y: x1 } => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::C(x0, x1) => json!({"k": "enum", "var": "C", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "A" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?)) }, "B" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::B { x: Zoo::conc(&f[0])?, y: Zoo::conc(&f[1])? }) }, "C" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::C(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?)) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
#[reflect(meta(e = 9_i32),)]
#[doc = " Enum docs."]
pub enum EMeta { #[reflect(meta(a = 1_i32))] #[doc = " unit"] A, #[doc = " hidden"] #[reflect(skip)] H(u8), #[doc = " tup"] #[doc = " le"] #[reflect(meta(b = "x"),)] B(#[reflect(meta(f = 3_i32))] #[doc = " fld"] u8), #[reflect(meta(c = -1_i32))] #[doc = " str"] C { #[doc = " named"] #[reflect(meta(n = false),)] x: u8, #[reflect(skip)] y: u8 } }
impl Zoo for EMeta {
    fn tid() -> String { "EMeta".to_string() }
    fn zabs(&self) -> J { match self { Self::A => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([])}), Self::H(x0) => json!({"k": "enum", "var": "H", "f": Vec::<J>::from([x0.zabs()])}), Self::B(x0) => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs()])}), Self::C { x: x0, y: x1 } => json!({"k": "enum", "var": "C", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "A" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::A) }, "H" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::H(Zoo::conc(&f[0])?)) }, "B" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::B(Zoo::conc(&f[0])?)) }, "C" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::C { x: Zoo::conc(&f[0])?, y: Zoo::conc(&f[1])? }) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum ERec { Leaf(i32), Node(Vec<ERec>), Pair { l: Box<ERec>, r: Box<ERec> } }
impl Zoo for ERec {
    fn tid() -> String { "ERec".to_string() }
    fn zabs(&self) -> J { match self { Self::Leaf(x0) => json!({"k": "enum", "var": "Leaf", "f": Vec::<J>::from([x0.zabs()])}), Self::Node(x0) => json!({"k": "enum", "var": "Node", "f": Vec::<J>::from([x0.zabs()])}), Self::Pair { l: x0, r: x1 } => json!({"k": "enum", "var": "Pair", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "Leaf" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::Leaf(Zoo::conc(&f[0])?)) }, "Node" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::Node(Zoo::conc(&f[0])?)) }, "Pair" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::Pair { l: Zoo::conc(&f[0])?, r: Zoo::conc(&f[1])? }) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum EBadDef { A(NonZeroU8), B }
impl Zoo for EBadDef {
    fn tid() -> String { "EBadDef".to_string() }
    fn zabs(&self) -> J { match self { Self::A(x0) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs()])}), Self::B => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "A" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?)) }, "B" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::B) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum EGen<T> where T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug { One(T), Two { x: T, y: Vec<T> } }
impl<T> Zoo for EGen<T> where T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug {
    fn tid() -> String { format!("EGen<{}>", <T as Zoo>::aid()) }
    fn zabs(&self) -> J { match self { Self::One(x0) => json!({"k": "enum", "var": "One", "f": Vec::<J>::from([x0.zabs()])}), Self::Two { x: x0, y: x1 } => json!({"k": "enum", "var": "Two", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "One" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::One(Zoo::conc(&f[0])?)) }, "Two" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::Two { x: Zoo::conc(&f[0])?, y: Zoo::conc(&f[1])? }) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Reflect)]
pub enum EKey { Z, A(u8), M { s: String } }
impl Zoo for EKey {
    fn tid() -> String { "EKey".to_string() }
    fn zabs(&self) -> J { match self { Self::Z => json!({"k": "enum", "var": "Z", "f": Vec::<J>::from([])}), Self::A(x0) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs()])}), Self::M { s: x0 } => json!({"k": "enum", "var": "M", "f": Vec::<J>::from([x0.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "Z" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::Z) }, "A" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?)) }, "M" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::M { s: Zoo::conc(&f[0])? }) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct MutA { pub b: Option<Box<MutB>>, pub x: u8 }
impl Zoo for MutA {
    fn tid() -> String { "MutA".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.b.zabs(), self.x.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { b: Zoo::conc(&f[0])?, x: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct MutB { pub kids: Vec<MutA>, pub e: EMutual }
impl Zoo for MutB {
    fn tid() -> String { "MutB".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.kids.zabs(), self.e.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { kids: Zoo::conc(&f[0])?, e: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum EMutual { Leaf, A(Box<MutA>), B { m: BTreeMap<u8, MutB>, n: u8 } }
impl Zoo for EMutual {
    fn tid() -> String { "EMutual".to_string() }
    fn zabs(&self) -> J { match self { Self::Leaf => json!({"k": "enum", "var": "Leaf", "f": Vec::<J>::from([])}), Self::A(x0) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs()])}), Self::B { m: x0, n: x1 } => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "Leaf" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::Leaf) }, "A" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?)) }, "B" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::B { m: Zoo::conc(&f[0])?, n: Zoo::conc(&f[1])? }) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
#[reflect(opt_out(FromReflect, ), crate_name(crate::mm2))]
pub struct SFrOut { pub a: u8, #[reflect(skip,)] pub s: u8, pub b: Vec<STwo>, pub r: Option<EFrOut> }
impl FromReflect for SFrOut { fn from_reflect(r: &dyn Reflect) -> Option<Self> { let s = r.as_struct()?; Some(Self { a: { let v = s.field("a")?; match v.downcast_ref::<u8>() { Some(v) => v.clone(), None => FromReflect::from_reflect(v)? } }, s: Default::default(), b: { let v = s.field("b")?; match v.downcast_ref::<Vec<STwo>>() { Some(v) => v.clone(), None => FromReflect::from_reflect(v)? } }, r: { let v = s.field("r")?; match v.downcast_ref::<Option<EFrOut>>() { Some(v) => v.clone(), None => FromReflect::from_reflect(v)? } } }) } }
impl Zoo for SFrOut {
    fn tid() -> String { "SFrOut".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.s.zabs(), self.b.zabs(), self.r.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, s: Zoo::conc(&f[1])?, b: Zoo::conc(&f[2])?, r: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Reflect)]
#[reflect(opt_out(Clone, FromReflect, ))]
pub struct TFrOut(#[reflect(skip)] pub u8, pub STwo, pub Vec<SFrOut>);
impl FromReflect for TFrOut { fn from_reflect(r: &dyn Reflect) -> Option<Self> { let s = r.as_tuple_struct()?; Some(Self { 0: Default::default(), 1: FromReflect::from_reflect(s.field_at(0)?)?, 2: FromReflect::from_reflect(s.field_at(1)?)? }) } }
impl Zoo for TFrOut {
    fn tid() -> String { "TFrOut".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs(), self.2.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])?, 2: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
#[reflect(opt_out(FromReflect, ), crate_name(crate::mm2),)]
pub enum EFrOut { S { #[reflect(skip)] s: u8, a: u8, b: String }, T(#[reflect(skip)] u8, Option<u8>, u8), U, #[reflect(skip,)] H }
impl FromReflect for EFrOut { fn from_reflect(r: &dyn Reflect) -> Option<Self> { let s = r.as_enum()?; match s.variant_name() { "S" => Some(Self::S { s: Default::default(), a: { let v = s.field("a")?; match v.downcast_ref::<u8>() { Some(v) => v.clone(), None => FromReflect::from_reflect(v)? } }, b: { let v = s.field("b")?; match v.downcast_ref::<String>() { Some(v) => v.clone(), None => FromReflect::from_reflect(v)? } } }), "T" => Some(Self::T { 0: Default::default(), 1: { let v = s.field_at(0)?; match v.downcast_ref::<Option<u8>>() { Some(v) => v.clone(), None => FromReflect::from_reflect(v)? } }, 2: { let v = s.field_at(1)?; match v.downcast_ref::<u8>() { Some(v) => v.clone(), None => FromReflect::from_reflect(v)? } } }), "U" => Some(Self::U {  }), _ => None } } }
impl Zoo for EFrOut {
    fn tid() -> String { "EFrOut".to_string() }
    fn zabs(&self) -> J { match self { Self::S { s: x0, a: x1, b: x2 } => json!({"k": "enum", "var": "S", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs()])}), Self::T(x0, x1, x2) => json!({"k": "enum", "var": "T", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs()])}), Self::U => json!({"k": "enum", "var": "U", "f": Vec::<J>::from([])}), Self::H => json!({"k": "enum", "var": "H", "f": Vec::<J>::from([])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "S" => { let f = arr(j, "f", 3)?; let _ = &f; Some(Self::S { s: Zoo::conc(&f[0])?, a: Zoo::conc(&f[1])?, b: Zoo::conc(&f[2])? }) }, "T" => { let f = arr(j, "f", 3)?; let _ = &f; Some(Self::T(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?, Zoo::conc(&f[2])?)) }, "U" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::U) }, "H" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::H) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Clone, Reflect)]
#[reflect(opt_out(Debug, ), crate_name(crate::mm2))]
pub enum ECrate { A(TGenI<u8>, EUnit), B { #[reflect(meta(k = 1_i32))] x: u8 } }
impl Zoo for ECrate {
    fn tid() -> String { "ECrate".to_string() }
    fn zabs(&self) -> J { match self { Self::A(x0, x1) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::B { x: x0 } => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "A" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?)) }, "B" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::B { x: Zoo::conc(&f[0])? }) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
#[reflect(crate_name(crate::mm2),)]
pub struct TGenI<T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug>(pub T, pub Vec<T>);
impl<T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug> Zoo for TGenI<T> {
    fn tid() -> String { format!("TGenI<{}>", <T as Zoo>::aid()) }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Reflect)]
#[reflect(opt_out(Clone))]
pub struct SFrwC { #[reflect(from_reflect_with(frw_or7))] pub a: u8, #[reflect(skip, meta(no = 1_i32), from_reflect_with(frw_or7),)] #[doc = " hidden"] pub s: u8, #[doc = " a"] #[doc = " b"] #[reflect(meta(n = "x"), from_reflect_with(frw_tag), meta(m = 1_i32))] pub b: String, pub c: STwo, pub d: Option<u8>, #[doc = " a"] #[doc = " b"] #[reflect(meta(m = 1_i32, n = "x"), from_reflect_with(frw_or7))] pub e: u8 }
impl Zoo for SFrwC {
    fn tid() -> String { "SFrwC".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.s.zabs(), self.b.zabs(), self.c.zabs(), self.d.zabs(), self.e.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 6)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, s: Zoo::conc(&f[1])?, b: Zoo::conc(&f[2])?, c: Zoo::conc(&f[3])?, d: Zoo::conc(&f[4])?, e: Zoo::conc(&f[5])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Reflect)]
#[reflect(meta(z = 1_i32), opt_out(Clone, Debug),)]
#[doc = " c"]
#[doc = " d"]
pub struct TFrwC(#[reflect(meta(no = 1_i32), from_reflect_with(frw_or7), skip)] #[doc = " hidden"] pub u8, #[doc = " a"] #[doc = " b"] #[reflect(from_reflect_with(frw_or7), meta(m = 1_i32), meta(n = "x"))] pub u8, pub STwo, #[doc = " a"] #[doc = " b"] #[reflect(meta(m = 1_i32, n = "x"), from_reflect_with(frw_tag),)] pub String, pub u8);
impl Zoo for TFrwC {
    fn tid() -> String { "TFrwC".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs(), self.2.zabs(), self.3.zabs(), self.4.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 5)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])?, 2: Zoo::conc(&f[2])?, 3: Zoo::conc(&f[3])?, 4: Zoo::conc(&f[4])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Reflect)]
#[reflect(opt_out(Clone, Debug), meta(z = 1_i32), crate_name(crate::mm2))]
#[doc = " c"]
#[doc = " d"]
pub enum EFrwC { #[reflect(meta(v = 1_i32))] #[doc = " e"] A(#[doc = " hidden"] #[reflect(skip, meta(no = 1_i32), from_reflect_with(frw_or7),)] u8, #[doc = " a"] #[doc = " b"] #[reflect(meta(n = "x"), from_reflect_with(frw_or7), meta(m = 1_i32))] u8, Vec<STwo>, #[reflect(from_reflect_with(frw_tag), meta(m = 1_i32, n = "x"))] #[doc = " a"] #[doc = " b"] String), B { #[reflect(skip, meta(no = 1_i32), from_reflect_with(frw_or7),)] #[doc = " hidden"] s: u8, #[doc = " a"] #[doc = " b"] #[reflect(meta(n = "x"), from_reflect_with(frw_tag), meta(m = 1_i32))] x: String, y: STwo, #[reflect(from_reflect_with(frw_or7))] z: u8 }, C(u8) }
impl Zoo for EFrwC {
    fn tid() -> String { "EFrwC".to_string() }
    fn zabs(&self) -> J { match self { Self::A(x0, x1, x2, x3) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs(), x3.zabs()])}), Self::B { s: x0, x: x1, y: x2, z: x3 } => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs(), x3.zabs()])}), Self::C(x0) => json!({"k": "enum", "var": "C", "f": Vec::<J>::from([x0.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "A" => { let f = arr(j, "f", 4)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?, Zoo::conc(&f[2])?, Zoo::conc(&f[3])?)) }, "B" => { let f = arr(j, "f", 4)?; let _ = &f; Some(Self::B { s: Zoo::conc(&f[0])?, x: Zoo::conc(&f[1])?, y: Zoo::conc(&f[2])?, z: Zoo::conc(&f[3])? }) }, "C" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::C(Zoo::conc(&f[0])?)) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Clone, Reflect)]
#[reflect(meta(z = 1_i32), opt_out(Debug),)]
#[doc = " c"]
#[doc = " d"]
pub enum EFrwX { #[doc = " e"] #[reflect(meta(v = 1_i32))] #[doc = " f"] A(#[doc = " hidden"] #[reflect(from_reflect_with(frw_or7), skip, meta(no = 1_i32))] u8, #[doc = " a"] #[doc = " b"] #[reflect(meta(m = 1_i32, n = "x"), from_reflect_with(frw_or7),)] u8, STwo), #[reflect(meta(v = 1_i32))] #[doc = " e"] #[doc = " f"] B { #[reflect(from_reflect_with(frw_or7), skip, meta(no = 1_i32))] #[doc = " hidden"] s: u8, #[doc = " a"] #[doc = " b"] #[reflect(meta(m = 1_i32), meta(n = "x"), from_reflect_with(frw_or7),)] x: u8, #[doc = " a"] #[doc = " b"] #[reflect(meta(m = 1_i32, n = "x"), from_reflect_with(frw_tag))] y: String }, #[reflect(meta(no = 1_i32), skip)] #[doc = " e"] H(u8) }
impl Zoo for EFrwX {
    fn tid() -> String { "EFrwX".to_string() }
    fn zabs(&self) -> J { match self { Self::A(x0, x1, x2) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs()])}), Self::B { s: x0, x: x1, y: x2 } => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs()])}), Self::H(x0) => json!({"k": "enum", "var": "H", "f": Vec::<J>::from([x0.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "A" => { let f = arr(j, "f", 3)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?, Zoo::conc(&f[2])?)) }, "B" => { let f = arr(j, "f", 3)?; let _ = &f; Some(Self::B { s: Zoo::conc(&f[0])?, x: Zoo::conc(&f[1])?, y: Zoo::conc(&f[2])? }) }, "H" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::H(Zoo::conc(&f[0])?)) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct CArr<const N: usize> { pub a: [u8; N], pub n: u8, #[reflect(skip,)] pub s: u8 }
impl<const N: usize> Zoo for CArr<N> {
    fn tid() -> String { format!("CArr<{}>", N) }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.n.zabs(), self.s.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, n: Zoo::conc(&f[1])?, s: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct CMix<T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug, const M: usize, const N: usize>(pub T, pub [T; M], pub Vec<[u8; N]>);
impl<T: Reflect + DescribeType + FromReflect + Zoo + Clone + fmt::Debug, const M: usize, const N: usize> Zoo for CMix<T, M, N> {
    fn tid() -> String { format!("CMix<{}, {}, {}>", <T as Zoo>::aid(), M, N) }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs(), self.2.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])?, 2: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
#[reflect(crate_name(crate::mm2))]
pub enum CEnum<const N: usize> { U, A([Option<u8>; N]), B { c: CArr<N>, o: Option<CArr<2>> } }
impl<const N: usize> Zoo for CEnum<N> {
    fn tid() -> String { format!("CEnum<{}>", N) }
    fn zabs(&self) -> J { match self { Self::U => json!({"k": "enum", "var": "U", "f": Vec::<J>::from([])}), Self::A(x0) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs()])}), Self::B { c: x0, o: x1 } => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "U" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::U) }, "A" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?)) }, "B" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::B { c: Zoo::conc(&f[0])?, o: Zoo::conc(&f[1])? }) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct SOwn { pub a: u8, pub b: EOwn, #[reflect(skip)] pub s: u8 }
#[allow(dead_code)]
impl SOwn {
    pub fn to_value(&self) -> u8 { 9 }
    pub fn variant_name(&self) -> &'static str { "own" }
}
impl Zoo for SOwn {
    fn tid() -> String { "SOwn".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.b.zabs(), self.s.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 3)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, b: Zoo::conc(&f[1])?, s: Zoo::conc(&f[2])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub struct TOwn(pub u8, pub SOwn, #[reflect(skip,)] pub u8, pub EOwn);
#[allow(dead_code)]
impl TOwn {
    pub fn to_value(&self) -> u8 { 9 }
    pub fn variant_name(&self) -> &'static str { "own" }
}
impl Zoo for TOwn {
    fn tid() -> String { "TOwn".to_string() }
    fn zabs(&self) -> J { json!({"k": "tstruct", "f": Vec::<J>::from([self.0.zabs(), self.1.zabs(), self.2.zabs(), self.3.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 4)?; let _ = &f; Some(Self { 0: Zoo::conc(&f[0])?, 1: Zoo::conc(&f[1])?, 2: Zoo::conc(&f[2])?, 3: Zoo::conc(&f[3])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum EOwn { U, A(u8, #[reflect(skip)] u8, Vec<EOwn>), B { x: u8, #[reflect(skip)] s: u8, y: Option<Box<TOwn>> }, C((u8, Box<SOwn>)) }
#[allow(dead_code)]
impl EOwn {
    pub fn to_value(&self) -> u8 { 9 }
    pub fn variant_name(&self) -> &'static str { "own" }
}
impl Zoo for EOwn {
    fn tid() -> String { "EOwn".to_string() }
    fn zabs(&self) -> J { match self { Self::U => json!({"k": "enum", "var": "U", "f": Vec::<J>::from([])}), Self::A(x0, x1, x2) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs()])}), Self::B { x: x0, s: x1, y: x2 } => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs(), x1.zabs(), x2.zabs()])}), Self::C(x0) => json!({"k": "enum", "var": "C", "f": Vec::<J>::from([x0.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "U" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::U) }, "A" => { let f = arr(j, "f", 3)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?, Zoo::conc(&f[2])?)) }, "B" => { let f = arr(j, "f", 3)?; let _ = &f; Some(Self::B { x: Zoo::conc(&f[0])?, s: Zoo::conc(&f[1])?, y: Zoo::conc(&f[2])? }) }, "C" => { let f = arr(j, "f", 1)?; let _ = &f; Some(Self::C(Zoo::conc(&f[0])?)) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Reflect)]
#[reflect(opt_out(FromReflect, Clone, Debug),)]
pub struct SOwnF { pub a: EOwn, pub b: u8 }
#[allow(dead_code)]
impl SOwnF {
    pub fn to_value(&self) -> u8 { 9 }
    pub fn variant_name(&self) -> &'static str { "own" }
}
impl FromReflect for SOwnF { fn from_reflect(r: &dyn Reflect) -> Option<Self> { let s = r.as_struct()?; Some(Self { a: FromReflect::from_reflect(s.field("a")?)?, b: FromReflect::from_reflect(s.field("b")?)? }) } }
impl Zoo for SOwnF {
    fn tid() -> String { "SOwnF".to_string() }
    fn zabs(&self) -> J { json!({"k": "struct", "f": Vec::<J>::from([self.a.zabs(), self.b.zabs()])}) }
    fn conc(j: &J) -> Option<Self> { let f = arr(j, "f", 2)?; let _ = &f; Some(Self { a: Zoo::conc(&f[0])?, b: Zoo::conc(&f[1])? }) }
}

#[allow(dead_code, non_snake_case)]
#[derive(Reflect)]
#[reflect(opt_out(Clone, Debug))]
pub enum EOwnC { A(u8, EOwn), B { x: TOwn, y: EOwn }, #[reflect(skip)] H }
#[allow(dead_code)]
impl EOwnC {
    pub fn to_value(&self) -> u8 { 9 }
    pub fn variant_name(&self) -> &'static str { "own" }
}
impl Zoo for EOwnC {
    fn tid() -> String { "EOwnC".to_string() }
    fn zabs(&self) -> J { match self { Self::A(x0, x1) => json!({"k": "enum", "var": "A", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::B { x: x0, y: x1 } => json!({"k": "enum", "var": "B", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::H => json!({"k": "enum", "var": "H", "f": Vec::<J>::from([])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "A" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::A(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?)) }, "B" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::B { x: Zoo::conc(&f[0])?, y: Zoo::conc(&f[1])? }) }, "H" => { let f = arr(j, "f", 0)?; let _ = &f; Some(Self::H) }, _ => None } }
}

#[allow(dead_code, non_snake_case)]
#[derive(Debug, Clone, Reflect)]
pub enum EMut { P(Vec<u8>, Option<u8>), Q { m: BTreeMap<u8, u8>, n: STwo } }
impl Zoo for EMut {
    fn tid() -> String { "EMut".to_string() }
    fn zabs(&self) -> J { match self { Self::P(x0, x1) => json!({"k": "enum", "var": "P", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}), Self::Q { m: x0, n: x1 } => json!({"k": "enum", "var": "Q", "f": Vec::<J>::from([x0.zabs(), x1.zabs()])}) } }
    fn conc(j: &J) -> Option<Self> { match j["var"].as_str()? { "P" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::P(Zoo::conc(&f[0])?, Zoo::conc(&f[1])?)) }, "Q" => { let f = arr(j, "f", 2)?; let _ = &f; Some(Self::Q { m: Zoo::conc(&f[0])?, n: Zoo::conc(&f[1])? }) }, _ => None } }
}

pub fn registry(v: &mut Vec<Entry>) {
v.push(entry::<usize>().dbg::<usize>().from::<usize>());
v.push(entry::<u8>().dbg::<u8>().from::<u8>());
v.push(entry::<u16>().dbg::<u16>().from::<u16>());
v.push(entry::<u32>().dbg::<u32>().from::<u32>());
v.push(entry::<u64>().dbg::<u64>().from::<u64>());
v.push(entry::<u128>().dbg::<u128>().from::<u128>());
v.push(entry::<i8>().dbg::<i8>().from::<i8>());
v.push(entry::<i16>().dbg::<i16>().from::<i16>());
v.push(entry::<i32>().dbg::<i32>().from::<i32>());
v.push(entry::<i64>().dbg::<i64>().from::<i64>());
v.push(entry::<i128>().dbg::<i128>().from::<i128>());
v.push(entry::<bool>().dbg::<bool>().from::<bool>());
v.push(entry::<char>().dbg::<char>().from::<char>());
v.push(entry::<f32>().dbg::<f32>().from::<f32>());
v.push(entry::<f64>().dbg::<f64>().from::<f64>());
v.push(entry::<String>().dbg::<String>().from::<String>());
v.push(entry::<NonZeroUsize>().dbg::<NonZeroUsize>().from::<NonZeroUsize>());
v.push(entry::<NonZeroU8>().dbg::<NonZeroU8>().from::<NonZeroU8>());
v.push(entry::<NonZeroU16>().dbg::<NonZeroU16>().from::<NonZeroU16>());
v.push(entry::<NonZeroU32>().dbg::<NonZeroU32>().from::<NonZeroU32>());
v.push(entry::<NonZeroU64>().dbg::<NonZeroU64>().from::<NonZeroU64>());
v.push(entry::<NonZeroU128>().dbg::<NonZeroU128>().from::<NonZeroU128>());
v.push(entry::<NonZeroI8>().dbg::<NonZeroI8>().from::<NonZeroI8>());
v.push(entry::<NonZeroI16>().dbg::<NonZeroI16>().from::<NonZeroI16>());
v.push(entry::<NonZeroI32>().dbg::<NonZeroI32>().from::<NonZeroI32>());
v.push(entry::<NonZeroI64>().dbg::<NonZeroI64>().from::<NonZeroI64>());
v.push(entry::<NonZeroI128>().dbg::<NonZeroI128>().from::<NonZeroI128>());
v.push(entry::<Unit0>().dbg::<Unit0>().from::<Unit0>());
v.push(entry::<Empty>().dbg::<Empty>().from::<Empty>());
v.push(entry::<SOne>().dbg::<SOne>().from::<SOne>());
v.push(entry::<STwo>().dbg::<STwo>().from::<STwo>());
v.push(entry::<STwoR>().dbg::<STwoR>().from::<STwoR>());
v.push(entry::<SAlt>().dbg::<SAlt>().from::<SAlt>());
v.push(entry::<SAll>().dbg::<SAll>().from::<SAll>());
v.push(entry::<SSkip>().dbg::<SSkip>().from::<SSkip>());
v.push(entry::<SAllSkip>().dbg::<SAllSkip>().from::<SAllSkip>());
v.push(entry::<SNest>().dbg::<SNest>().from::<SNest>());
v.push(entry::<Vec<SSkip>>().from::<Vec<SSkip>>());
v.push(entry::<Option<SSkip>>().from::<Option<SSkip>>());
v.push(entry::<(u8, SSkip)>());
v.push(entry::<ESkipF>().dbg::<ESkipF>().from::<ESkipF>());
v.push(entry::<SNames>().dbg::<SNames>().from::<SNames>());
v.push(entry::<SClone>().dbg::<SClone>().from::<SClone>());
v.push(entry::<Vec<STwo>>().from::<Vec<STwo>>());
v.push(entry::<SCloneIn>().dbg::<SCloneIn>().from::<SCloneIn>());
v.push(entry::<Vec<SClone>>().from::<Vec<SClone>>());
v.push(entry::<SDebug>().from::<SDebug>());
v.push(entry::<Option<STwo>>().from::<Option<STwo>>());
v.push(entry::<Vec<u8>>().from::<Vec<u8>>());
v.push(entry::<BTreeMap<u8, String>>().from::<BTreeMap<u8, String>>());
v.push(entry::<(u8, String)>());
v.push(entry::<SBoth>().from::<SBoth>());
v.push(entry::<SDebug2>().from::<SDebug2>());
v.push(entry::<TDebug>().from::<TDebug>());
v.push(entry::<EDebug>().from::<EDebug>());
v.push(entry::<SFrw>().dbg::<SFrw>().from::<SFrw>());
v.push(entry::<SVal>().dbg::<SVal>().from::<SVal>());
v.push(entry::<Value>().dbg::<Value>().from::<Value>());
v.push(entry::<Vec<Value>>().from::<Vec<Value>>());
v.push(entry::<BTreeMap<Value, Value>>().from::<BTreeMap<Value, Value>>());
v.push(entry::<SMeta>().dbg::<SMeta>().from::<SMeta>());
v.push(entry::<SDocs>().dbg::<SDocs>().from::<SDocs>());
v.push(entry::<TDocs>().dbg::<TDocs>().from::<TDocs>());
v.push(entry::<UDocs>().dbg::<UDocs>().from::<UDocs>());
v.push(entry::<EDocs>().dbg::<EDocs>().from::<EDocs>());
v.push(entry::<SVia>().dbg::<SVia>().from::<SVia>());
v.push(entry::<Duration>().dbg::<Duration>().from::<Duration>());
v.push(entry::<Option<NonZeroU16>>().from::<Option<NonZeroU16>>());
v.push(entry::<SOpq>().dbg::<SOpq>().from::<SOpq>());
v.push(entry::<Opq>().from::<Opq>());
v.push(entry::<SOpqR>().dbg::<SOpqR>().from::<SOpqR>());
v.push(entry::<SNoDef>().dbg::<SNoDef>().from::<SNoDef>());
v.push(entry::<SMaps>().dbg::<SMaps>().from::<SMaps>());
v.push(entry::<BTreeMap<String, i32>>().from::<BTreeMap<String, i32>>());
v.push(entry::<BTreeMap<u8, STwo>>().from::<BTreeMap<u8, STwo>>());
v.push(entry::<BTreeMap<EKey, Vec<u8>>>().from::<BTreeMap<EKey, Vec<u8>>>());
v.push(entry::<EKey>().dbg::<EKey>().from::<EKey>());
v.push(entry::<SArr>().dbg::<SArr>().from::<SArr>());
v.push(entry::<[u8; 3]>().from::<[u8; 3]>());
v.push(entry::<[STwo; 2]>().from::<[STwo; 2]>());
v.push(entry::<[u8; 0]>().from::<[u8; 0]>());
v.push(entry::<[[u8; 2]; 2]>().from::<[[u8; 2]; 2]>());
v.push(entry::<[u8; 2]>().from::<[u8; 2]>());
v.push(entry::<SRange>().dbg::<SRange>().from::<SRange>());
v.push(entry::<Range<i32>>().from::<Range<i32>>());
v.push(entry::<RangeFrom<u8>>().from::<RangeFrom<u8>>());
v.push(entry::<RangeTo<u8>>().from::<RangeTo<u8>>());
v.push(entry::<RangeToInclusive<u8>>().from::<RangeToInclusive<u8>>());
v.push(entry::<RangeFull>().dbg::<RangeFull>().from::<RangeFull>());
v.push(entry::<SKey>().dbg::<SKey>().from::<SKey>());
v.push(entry::<SInf>().dbg::<SInf>().from::<SInf>());
v.push(entry::<Result<u8, Infallible>>().from::<Result<u8, Infallible>>());
v.push(entry_desc::<Infallible>("Infallible"));
v.push(entry::<Option<Infallible>>().from::<Option<Infallible>>());
v.push(entry::<SMut>().dbg::<SMut>().from::<SMut>());
v.push(entry::<EMut>().dbg::<EMut>().from::<EMut>());
v.push(entry::<Option<u8>>().from::<Option<u8>>());
v.push(entry::<BTreeMap<u8, u8>>().from::<BTreeMap<u8, u8>>());
v.push(entry::<SDeep>().dbg::<SDeep>().from::<SDeep>());
v.push(entry::<Vec<Option<Vec<(u8, BTreeMap<String, [Option<EMix>; 2]>)>>>>().from::<Vec<Option<Vec<(u8, BTreeMap<String, [Option<EMix>; 2]>)>>>>());
v.push(entry::<Option<Vec<(u8, BTreeMap<String, [Option<EMix>; 2]>)>>>().from::<Option<Vec<(u8, BTreeMap<String, [Option<EMix>; 2]>)>>>());
v.push(entry::<Vec<(u8, BTreeMap<String, [Option<EMix>; 2]>)>>().from::<Vec<(u8, BTreeMap<String, [Option<EMix>; 2]>)>>());
v.push(entry::<(u8, BTreeMap<String, [Option<EMix>; 2]>)>());
v.push(entry::<BTreeMap<String, [Option<EMix>; 2]>>().from::<BTreeMap<String, [Option<EMix>; 2]>>());
v.push(entry::<[Option<EMix>; 2]>().from::<[Option<EMix>; 2]>());
v.push(entry::<Option<EMix>>().from::<Option<EMix>>());
v.push(entry::<EMix>().dbg::<EMix>().from::<EMix>());
v.push(entry::<RList>().dbg::<RList>().from::<RList>());
v.push(entry::<Option<Box<RList>>>().from::<Option<Box<RList>>>());
v.push(entry::<RTree>().dbg::<RTree>().from::<RTree>());
v.push(entry::<Vec<RTree>>().from::<Vec<RTree>>());
v.push(entry::<BTreeMap<u8, RTree>>().from::<BTreeMap<u8, RTree>>());
v.push(entry::<TZero>().dbg::<TZero>().from::<TZero>());
v.push(entry::<TOne>().dbg::<TOne>().from::<TOne>());
v.push(entry::<TTwo>().dbg::<TTwo>().from::<TTwo>());
v.push(entry::<TSkip>().dbg::<TSkip>().from::<TSkip>());
v.push(entry::<TAllSkip>().dbg::<TAllSkip>().from::<TAllSkip>());
v.push(entry::<TNest>().dbg::<TNest>().from::<TNest>());
v.push(entry::<Vec<TSkip>>().from::<Vec<TSkip>>());
v.push(entry::<Option<TSkip>>().from::<Option<TSkip>>());
v.push(entry::<TFrw>().dbg::<TFrw>().from::<TFrw>());
v.push(entry::<TClone>().dbg::<TClone>().from::<TClone>());
v.push(entry::<Vec<TOne>>().from::<Vec<TOne>>());
v.push(entry::<TMeta>().dbg::<TMeta>().from::<TMeta>());
v.push(entry::<RTup>().dbg::<RTup>().from::<RTup>());
v.push(entry::<Vec<RTup>>().from::<Vec<RTup>>());
v.push(entry::<EUnit>().dbg::<EUnit>().from::<EUnit>());
v.push(entry::<EMixB>().dbg::<EMixB>().from::<EMixB>());
v.push(entry::<EMixC>().dbg::<EMixC>().from::<EMixC>());
v.push(entry::<ESame>().dbg::<ESame>().from::<ESame>());
v.push(entry::<ESkipV>().dbg::<ESkipV>().from::<ESkipV>());
v.push(entry::<ENames>().dbg::<ENames>().from::<ENames>());
v.push(entry::<EClone>().dbg::<EClone>().from::<EClone>());
v.push(entry::<EFrw>().dbg::<EFrw>().from::<EFrw>());
v.push(entry::<EMeta>().dbg::<EMeta>().from::<EMeta>());
v.push(entry::<ERec>().dbg::<ERec>().from::<ERec>());
v.push(entry::<Vec<ERec>>().from::<Vec<ERec>>());
v.push(entry::<EBadDef>().dbg::<EBadDef>().from::<EBadDef>());
v.push(entry::<MutA>().dbg::<MutA>().from::<MutA>());
v.push(entry::<Option<Box<MutB>>>().from::<Option<Box<MutB>>>());
v.push(entry::<MutB>().dbg::<MutB>().from::<MutB>());
v.push(entry::<Vec<MutA>>().from::<Vec<MutA>>());
v.push(entry::<EMutual>().dbg::<EMutual>().from::<EMutual>());
v.push(entry::<BTreeMap<u8, MutB>>().from::<BTreeMap<u8, MutB>>());
v.push(entry::<SFrOut>().dbg::<SFrOut>().from::<SFrOut>());
v.push(entry::<Option<EFrOut>>().from::<Option<EFrOut>>());
v.push(entry::<EFrOut>().dbg::<EFrOut>().from::<EFrOut>());
v.push(entry::<TFrOut>().dbg::<TFrOut>().from::<TFrOut>());
v.push(entry::<Vec<SFrOut>>().from::<Vec<SFrOut>>());
v.push(entry::<ECrate>().from::<ECrate>());
v.push(entry::<TGenI<u8>>().dbg::<TGenI<u8>>().from::<TGenI<u8>>());
v.push(entry::<SFrwC>().dbg::<SFrwC>().from::<SFrwC>());
v.push(entry::<TFrwC>().from::<TFrwC>());
v.push(entry::<EFrwC>().from::<EFrwC>());
v.push(entry::<EFrwX>().from::<EFrwX>());
v.push(entry::<SOwn>().dbg::<SOwn>().from::<SOwn>());
v.push(entry::<EOwn>().dbg::<EOwn>().from::<EOwn>());
v.push(entry::<Vec<EOwn>>().from::<Vec<EOwn>>());
v.push(entry::<Option<Box<TOwn>>>().from::<Option<Box<TOwn>>>());
v.push(entry::<TOwn>().dbg::<TOwn>().from::<TOwn>());
v.push(entry::<(u8, Box<SOwn>)>());
v.push(entry::<SOwnF>().from::<SOwnF>());
v.push(entry::<EOwnC>().from::<EOwnC>());
v.push(entry::<Vec<String>>().from::<Vec<String>>());
v.push(entry::<Vec<f32>>().from::<Vec<f32>>());
v.push(entry::<Vec<Vec<u8>>>().from::<Vec<Vec<u8>>>());
v.push(entry::<Vec<Option<u8>>>().from::<Vec<Option<u8>>>());
v.push(entry::<Vec<EMix>>().from::<Vec<EMix>>());
v.push(entry::<Vec<Box<STwo>>>().from::<Vec<Box<STwo>>>());
v.push(entry::<Vec<(u8, String)>>().from::<Vec<(u8, String)>>());
v.push(entry::<Vec<EClone>>().from::<Vec<EClone>>());
v.push(entry::<Vec<ESkipV>>().from::<Vec<ESkipV>>());
v.push(entry::<Vec<NonZeroU8>>().from::<Vec<NonZeroU8>>());
v.push(entry::<Vec<Duration>>().from::<Vec<Duration>>());
v.push(entry::<Vec<[u8; 2]>>().from::<Vec<[u8; 2]>>());
v.push(entry::<Vec<Opq>>().from::<Vec<Opq>>());
v.push(entry::<Vec<()>>().from::<Vec<()>>());
v.push(entry::<()>());
v.push(entry::<Vec<bool>>().from::<Vec<bool>>());
v.push(entry::<Vec<i64>>().from::<Vec<i64>>());
v.push(entry::<Vec<Box<ERec>>>().from::<Vec<Box<ERec>>>());
v.push(entry::<Vec<SFrw>>().from::<Vec<SFrw>>());
v.push(entry::<[u8; 1]>().from::<[u8; 1]>());
v.push(entry::<[EMix; 2]>().from::<[EMix; 2]>());
v.push(entry::<[SSkip; 1]>().from::<[SSkip; 1]>());
v.push(entry::<[String; 2]>().from::<[String; 2]>());
v.push(entry::<[Vec<u8>; 2]>().from::<[Vec<u8>; 2]>());
v.push(entry::<[NonZeroU8; 0]>().from::<[NonZeroU8; 0]>());
v.push(entry::<[NonZeroU8; 2]>().from::<[NonZeroU8; 2]>());
v.push(entry::<[Opq; 2]>().from::<[Opq; 2]>());
v.push(entry::<[f32; 2]>().from::<[f32; 2]>());
v.push(entry::<[Box<STwo>; 1]>().from::<[Box<STwo>; 1]>());
v.push(entry::<[EClone; 2]>().from::<[EClone; 2]>());
v.push(entry::<BTreeMap<i8, u8>>().from::<BTreeMap<i8, u8>>());
v.push(entry::<BTreeMap<i32, STwo>>().from::<BTreeMap<i32, STwo>>());
v.push(entry::<BTreeMap<EKey, u8>>().from::<BTreeMap<EKey, u8>>());
v.push(entry::<BTreeMap<SKey, u8>>().from::<BTreeMap<SKey, u8>>());
v.push(entry::<BTreeMap<(u8, String), Vec<u8>>>().from::<BTreeMap<(u8, String), Vec<u8>>>());
v.push(entry::<BTreeMap<bool, EMix>>().from::<BTreeMap<bool, EMix>>());
v.push(entry::<BTreeMap<char, u8>>().from::<BTreeMap<char, u8>>());
v.push(entry::<BTreeMap<String, BTreeMap<u8, u8>>>().from::<BTreeMap<String, BTreeMap<u8, u8>>>());
v.push(entry::<BTreeMap<u8, SSkip>>().from::<BTreeMap<u8, SSkip>>());
v.push(entry::<BTreeMap<NonZeroU8, u8>>().from::<BTreeMap<NonZeroU8, u8>>());
v.push(entry::<BTreeMap<Vec<u8>, u8>>().from::<BTreeMap<Vec<u8>, u8>>());
v.push(entry::<BTreeMap<u128, u8>>().from::<BTreeMap<u128, u8>>());
v.push(entry::<BTreeMap<i128, u8>>().from::<BTreeMap<i128, u8>>());
v.push(entry::<BTreeMap<u8, Box<STwo>>>().from::<BTreeMap<u8, Box<STwo>>>());
v.push(entry::<BTreeMap<String, Option<Opq>>>().from::<BTreeMap<String, Option<Opq>>>());
v.push(entry::<Option<Opq>>().from::<Option<Opq>>());
v.push(entry::<BTreeMap<u64, EClone>>().from::<BTreeMap<u64, EClone>>());
v.push(entry::<BTreeMap<Option<u8>, u8>>().from::<BTreeMap<Option<u8>, u8>>());
v.push(entry::<Option<String>>().from::<Option<String>>());
v.push(entry::<Option<Vec<u8>>>().from::<Option<Vec<u8>>>());
v.push(entry::<Option<Option<u8>>>().from::<Option<Option<u8>>>());
v.push(entry::<Option<Box<STwo>>>().from::<Option<Box<STwo>>>());
v.push(entry::<Option<NonZeroU8>>().from::<Option<NonZeroU8>>());
v.push(entry::<Option<f32>>().from::<Option<f32>>());
v.push(entry::<Option<Value>>().from::<Option<Value>>());
v.push(entry::<Option<EClone>>().from::<Option<EClone>>());
v.push(entry::<Result<u8, String>>().from::<Result<u8, String>>());
v.push(entry::<Result<STwo, EUnit>>().from::<Result<STwo, EUnit>>());
v.push(entry::<Result<(), u8>>().from::<Result<(), u8>>());
v.push(entry::<Range<u8>>().from::<Range<u8>>());
v.push(entry::<Range<String>>().from::<Range<String>>());
v.push(entry::<RangeTo<i32>>().from::<RangeTo<i32>>());
v.push(entry::<Range<f32>>().from::<Range<f32>>());
v.push(entry::<(u8,)>());
v.push(entry::<(u8, SSkip, Vec<u8>)>());
v.push(entry::<(Option<u8>, Box<STwo>)>());
v.push(entry::<((u8, u8), (u8,))>());
v.push(entry::<(u8, u8)>());
v.push(entry::<(f32, f64)>());
v.push(entry::<(Value, u8)>());
v.push(entry::<(Opq, u8)>());
v.push(entry::<Gen<u8>>().dbg::<Gen<u8>>().from::<Gen<u8>>());
v.push(entry::<Gen<String>>().dbg::<Gen<String>>().from::<Gen<String>>());
v.push(entry::<Gen<STwo>>().dbg::<Gen<STwo>>().from::<Gen<STwo>>());
v.push(entry::<Gen<Vec<u8>>>().dbg::<Gen<Vec<u8>>>().from::<Gen<Vec<u8>>>());
v.push(entry::<Gen2<u8, String>>().dbg::<Gen2<u8, String>>().from::<Gen2<u8, String>>());
v.push(entry::<Gen2<STwo, u8>>().dbg::<Gen2<STwo, u8>>().from::<Gen2<STwo, u8>>());
v.push(entry::<TGen<u8>>().dbg::<TGen<u8>>().from::<TGen<u8>>());
v.push(entry::<TGen<STwo>>().dbg::<TGen<STwo>>().from::<TGen<STwo>>());
v.push(entry::<EGen<u8>>().dbg::<EGen<u8>>().from::<EGen<u8>>());
v.push(entry::<EGen<String>>().dbg::<EGen<String>>().from::<EGen<String>>());
v.push(entry::<EGen<STwo>>().dbg::<EGen<STwo>>().from::<EGen<STwo>>());
v.push(entry::<CArr<0>>().dbg::<CArr<0>>().from::<CArr<0>>());
v.push(entry::<CArr<1>>().dbg::<CArr<1>>().from::<CArr<1>>());
v.push(entry::<CArr<2>>().dbg::<CArr<2>>().from::<CArr<2>>());
v.push(entry::<CMix<u8, 2, 1>>().dbg::<CMix<u8, 2, 1>>().from::<CMix<u8, 2, 1>>());
v.push(entry::<Vec<[u8; 1]>>().from::<Vec<[u8; 1]>>());
v.push(entry::<CMix<STwo, 1, 3>>().dbg::<CMix<STwo, 1, 3>>().from::<CMix<STwo, 1, 3>>());
v.push(entry::<[STwo; 1]>().from::<[STwo; 1]>());
v.push(entry::<Vec<[u8; 3]>>().from::<Vec<[u8; 3]>>());
v.push(entry::<CEnum<1>>().dbg::<CEnum<1>>().from::<CEnum<1>>());
v.push(entry::<[Option<u8>; 1]>().from::<[Option<u8>; 1]>());
v.push(entry::<Option<CArr<2>>>().from::<Option<CArr<2>>>());
v.push(entry::<CEnum<2>>().dbg::<CEnum<2>>().from::<CEnum<2>>());
v.push(entry::<[Option<u8>; 2]>().from::<[Option<u8>; 2]>());
v.push(entry::<StructValue>().dbg::<StructValue>().from::<StructValue>());
v.push(entry::<EnumValue>().dbg::<EnumValue>().from::<EnumValue>());
v.push(entry::<TupleStructValue>().dbg::<TupleStructValue>().from::<TupleStructValue>());
v.push(entry::<TupleValue>().dbg::<TupleValue>().from::<TupleValue>());
v.push(entry::<(u8, String, i16)>());
v.push(entry::<(u8, String, i16, bool)>());
v.push(entry::<(u8, String, i16, bool, u8)>());
v.push(entry::<(u8, String, i16, bool, u8, String)>());
v.push(entry::<(u8, String, i16, bool, u8, String, i16)>());
v.push(entry::<(u8, String, i16, bool, u8, String, i16, bool)>());
v.push(entry::<(u8, String, i16, bool, u8, String, i16, bool, u8)>());
v.push(entry::<(u8, String, i16, bool, u8, String, i16, bool, u8, String)>());
v.push(entry::<(u8, String, i16, bool, u8, String, i16, bool, u8, String, i16)>());
v.push(entry::<(u8, String, i16, bool, u8, String, i16, bool, u8, String, i16, bool)>());
v.push(entry::<(u8, String, i16, bool, u8, String, i16, bool, u8, String, i16, bool, u8)>());
v.push(entry::<(u8, String, i16, bool, u8, String, i16, bool, u8, String, i16, bool, u8, String)>());
v.push(entry::<(u8, String, i16, bool, u8, String, i16, bool, u8, String, i16, bool, u8, String, i16)>());
v.push(entry::<(u8, String, i16, bool, u8, String, i16, bool, u8, String, i16, bool, u8, String, i16, bool)>());
#[cfg(feature = "glam")] v.push(entry::<Vec2>().dbg::<Vec2>().from::<Vec2>());
#[cfg(feature = "glam")] v.push(entry::<Vec3>().dbg::<Vec3>().from::<Vec3>());
#[cfg(feature = "glam")] v.push(entry::<Mat3>().dbg::<Mat3>().from::<Mat3>());
#[cfg(feature = "macaw")] v.push(entry::<ColorRgba8>().dbg::<ColorRgba8>().from::<ColorRgba8>());
v.push(entry::<[u8; 4]>().from::<[u8; 4]>());
}
