//! Types declared where their names have unusual paths or arguments; the expected names and fields are listed, in the
//! same order, in gen/ops.py (LOCAL).
use mirror_mirror::type_info::TypeDescriptor;
use mirror_mirror::{DescribeType, Reflect};
use std::borrow::Cow;
use std::fmt::Debug;
use std::marker::PhantomData;

pub struct Local { pub desc: Cow<'static, TypeDescriptor>, pub name: &'static str }
fn l<T: DescribeType>() -> Local { Local { desc: T::type_descriptor(), name: std::any::type_name::<T>() } }

#[derive(Reflect, Clone, Debug)] struct CC<const X: char>(u8);
#[derive(Reflect, Clone, Debug)] struct CI<const X: i64>(u8);
#[derive(Reflect, Clone, Debug)] struct CU<const X: u128>(u8);
#[derive(Reflect, Clone, Debug)] struct CB<const X: bool, const Y: usize> { a: [u8; Y] }
#[derive(Reflect, Clone, Debug)] struct PH<T: Clone + Debug + Send + Sync + 'static> { #[reflect(skip)] p: PhantomData<T>, x: u8 }
#[derive(Reflect, Clone, Debug)] struct H<T: Clone + Debug + Reflect + DescribeType + mirror_mirror::FromReflect> { a: T, b: Vec<T>, c: Option<(T, u8)> }
#[derive(Reflect, Clone, Debug)] enum HE<const X: char, T: Clone + Debug + Reflect + DescribeType + mirror_mirror::FromReflect> { A(T, CC<X>), B { a: [CC<X>; 2], b: PH<fn(CC<X>) -> u8> }, C }

#[allow(dead_code)] #[derive(Clone, Debug)] struct L<'a>(&'a u8);
#[allow(dead_code)] #[derive(Clone, Debug)] struct L2<'a, 'b, T>(&'a u8, &'b u8, T);
#[allow(dead_code)] #[derive(Clone, Debug)] struct L3<'a, const N: usize>(&'a u8);

trait Tr { fn go() -> Vec<Local>; }
impl Tr for u8 { fn go() -> Vec<Local> {
    #[derive(Reflect, Clone, Debug)] struct InImpl { a: u8 }
    #[derive(Reflect, Clone, Debug)] enum InImplE { A(InImpl), #[allow(dead_code)] B { a: Vec<InImpl> } }
    let _ = InImplE::A(InImpl { a: 1 });
    vec![l::<InImpl>(), l::<InImplE>(), l::<H<InImpl>>()]
} }
impl<T> Tr for Vec<T> { fn go() -> Vec<Local> {
    #[derive(Reflect, Clone, Debug)] struct InVec(u8, #[reflect(skip)] u16);
    vec![l::<InVec>(), l::<H<InVec>>()]
} }
impl Tr for (u8, [u16; 3]) { fn go() -> Vec<Local> {
    let f = || { #[derive(Reflect, Clone, Debug)] struct InTuple(u8, u16); vec![l::<InTuple>(), l::<H<InTuple>>()] };
    f()
} }
struct G<T>(PhantomData<T>);
impl<T> G<T> { fn go() -> Vec<Local> {
    #[derive(Reflect, Clone, Debug)] struct InGen { a: u8 }
    vec![l::<InGen>(), l::<H<InGen>>()]
} }
fn outer<T>() -> Vec<Local> {
    #[derive(Reflect, Clone, Debug)] struct InFn { a: u8 }
    let f = || {
        #[derive(Reflect, Clone, Debug)] struct InClosure { a: InFn }
        let g = || { #[derive(Reflect, Clone, Debug)] struct InClosure2(InClosure); vec![l::<InClosure>(), l::<InClosure2>(), l::<H<InClosure2>>()] };
        g()
    };
    let mut v = vec![l::<InFn>()];
    v.extend(f());
    v
}
mod r#mod { pub mod _priv { use mirror_mirror::Reflect;
    #[derive(Reflect, Clone, Debug)] pub struct _X { pub a: u8 } } }

pub fn all() -> Vec<Local> {
    let mut v = vec![
        l::<CC<'a'>>(), l::<CC<'\''>>(), l::<CC<'"'>>(), l::<CC<'\n'>>(), l::<CC<'\\'>>(), l::<CC<'é'>>(), l::<CC<'\u{1}'>>(), l::<CC<'\0'>>(), l::<CC<' '>>(), l::<CC<'>'>>(),
        l::<CI<-5>>(), l::<CI<0>>(), l::<CI<{ i64::MIN }>>(), l::<CI<{ i64::MAX - 1 }>>(), l::<CU<{ 1 << 70 }>>(), l::<CU<{ u128::MAX - 1 }>>(), l::<CB<true, 3>>(), l::<CB<false, 0>>(),
        l::<H<CI<-5>>>(), l::<H<CC<'a'>>>(),
        l::<PH<fn(u8) -> u8>>(), l::<PH<fn()>>(), l::<PH<&'static [u8]>>(), l::<PH<&'static str>>(), l::<PH<()>>(), l::<PH<(u8,)>>(), l::<PH<[u8; 3]>>(), l::<PH<Option<fn() -> CC<'a'>>>>(),
        l::<PH<&'static (dyn Debug + Send + Sync)>>(), l::<PH<PhantomData<(u8, CC<'a'>)>>>(), l::<PH<&'static &'static u8>>(),
        l::<PH<L<'static>>>(), l::<PH<L2<'static, 'static, Cow<'static, str>>>>(), l::<PH<L3<'static, 3>>>(), l::<PH<(L<'static>, u8)>>(),
        l::<H<PH<&'static [u8]>>>(), l::<HE<'x', u8>>(), l::<HE<'x', PH<fn()>>>(),
        l::<r#mod::_priv::_X>(), l::<H<r#mod::_priv::_X>>(),
    ];
    v.extend(<u8 as Tr>::go()); v.extend(<Vec<u8> as Tr>::go()); v.extend(<(u8, [u16; 3]) as Tr>::go()); v.extend(G::<u8>::go()); v.extend(outer::<u8>());
    v
}
