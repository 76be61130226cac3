//! Threads asking for type descriptors under a given schedule (or freely), recording what they see.
//! Building one of the types K runs `hook(k)`, a metadata expression, which asks for other descriptors, waits for its turn, and panics, as the scenario says.
use mirror_mirror::type_info::{DescribeType, GetMeta, TypeDescriptor};
use mirror_mirror::Reflect;
use serde_json::{json, Value as J};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

type D = Cow<'static, TypeDescriptor>;

#[derive(Debug, Clone, Default, Reflect)]
#[reflect(crate_name(mirror_mirror), meta(b = hook(0)))]
pub struct K0 { a: u8 }
#[derive(Debug, Clone, Default, Reflect)]
#[reflect(crate_name(mirror_mirror), meta(b = hook(1)))]
pub enum K1 { #[default] A, B { x: u16 } }
#[derive(Debug, Clone, Default, Reflect)]
#[reflect(crate_name(mirror_mirror), meta(b = hook(2)))]
pub struct K2(u8, String);
#[derive(Debug, Clone, Default, Reflect)]
#[reflect(crate_name(mirror_mirror), meta(b = hook(2 + std::mem::size_of::<T>())))]
pub struct Kg<T> where T: Reflect + mirror_mirror::FromReflect + DescribeType + Clone + std::fmt::Debug + Default { g: T }

trait Ask: Send + Sync {
    fn ask(&self, way: usize) -> D;
}
struct A<T>(std::marker::PhantomData<fn() -> T>);
impl<T: DescribeType + Reflect + Default> Ask for A<T> {
    fn ask(&self, way: usize) -> D {
        match way % 3 {
            0 => <T as DescribeType>::type_descriptor(),
            1 => Reflect::type_descriptor(&T::default()),
            _ => { let b: Box<dyn Reflect> = Box::new(T::default()); Reflect::type_descriptor(&*b) }
        }
    }
}
fn a<T: DescribeType + Reflect + Default>() -> Box<dyn Ask> { Box::new(A::<T>(std::marker::PhantomData)) }

fn twins() -> (Box<dyn Ask>, Box<dyn Ask>) {
    // two types of one name
    let x = {
        #[derive(Debug, Clone, Default, Reflect)]
        #[reflect(crate_name(mirror_mirror), meta(b = hook(5)))]
        struct Twin { l: u8 }
        a::<Twin>()
    };
    let y = {
        #[derive(Debug, Clone, Default, Reflect)]
        #[reflect(crate_name(mirror_mirror), meta(b = hook(6)))]
        struct Twin { r: u8 }
        a::<Twin>()
    };
    (x, y)
}

#[derive(Debug, Clone, Default, Reflect)]
#[reflect(crate_name(mirror_mirror))]
pub struct Pc<const N: usize> { n: u8 }

macro_rules! many {
    ($v:ident, $($h:literal)*) => { $( many!(@ $v, $h); )* };
    (@ $v:ident, $h:literal) => {
        $v.push(a::<Pc<{ $h * 8 }>>()); $v.push(a::<Pc<{ $h * 8 + 1 }>>()); $v.push(a::<Pc<{ $h * 8 + 2 }>>()); $v.push(a::<Pc<{ $h * 8 + 3 }>>());
        $v.push(a::<Pc<{ $h * 8 + 4 }>>()); $v.push(a::<Pc<{ $h * 8 + 5 }>>()); $v.push(a::<Vec<Pc<{ $h * 8 }>>>()); $v.push(a::<(Pc<{ $h * 8 + 1 }>, u8)>());
    };
}

struct W {
    kinds: Vec<Box<dyn Ask>>,
    asks: Vec<Vec<usize>>,
    guard: Vec<bool>,
    left: Vec<AtomicUsize>,
    log: Mutex<Vec<J>>,
    ids: Mutex<HashMap<usize, usize>>,
    plain: bool,
    turn: Vec<Turn>,
}
struct Turn { st: Mutex<St>, cv: Condvar }
#[derive(Clone, Copy, PartialEq)]
enum St { Idle, Go, Fin, Free }
static WORLD: OnceLock<W> = OnceLock::new();
static WAY: AtomicUsize = AtomicUsize::new(0);
thread_local!(static TH: Cell<usize> = const { Cell::new(usize::MAX) });

fn w() -> &'static W { WORLD.get().unwrap() }
fn log(e: J) { w().log.lock().unwrap().push(e) }

/// waits until the schedule lets this thread go on
fn point() {
    let th = TH.with(|t| t.get());
    if th == usize::MAX { return; }
    let t = &w().turn[th];
    let mut s = t.st.lock().unwrap();
    if *s == St::Free { return; }
    *s = St::Idle;
    t.cv.notify_all();
    while *s == St::Idle { s = t.cv.wait(s).unwrap(); }
}

/// the metadata expression of type k
fn hook(k: usize) -> i32 {
    let th = TH.with(|t| t.get());
    if WORLD.get().is_none() || th == usize::MAX { return k as i32; }
    let w = w();
    for &u in &w.asks[k] {
        point();
        if let Err(e) = request(u) {
            if w.guard[k] { log(json!({"e": "caught", "th": th})); } else { resume_unwind(e); }
        }
    }
    point();
    if w.left[k].fetch_update(SeqCst, SeqCst, |n| n.checked_sub(1)).is_ok() {
        log(json!({"e": "boom", "th": th}));
        resume_unwind(Box::new("boom"));
    }
    k as i32
}

fn text(d: &TypeDescriptor, plain: bool) -> String {
    let name = d.type_name().to_string();
    let ty = d.get_type();
    if plain {
        // everything the descriptor says
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        format!("{d:?}").hash(&mut h);
        return format!("{} {:x}", name, h.finish());
    }
    let b: i32 = ty.get_meta("b").unwrap_or(-1);
    let f = match (d.as_struct(), d.as_tuple_struct(), d.as_enum()) {
        (Some(s), _, _) => s.field_types().map(|f| f.name().to_string()).collect::<Vec<_>>().join(","),
        (_, Some(s), _) => s.field_types().count().to_string(),
        (_, _, Some(e)) => e.variants().map(|v| v.name().to_string()).collect::<Vec<_>>().join("|"),
        _ => "?".into(),
    };
    format!("{} {} {}", name.rsplit("::").next().unwrap().trim_end_matches('>'), f, b)
}

/// one call, observed
fn request(t: usize) -> std::thread::Result<()> {
    let w = w();
    let th = TH.with(|t| t.get());
    log(json!({"e": "call", "th": th, "t": t}));
    match catch_unwind(AssertUnwindSafe(|| w.kinds[t].ask(WAY.fetch_add(1, SeqCst)))) {
        Ok(d) => {
            let (key, keep) = match &d { Cow::Borrowed(p) => (*p as *const TypeDescriptor as usize, true), Cow::Owned(_) => (0, false) };
            let mut ids = w.ids.lock().unwrap();
            let n = ids.len();
            let p = if keep { *ids.entry(key).or_insert(n) } else { ids.insert(usize::MAX - n, n); n };
            drop(ids);
            let text = text(&d, w.plain);
            log(json!({"e": "ret", "th": th, "t": t, "p": p, "d": text}));
            Ok(())
        }
        Err(e) => { log(json!({"e": "unw", "th": th, "t": t})); Err(e) }
    }
}

fn kinds() -> Vec<Box<dyn Ask>> { let (x, y) = twins(); vec![a::<K0>(), a::<K1>(), a::<K2>(), a::<Kg<u8>>(), a::<Kg<u16>>(), x, y] }
struct R(usize);
impl Ask for R { fn ask(&self, _: usize) -> D { (crate::exec::reg().ents[self.0].desc)() } }
fn all() -> Vec<Box<dyn Ask>> {
    let mut seen = std::collections::HashSet::new();
    let ents = &crate::exec::reg().ents;
    let mut v: Vec<Box<dyn Ask>> = (0..ents.len()).filter(|i| seen.insert(ents[*i].id)).map(|i| Box::new(R(i)) as Box<dyn Ask>).collect();
    many!(v, 0 1 2 3 4 5 6 7 8 9 10 11);
    v
}

/// what every descriptor says when asked for alone
pub fn reference() {
    let v = all();
    let mut out = vec![String::new(); v.len()];
    for i in (0..v.len()).rev() { out[i] = text(&v[i].ask(0), true); }
    println!("{}", json!(out));
}

pub fn run(script: &str, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let s: J = serde_json::from_str(&std::fs::read_to_string(script).unwrap()).unwrap();
    let us = |j: &J| j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
    let progs: Vec<Vec<usize>> = s["progs"].as_array().unwrap().iter().map(us).collect();
    let sched = s.get("sched").filter(|x| x.is_array()).map(us);
    let plain = s["plain"].as_bool().unwrap_or(false);
    let kinds = if plain { all() } else { kinds() };
    let nk = kinds.len();
    let asks = if plain { vec![] } else { s["asks"].as_array().unwrap().iter().map(us).chain(std::iter::repeat(vec![])).take(nk).collect() };
    let left = if plain { vec![] } else { us(&s["panics"]).into_iter().chain(std::iter::repeat(0)).take(nk).map(AtomicUsize::new).collect() };
    let guard = if plain { vec![] } else { s["guard"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).chain(std::iter::repeat(false)).take(nk).collect() };
    let turn = progs.iter().map(|_| Turn { st: Mutex::new(if sched.is_some() { St::Go } else { St::Free }), cv: Condvar::new() }).collect();
    let _ = WORLD.set(W { kinds, asks, guard, left, log: Mutex::new(vec![]), ids: Mutex::new(HashMap::new()), plain, turn });
    let start = Arc::new(Barrier::new(progs.len()));
    let hs: Vec<_> = progs.iter().cloned().enumerate().map(|(th, p)| {
        let start = start.clone();
        std::thread::spawn(move || {
            TH.with(|t| t.set(th));
            start.wait();
            for t in p {
                point();
                if request(t).is_err() { log(json!({"e": "caught", "th": th})); }
            }
            let t = &w().turn[th];
            *t.st.lock().unwrap() = St::Fin;
            t.cv.notify_all();
        })
    }).collect();
    let deadline = Instant::now() + Duration::from_secs(30);
    let wait = |th: usize, ms: u64| {
        // until the thread is at a point or through
        let t = &w().turn[th];
        let end = Instant::now() + Duration::from_millis(ms);
        let mut g = t.st.lock().unwrap();
        while *g == St::Go {
            let now = Instant::now();
            if now >= end { return false; }
            g = t.cv.wait_timeout(g, end - now).unwrap().0;
        }
        true
    };
    let mut waited = 0;
    if let Some(sc) = sched {
        for th in 0..hs.len() { wait(th, 5000); }
        let mut stuck = vec![false; hs.len()];
        for th in sc {
            // a thread may have to wait for another one that the schedule holds back: that is no failure, as long as it ends
            if stuck[th] && !wait(th, 0) { continue; }
            stuck[th] = false;
            {
                let t = &w().turn[th];
                let mut g = t.st.lock().unwrap();
                if *g == St::Idle { *g = St::Go; t.cv.notify_all(); }
            }
            if !wait(th, 300) { stuck[th] = true; waited += 1; }
        }
        for t in &w().turn {
            let mut g = t.st.lock().unwrap();
            if *g != St::Fin { *g = St::Free; }
            t.cv.notify_all();
        }
    }
    let mut ok = true;
    for h in hs {
        while !h.is_finished() && Instant::now() < deadline { std::thread::sleep(Duration::from_micros(200)); }
        ok &= h.is_finished();
    }
    let mut l = w().log.lock().unwrap().clone();
    if ok { l.push(json!({"e": "end"})); }
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    writeln!(f, "{}", json!({"e": "proc", "progs": s["progs"], "waited": waited})).unwrap();
    for e in l { writeln!(f, "{e}").unwrap(); }
    f.flush().unwrap();
    std::process::exit(if ok { 0 } else { 3 });
}
