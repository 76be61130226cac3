extern crate mirror_mirror as mm2;
mod cache;
mod exec;
mod local;
mod macros;
mod zoo;
use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::time::Duration;
use zoo::Zoo;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "meta" => {
            let names: serde_json::Map<String, J> = exec::reg().ents.iter().map(|e| (e.tid.clone(), json!(e.name))).collect();
            let mut dur = serde_json::Map::new();
            for t in a[2].split(',') {
                let f: f32 = t.parse().unwrap();
                let d = Duration::try_from_secs_f32(f).ok();
                dur.insert(t.to_string(), match d { Some(d) => json!([d.zabs()]), None => json!([]) });
            }
            let durs: Vec<J> = [(0, 0), (1, 0), (0, 500_000_000), (2, 250_000_000), (1, 1), (0, 1), (16777217, 0), (u64::MAX, 999_999_999)].iter().map(|(s, n)| Duration::new(*s, *n).zabs()).collect();
            for d in &durs {
                let t = d["s"]["v"].as_str().unwrap();
                let f: f32 = t.parse().unwrap();
                dur.insert(t.to_string(), match Duration::try_from_secs_f32(f).ok() { Some(d) => json!([d.zabs()]), None => json!([]) });
            }
            println!("{}", json!({"names": names, "dur": dur, "durs": durs}));
        }
        "cacheref" => cache::reference(),
        "cache" => cache::run(&a[2], &a[3]),
        "einf" => exec::einf(),
        "run" => run(&a[2], &a[3]),
        x => panic!("unknown mode {x}"),
    }
}

fn run(script: &str, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::thread::Builder::new().stack_size(64 << 20);
    let (script, out) = (script.to_string(), out.to_string());
    t.spawn(move || {
        let f = std::io::BufReader::new(std::fs::File::open(script).unwrap());
        let mut w = std::io::LineWriter::new(std::fs::File::create(out).unwrap());
        let mut m = exec::Machine::default();
        let mut prev = m.snap();
        for (i, line) in f.lines().enumerate() {
            let line = line.unwrap();
            let op: J = serde_json::from_str(&line).unwrap();
            let before = if op["o"] == "reset" { m.regs.clear(); m.snap() } else { prev };
            let out = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.step(&op))) { Ok(o) => o, Err(_) => json!({"t": "panic"}) };
            let after = m.snap();
            let mut d = Vec::new();
            for (k, v) in &after { if before.get(k) != Some(v) { d.push(json!([k, v])); } }
            for k in before.keys() { if !after.contains_key(k) { d.push(json!([k, {"ty": "-", "st": {"k": "-"}}])); } }
            writeln!(w, "{}", json!({"i": i, "op": op, "out": out, "d": d})).unwrap();
            prev = after;
        }
    }).unwrap().join().unwrap();
}
