mod exec;
mod generate;
mod model;
mod ops;
use exec::*;
use ops::*;
use std::collections::HashMap;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// runs a fixed history; first mismatch, if any
fn run_fixed(cfg: &Config, ops: &[Op]) -> Option<Mismatch> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut run = match Run::new(cfg) {
            Ok(r) => r,
            Err(m) => return Some(m),
        };
        for op in ops {
            if let Err(m) = run.exec(op) {
                return Some(m);
            }
        }
        None
    }));
    r.unwrap_or_default()
}
fn fdrs(op: &mut Op) -> Vec<&mut Fdr> {
    use Op::*;
    match op {
        Open { d, .. } | MkOpen { d, .. } => vec![d],
        Renumber(a, b) => vec![a, b],
        Link(a, _, b, _) | Rename(a, _, b, _) => vec![a, b],
        Close(a) | Read(a, _) | ReadV(a, _) | PReadV(a, ..) | Write(a, ..) | WriteV(a, ..) | PWriteV(a, ..) | Seek(a, ..) | Tell(a)
        | SetSize(a, _) | SetLimit(a, _) | SetATime(a, _) | SetMTime(a, _) | SetMeta(a, ..) | SetStat(a, ..) | GetStat(a) | Meta(a)
        | OpenMeta(a, _) | Mkdir(a, ..) | RmFile(a, _) | RmDir(a, _) | RmRec(a, _) | List(a, ..) | GetEntry(a, _) | Burst(a, ..) => vec![a],
        Mount(..) | Unmount(_) | Init(_) | Store(_) | WriteMem(..) | Reopen | ChunkSize(_) | ChunkType(_) | Check(_) => vec![],
    }
}
fn opens(op: &Op) -> bool {
    matches!(op, Op::Open { .. } | Op::MkOpen { .. } | Op::Link(..) | Op::Rename(..))
}
/// drops the operations not in `keep`, and those using a descriptor of a dropped one
fn project(ops: &[Op], keep: &[bool]) -> Vec<Op> {
    let mut map: HashMap<usize, usize> = HashMap::from([(0, 0)]);
    let (mut old, mut new) = (1usize, 1usize);
    let mut out = vec![];
    for (i, op) in ops.iter().enumerate() {
        let mut op = op.clone();
        let mut ok = keep[i];
        for f in fdrs(&mut op) {
            if let Fdr::H(h) = f {
                match map.get(h) {
                    Some(n) => *f = Fdr::H(*n),
                    None => ok = false,
                }
            }
        }
        if opens(&op) {
            if ok {
                map.insert(old, new);
                new += 1;
            }
            old += 1;
        }
        if ok {
            out.push(op);
        }
    }
    out
}
fn shrink(cfg: &Config, ops: Vec<Op>, prop: &str, budget: Duration) -> (Config, Vec<Op>, Mismatch) {
    let t0 = Instant::now();
    let bad = |c: &Config, o: &[Op]| run_fixed(c, o).filter(|m| m.tags.contains(&prop));
    let mut cur = ops;
    let mut best = match bad(cfg, &cur) {
        Some(m) => m,
        None => return (cfg.clone(), cur, Mismatch { tags: vec![], msg: "not reproduced".into(), at: 0 }),
    };
    cur.truncate(best.at + 1);
    let mut n = (cur.len() / 2).max(1);
    loop {
        let mut changed = false;
        let mut i = 0;
        while i < cur.len() && t0.elapsed() < budget {
            let mut keep = vec![true; cur.len()];
            for k in keep.iter_mut().skip(i).take(n) {
                *k = false;
            }
            let cand = project(&cur, &keep);
            if cand.len() < cur.len()
                && let Some(m) = bad(cfg, &cand)
            {
                cur = cand;
                cur.truncate(m.at + 1);
                best = m;
                changed = true;
            } else {
                i += n;
            }
        }
        if t0.elapsed() > budget || (n == 1 && !changed) {
            break;
        }
        if !changed {
            n = (n / 2).max(1);
        }
    }
    (cfg.clone(), cur, best)
}
fn parse_file(p: &str) -> (String, Config, Vec<Op>) {
    let s = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}"));
    let mut cfg = Config { transient: false, cs: 4096, ct: 2, start: 0 };
    let mut prop = String::new();
    let mut ops = vec![];
    for l in s.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with("//") {
            continue;
        }
        let t: Vec<&str> = l.split(' ').collect();
        match t[0] {
            "property" => prop = t[1].into(),
            "config" => cfg = Config { transient: t[1] == "transient", cs: t[2].parse().unwrap(), ct: t[3].parse().unwrap(), start: t[4].parse().unwrap() },
            _ => ops.extend(parse(l)),
        }
    }
    (prop, cfg, ops)
}
fn main() {
    // assumed by the proofs: the record of a file fits into a block of the smallest size, with room for growth
    assert!(std::mem::size_of::<stable_fs::storage::types::Metadata>() <= 1024);
    if std::env::var("SFH_VERBOSE").is_ok() { std::panic::set_hook(Box::new(|i| eprintln!("{i}"))); } else { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let (prop, cfg, ops) = parse_file(&a[2]);
            let prop = get("--prop").unwrap_or(prop);
            match run_fixed(&cfg, &ops) {
                None => println!("holds: {} operations, no difference from the specification", ops.len()),
                Some(m) => {
                    println!("violated {:?} at operation {}: {}", m.tags, m.at + 1, m.msg);
                    if prop.is_empty() || m.tags.iter().any(|t| *t == prop) {
                        std::process::exit(1);
                    }
                }
            }
        }
        Some("search") => search(
            &get("--prop").unwrap_or_default(),
            get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0),
            get("--threads").and_then(|s| s.parse().ok()).unwrap_or(6),
            get("--max").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX),
            get("--out"),
            a.iter().any(|x| x == "--any"),
        ),
        _ => {
            eprintln!("usage: sfh search --prop ID --seed N --secs T [--threads N] [--out FILE] | sfh replay FILE");
            std::process::exit(2);
        }
    }
}
fn search(prop: &str, seed: u64, secs: f64, threads: usize, max: u64, out: Option<String>, any: bool) {
    let t0 = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let hist = Arc::new(AtomicU64::new(0));
    let nops = Arc::new(AtomicU64::new(0));
    let foreign = Arc::new(Mutex::new(HashMap::<String, u64>::new()));
    let kinds = Arc::new(Mutex::new(HashMap::<String, u64>::new()));
    let found: Arc<Mutex<Option<(Config, Vec<Op>, Mismatch)>>> = Arc::new(Mutex::new(None));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (stop, hist, nops, foreign, found, kinds) = (stop.clone(), hist.clone(), nops.clone(), foreign.clone(), found.clone(), kinds.clone());
            let prop = prop.to_string();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut k = 0u64;
                    let mut mine: HashMap<String, u64> = HashMap::new();
                    while !stop.load(Ordering::Relaxed) && t0.elapsed().as_secs_f64() < secs {
                        let no = k * threads as u64 + t as u64;
                        if no >= max {
                            break;
                        }
                        k += 1;
                        let (cfg, ops, m) = generate::history(&prop, seed, no);
                        hist.fetch_add(1, Ordering::Relaxed);
                        nops.fetch_add(ops.len() as u64, Ordering::Relaxed);
                        for o in &ops {
                            *mine.entry(o.to_string().split(' ').next().unwrap().to_string()).or_default() += 1;
                        }
                        if let Some(m) = m {
                            if any || m.tags.iter().any(|t| *t == prop) {
                                let mut f = found.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((cfg, ops, m));
                                }
                                stop.store(true, Ordering::Relaxed);
                            } else {
                                if m.tags.contains(&"INTERNAL") && std::env::var("SFH_VERBOSE").is_ok() {
                                    eprintln!("INTERNAL {}", m.msg);
                                }
                                *foreign.lock().unwrap().entry(m.tags.join("+")).or_default() += 1;
                            }
                        }
                    }
                    let mut g = kinds.lock().unwrap();
                    for (k, v) in mine {
                        *g.entry(k).or_default() += v;
                    }
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let found = found.lock().unwrap().take();
    let js = |m: &HashMap<String, u64>| {
        let mut v: Vec<_> = m.iter().collect();
        v.sort();
        format!("{{{}}}", v.iter().map(|(k, n)| format!("\"{k}\": {n}")).collect::<Vec<_>>().join(", "))
    };
    let mut viol = false;
    if let Some((cfg, ops, m0)) = found {
        let p = if any { m0.tags[0].to_string() } else { prop.to_string() };
        let (cfg, ops, m) = shrink(&cfg, ops, &p, Duration::from_secs(20));
        let m = if m.tags.is_empty() { m0 } else { m };
        let mut s = format!("// {}\n// replay: sfh replay <this file>\nproperty {p}\n{cfg}\n", m.msg.replace('\n', " "));
        for o in &ops {
            s += &format!("{o}\n");
        }
        match &out {
            Some(f) => std::fs::File::create(f).unwrap().write_all(s.as_bytes()).unwrap(),
            None => print!("{s}"),
        }
        println!("FOUND {:?} {}", m.tags, m.msg.replace('\n', " "));
        viol = true;
    }
    println!(
        "STATS {{\"histories\": {}, \"operations\": {}, \"abandoned\": {}, \"kinds\": {}, \"wall_s\": {:.1}}}",
        hist.load(Ordering::Relaxed),
        nops.load(Ordering::Relaxed),
        js(&foreign.lock().unwrap()),
        js(&kinds.lock().unwrap()),
        t0.elapsed().as_secs_f64()
    );
    if viol {
        std::process::exit(1);
    }
}
