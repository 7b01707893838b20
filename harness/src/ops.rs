//! Operations, their text form (one per line, used in replay files), and value pools.
use crate::model::Policy;

#[derive(Clone, PartialEq, Debug)]
pub enum Fdr {
    H(usize),
    N(u32),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Open { d: Fdr, path: String, rights: u64, fdflags: u16, oflags: u16, ctime: u64 },
    MkOpen { d: Fdr, path: String, ctime: u64 },
    Close(Fdr),
    Renumber(Fdr, Fdr),
    Read(Fdr, usize),
    ReadV(Fdr, Vec<usize>),
    PReadV(Fdr, u64, Vec<usize>),
    Write(Fdr, usize, u32),
    WriteV(Fdr, Vec<usize>, u32),
    PWriteV(Fdr, u64, Vec<usize>, u32),
    Seek(Fdr, i64, u8),
    Tell(Fdr),
    SetSize(Fdr, u64),
    SetLimit(Fdr, u64),
    SetATime(Fdr, u64),
    SetMTime(Fdr, u64),
    /// which: 0 times+limit, 1 wrong node, 2 wrong type, 3 size
    SetMeta(Fdr, u8, u64),
    SetStat(Fdr, u64, u16),
    GetStat(Fdr),
    Meta(Fdr),
    OpenMeta(Fdr, String),
    Mkdir(Fdr, String, u64),
    RmFile(Fdr, String),
    RmDir(Fdr, String),
    RmRec(Fdr, String),
    Link(Fdr, String, Fdr, String),
    Rename(Fdr, String, Fdr, String),
    List(Fdr, Option<u32>, usize),
    GetEntry(Fdr, u32),
    Mount(String, usize, Policy),
    Unmount(String),
    Init(String),
    Store(String),
    WriteMem(usize, u64, usize, u32),
    Reopen,
    ChunkSize(u32),
    ChunkType(u8),
    /// create n files prefix0.. in dir, each closed again
    Burst(Fdr, String, usize),
    /// bits: 1 look up every path, 2 compare a freshly opened copy, 4 storage accounting
    Check(u8),
}

pub fn pattern(len: usize, seed: u32) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(12345) | 1;
    (0..len)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            ((x >> 9) as u8) | 1 // never zero: a zero read is a lost byte
        })
        .collect()
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        // run-length for long names
        let mut j = i;
        while j < b.len() && b[j] == b[i] {
            j += 1;
        }
        if j - i > 8 {
            o.push_str(&format!("{{{}*{}}}", b[i], j - i));
            i = j;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o.push('"');
    o
}
fn unq(s: &str) -> String {
    let s = s.trim_matches('"');
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '{' {
            let c = b[i + 1];
            let mut j = i + 3;
            let mut n = 0usize;
            while b[j] != '}' {
                n = n * 10 + b[j].to_digit(10).unwrap() as usize;
                j += 1;
            }
            for _ in 0..n {
                o.push(c);
            }
            i = j + 1;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
impl std::fmt::Display for Fdr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Fdr::H(h) => write!(f, "h{h}"),
            Fdr::N(n) => write!(f, "#{n}"),
        }
    }
}
fn lens(v: &[usize]) -> String {
    if v.is_empty() {
        return ",".into();
    }
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        use Op::*;
        match self {
            Open { d, path, rights, fdflags, oflags, ctime } => write!(f, "open {d} {} {rights} {fdflags} {oflags} {ctime}", q(path)),
            MkOpen { d, path, ctime } => write!(f, "mkopen {d} {} {ctime}", q(path)),
            Close(a) => write!(f, "close {a}"),
            Renumber(a, b) => write!(f, "renumber {a} {b}"),
            Read(a, n) => write!(f, "read {a} {n}"),
            ReadV(a, v) => write!(f, "readv {a} {}", lens(v)),
            PReadV(a, o, v) => write!(f, "preadv {a} {o} {}", lens(v)),
            Write(a, n, s) => write!(f, "write {a} {n} {s}"),
            WriteV(a, v, s) => write!(f, "writev {a} {} {s}", lens(v)),
            PWriteV(a, o, v, s) => write!(f, "pwritev {a} {o} {} {s}", lens(v)),
            Seek(a, d, w) => write!(f, "seek {a} {d} {w}"),
            Tell(a) => write!(f, "tell {a}"),
            SetSize(a, n) => write!(f, "setsize {a} {n}"),
            SetLimit(a, n) => write!(f, "setlimit {a} {n}"),
            SetATime(a, n) => write!(f, "setatime {a} {n}"),
            SetMTime(a, n) => write!(f, "setmtime {a} {n}"),
            SetMeta(a, w, n) => write!(f, "setmeta {a} {w} {n}"),
            SetStat(a, r, fl) => write!(f, "setstat {a} {r} {fl}"),
            GetStat(a) => write!(f, "getstat {a}"),
            Meta(a) => write!(f, "meta {a}"),
            OpenMeta(a, p) => write!(f, "openmeta {a} {}", q(p)),
            Mkdir(a, p, t) => write!(f, "mkdir {a} {} {t}", q(p)),
            RmFile(a, p) => write!(f, "rmfile {a} {}", q(p)),
            RmDir(a, p) => write!(f, "rmdir {a} {}", q(p)),
            RmRec(a, p) => write!(f, "rmrec {a} {}", q(p)),
            Link(a, p, b, r) => write!(f, "link {a} {} {b} {}", q(p), q(r)),
            Rename(a, p, b, r) => write!(f, "rename {a} {} {b} {}", q(p), q(r)),
            List(a, s, k) => write!(f, "list {a} {} {k}", s.map(|x| x.to_string()).unwrap_or("-".into())),
            GetEntry(a, i) => write!(f, "getentry {a} {i}"),
            Mount(p, m, pol) => {
                let s = match pol {
                    Policy::PrevOrZero => "prevzero".to_string(),
                    Policy::PrevOrPages => "prevpages".to_string(),
                    Policy::Explicit(n) => format!("={n}"),
                    Policy::Pages => "pages".to_string(),
                };
                write!(f, "mount {} {m} {s}", q(p))
            }
            Unmount(p) => write!(f, "unmount {}", q(p)),
            Init(p) => write!(f, "init {}", q(p)),
            Store(p) => write!(f, "store {}", q(p)),
            WriteMem(m, o, n, s) => write!(f, "writemem {m} {o} {n} {s}"),
            Reopen => write!(f, "reopen"),
            ChunkSize(n) => write!(f, "chunksize {n}"),
            ChunkType(n) => write!(f, "chunktype {n}"),
            Burst(a, p, n) => write!(f, "burst {a} {} {n}", q(p)),
            Check(l) => write!(f, "check {l}"),
        }
    }
}
pub fn parse(line: &str) -> Option<Op> {
    // split on spaces outside quotes
    let mut t: Vec<String> = vec![];
    let mut cur = String::new();
    let mut inq = false;
    for c in line.trim().chars() {
        if c == '"' {
            inq = !inq;
            cur.push(c);
        } else if c == ' ' && !inq {
            if !cur.is_empty() {
                t.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        t.push(cur);
    }
    if t.is_empty() || t[0].starts_with("//") {
        return None;
    }
    let fd = |i: usize| -> Fdr {
        let s = &t[i];
        let n = s[1..].parse::<u64>().unwrap();
        if s.starts_with('h') { Fdr::H(n as usize) } else { Fdr::N(n as u32) }
    };
    let s = |i: usize| unq(&t[i]);
    let n = |i: usize| t[i].parse::<u64>().unwrap();
    let ls = |i: usize| -> Vec<usize> {
        if t[i].is_empty() { vec![] } else { t[i].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
    };
    use Op::*;
    Some(match t[0].as_str() {
        "open" => Open { d: fd(1), path: s(2), rights: n(3), fdflags: n(4) as u16, oflags: n(5) as u16, ctime: n(6) },
        "mkopen" => MkOpen { d: fd(1), path: s(2), ctime: n(3) },
        "close" => Close(fd(1)),
        "renumber" => Renumber(fd(1), fd(2)),
        "read" => Read(fd(1), n(2) as usize),
        "readv" => ReadV(fd(1), ls(2)),
        "preadv" => PReadV(fd(1), n(2), ls(3)),
        "write" => Write(fd(1), n(2) as usize, n(3) as u32),
        "writev" => WriteV(fd(1), ls(2), n(3) as u32),
        "pwritev" => PWriteV(fd(1), n(2), ls(3), n(4) as u32),
        "seek" => Seek(fd(1), t[2].parse().unwrap(), n(3) as u8),
        "tell" => Tell(fd(1)),
        "setsize" => SetSize(fd(1), n(2)),
        "setlimit" => SetLimit(fd(1), n(2)),
        "setatime" => SetATime(fd(1), n(2)),
        "setmtime" => SetMTime(fd(1), n(2)),
        "setmeta" => SetMeta(fd(1), n(2) as u8, n(3)),
        "setstat" => SetStat(fd(1), n(2), n(3) as u16),
        "getstat" => GetStat(fd(1)),
        "meta" => Meta(fd(1)),
        "openmeta" => OpenMeta(fd(1), s(2)),
        "mkdir" => Mkdir(fd(1), s(2), n(3)),
        "rmfile" => RmFile(fd(1), s(2)),
        "rmdir" => RmDir(fd(1), s(2)),
        "rmrec" => RmRec(fd(1), s(2)),
        "link" => Link(fd(1), s(2), fd(3), s(4)),
        "rename" => Rename(fd(1), s(2), fd(3), s(4)),
        "list" => List(fd(1), if t[2] == "-" { None } else { Some(n(2) as u32) }, n(3) as usize),
        "getentry" => GetEntry(fd(1), n(2) as u32),
        "mount" => Mount(
            s(1),
            n(2) as usize,
            match t[3].as_str() {
                "prevzero" => Policy::PrevOrZero,
                "prevpages" => Policy::PrevOrPages,
                "pages" => Policy::Pages,
                x => Policy::Explicit(x[1..].parse().unwrap()),
            },
        ),
        "unmount" => Unmount(s(1)),
        "init" => Init(s(1)),
        "store" => Store(s(1)),
        "writemem" => WriteMem(n(1) as usize, n(2), n(3) as usize, n(4) as u32),
        "reopen" => Reopen,
        "chunksize" => ChunkSize(n(1) as u32),
        "chunktype" => ChunkType(n(1) as u8),
        "burst" => Burst(fd(1), s(2), n(3) as usize),
        "check" => Check(n(1) as u8),
        x => panic!("unknown op {x}"),
    })
}
