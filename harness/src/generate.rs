//! Generates histories aimed at one property; the model's current state guides the choices.
use crate::exec::*;
use crate::model::*;
use crate::ops::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Cat {
    Data,
    Vecd,
    Seek,
    Size,
    Limit,
    Meta,
    Create,
    Remove,
    Link,
    Rename,
    Fd,
    Rights,
    Mount,
    List,
    Reopen,
    Chunk,
    Many,
    Names,
    Paths,
    Huge,
    Edge,
}
use Cat::*;
fn weights(p: &str) -> Vec<(Cat, u64)> {
    match p {
        "C01" => vec![(Data, 40), (Vecd, 8), (Seek, 8), (Size, 12), (Create, 8), (Reopen, 2), (Chunk, 2), (Huge, 2), (Edge, 12), (Mount, 4), (Link, 1), (Remove, 2), (Fd, 2)],
        "C02" => vec![(Data, 30), (Size, 14), (Create, 16), (Remove, 8), (Mount, 8), (Meta, 5), (Link, 3), (Rename, 3), (Many, 1), (Edge, 10), (Reopen, 2), (Huge, 1), (Fd, 4), (Chunk, 4)],
        "C03" => vec![(Data, 26), (Size, 30), (Create, 10), (Remove, 5), (Edge, 16), (Reopen, 3), (Chunk, 3), (Seek, 3), (Limit, 2), (Huge, 2), (Fd, 3)],
        "C04" => vec![(Data, 20), (Limit, 25), (Huge, 25), (Size, 14), (Vecd, 6), (Seek, 4), (Create, 8), (Mount, 5), (Edge, 4), (Fd, 2), (Meta, 3), (Chunk, 1)],
        "C05" => vec![(Data, 20), (Size, 14), (Create, 16), (Remove, 18), (Link, 8), (Rename, 8), (Fd, 10), (Edge, 8), (Reopen, 4), (Many, 1), (Mount, 3), (Chunk, 3)],
        "C06" => vec![(Create, 26), (Remove, 18), (Link, 8), (Rename, 12), (List, 8), (Paths, 10), (Many, 2), (Names, 6), (Reopen, 3), (Fd, 5), (Data, 2)],
        "C07" => vec![(Paths, 40), (Create, 24), (Remove, 14), (Rename, 14), (Link, 5), (Many, 1), (Names, 4), (Reopen, 2), (Fd, 3)],
        "C08" => vec![(Link, 26), (Rename, 28), (Create, 16), (Remove, 12), (Data, 8), (Fd, 8), (Mount, 5), (Reopen, 3), (Meta, 2), (Many, 1), (Chunk, 1)],
        "C09" => vec![(Fd, 40), (Create, 24), (Data, 6), (Remove, 8), (Rename, 4), (Link, 4), (Rights, 6), (Reopen, 1), (Meta, 6)],
        "C10" => vec![(Seek, 26), (Vecd, 28), (Data, 24), (Size, 5), (Create, 8), (Rights, 8), (Fd, 4), (Mount, 2), (Edge, 4), (Chunk, 1)],
        "C11" => vec![(Rights, 40), (Data, 16), (Vecd, 18), (Size, 6), (Create, 10), (Fd, 6), (Seek, 2), (Mount, 2)],
        "C12" => vec![(Remove, 30), (Create, 22), (Fd, 16), (Link, 8), (Rename, 14), (Mount, 8), (Data, 2), (Reopen, 2)],
        "C13" => vec![(Mount, 46), (Data, 20), (Size, 8), (Create, 6), (Reopen, 5), (Link, 3), (Rename, 3), (Remove, 4), (Limit, 5), (Meta, 4), (Vecd, 3), (Edge, 3), (Chunk, 2)],
        "C14" => vec![(Reopen, 14), (Data, 18), (Size, 8), (Create, 16), (Remove, 8), (Link, 4), (Rename, 6), (Mount, 8), (Meta, 8), (Limit, 4), (Chunk, 4), (Fd, 3), (Paths, 4), (Many, 1), (Edge, 5)],
        "C15" => vec![(Chunk, 40), (Data, 24), (Size, 8), (Create, 12), (Remove, 8), (Reopen, 12), (Mount, 3)],
        "C16" => vec![(List, 34), (Create, 30), (Remove, 16), (Rename, 6), (Link, 4), (Many, 2), (Names, 3), (Reopen, 4), (Fd, 4)],
        "C17" => vec![(Names, 50), (Create, 14), (Remove, 10), (Rename, 10), (Link, 5), (List, 6), (Paths, 6), (Reopen, 3)],
        "C18" => vec![(Data, 22), (Vecd, 6), (Seek, 5), (Size, 12), (Create, 14), (Remove, 8), (Link, 4), (Rename, 6), (Mount, 8), (List, 5), (Meta, 6), (Limit, 5), (Huge, 2), (Fd, 5), (Edge, 6), (Names, 2), (Paths, 2)],
        "C19" => vec![(Meta, 40), (Limit, 12), (Create, 16), (Data, 10), (Size, 8), (Link, 5), (Rename, 4), (Mount, 6), (Reopen, 5), (Chunk, 4), (Fd, 4)],
        "C20" => vec![(Create, 20), (Remove, 16), (Link, 12), (Rename, 14), (Paths, 10), (Names, 6), (Mount, 8), (Huge, 5), (Seek, 5), (Fd, 6), (Data, 6), (Vecd, 3), (Size, 4), (List, 4), (Meta, 4), (Chunk, 1)],
        _ => vec![
            (Data, 10), (Vecd, 4), (Seek, 4), (Size, 6), (Limit, 3), (Meta, 4), (Create, 12), (Remove, 8), (Link, 4), (Rename, 6), (Fd, 6), (Rights, 3), (Mount, 6),
            (List, 3), (Reopen, 2), (Chunk, 1), (Many, 1), (Names, 2), (Paths, 4), (Huge, 2), (Edge, 4),
        ],
    }
}
pub const ALL: u64 = (1 << 28) - 1;
const RD: u64 = 2;
const WR: u64 = 64;

struct Gen<'a> {
    r: &'a mut Rng,
    run: &'a Run,
    q: Vec<Op>,
    nh: usize,
    prop: &'a str,
    t: u64,
}
impl Gen<'_> {
    fn cs(&self) -> u64 {
        self.run.model.chunk_size as u64
    }
    fn live(&self, want: Option<Kind>) -> Vec<usize> {
        (0..self.run.handles.len())
            .filter(|h| {
                self.run.handles[*h].is_some()
                    && self.run.model.fds.get(&self.run.last_fd[*h]).is_some_and(|f| want.is_none_or(|k| f.kind == k))
            })
            .collect()
    }
    fn wild(&mut self) -> Fdr {
        if self.r.pct(50) && !self.run.handles.is_empty() {
            Fdr::H(self.r.below(self.run.handles.len() as u64) as usize)
        } else {
            Fdr::N(*self.r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 100, 4294967295, 4294967294]))
        }
    }
    fn wildpct(&self) -> u64 {
        match self.prop {
            "C09" | "C20" => 8,
            _ => 2,
        }
    }
    fn dirfd(&mut self) -> Fdr {
        if self.r.pct(self.wildpct()) {
            return self.wild();
        }
        let v = self.live(Some(Kind::Dir));
        if self.r.pct(65) || v.is_empty() { Fdr::H(0) } else { Fdr::H(*self.r.pick(&v)) }
    }
    fn filefd(&mut self) -> Option<Fdr> {
        if self.r.pct(self.wildpct()) {
            return Some(self.wild());
        }
        let v = self.live(Some(Kind::File));
        if v.is_empty() {
            return None;
        }
        // prefer recent ones
        let n = v.len();
        Some(Fdr::H(if self.r.pct(50) { v[n - 1 - self.r.below(3.min(n as u64)) as usize] } else { *self.r.pick(&v) }))
    }
    fn node_of(&self, f: &Fdr) -> Option<usize> {
        let n = match f {
            Fdr::H(h) => *self.run.last_fd.get(*h)?,
            Fdr::N(n) => *n,
        };
        self.run.model.fds.get(&n).map(|f| f.node)
    }
    fn name(&mut self) -> String {
        if matches!(self.prop, "C17") && self.r.pct(60) || self.r.pct(3) {
            return self.oddname();
        }
        if self.r.pct(if self.prop == "C17" { 50 } else { 3 }) {
            return self.likename();
        }
        self.r.pick(&["a", "b", "c", "d", "e", "f", "g", "x1", "x2", "x10"]).to_string()
    }
    /// a name much like one that is there already
    fn likename(&mut self) -> String {
        let all: Vec<String> = self.run.model.nodes.values().flat_map(|n| n.entries.iter().map(|e| e.1.clone())).collect();
        let mut c: Vec<char> = if all.is_empty() { vec!['k', 'L'] } else { self.r.pick(&all).chars().collect() };
        let i = match self.r.below(3) {
            0 => 0,
            1 => c.len() - 1,
            _ => self.r.below(c.len() as u64) as usize,
        };
        match self.r.below(8) {
            0 | 1 => c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() },
            2 => c[i] = *self.r.pick(&['a', 'z', '\0', ' ', '\u{7f}', 'ÿ']),
            3 => {
                let x = *self.r.pick(&['a', '.', '\0', ' ', 'é']);
                c.push(x);
            }
            4 => {
                let x = *self.r.pick(&['.', '\0', ' ', 'a']);
                c.insert(0, x);
            }
            5 => {
                c.pop();
            }
            6 => {
                c.remove(i);
            }
            _ => c = c.iter().flat_map(|x| if x.is_ascii_lowercase() { x.to_ascii_uppercase().to_string() } else { x.to_ascii_lowercase().to_string() }.chars().collect::<Vec<_>>()).collect(),
        }
        let s: String = c.into_iter().collect();
        if s.is_empty() || s == "." || s == ".." { "K".into() } else { s }
    }
    fn oddname(&mut self) -> String {
        let l = *self.r.pick(&[1usize, 2, 7, 8, 63, 64, 127, 128, 200, 253, 254, 255, 255, 256, 257, 300, 511, 512]);
        let c = *self.r.pick(&['n', 'm', 'é', '☃']);
        let k = l / c.len_utf8();
        let mut s: String = std::iter::repeat_n(c, k).collect();
        while s.len() < l {
            s.push('z');
        }
        match self.r.below(10) {
            0 => "...".into(),
            1 => "a b".into(),
            2 => ".a".into(),
            3 => "a.".into(),
            4 => "..a".into(),
            5 => "a\\b".into(),
            6 => {
                s.pop();
                s.push('q');
                s
            }
            _ => s,
        }
    }
    fn node_of_dir(&self, f: &Fdr) -> usize {
        self.node_of(f).filter(|n| self.run.model.nodes.get(n).is_some_and(|x| x.meta.kind == Kind::Dir)).unwrap_or(0)
    }
    /// path of an existing node of the wanted kind below the directory
    fn existing(&mut self, d: &Fdr, want: Option<Kind>) -> Option<String> {
        let mut n = self.node_of_dir(d);
        let mut p: Vec<String> = vec![];
        let mut best: Option<String> = None;
        for _ in 0..4 {
            let es = &self.run.model.nodes[&n].entries;
            if es.is_empty() {
                break;
            }
            let es: Vec<_> = es.clone();
            let c: Vec<_> = es.iter().filter(|e| want.is_none_or(|k| self.run.model.nodes[&e.2].meta.kind == k)).collect();
            let dirs: Vec<_> = es.iter().filter(|e| self.run.model.nodes[&e.2].meta.kind == Kind::Dir).collect();
            if !c.is_empty() {
                let e = *self.r.pick(&c);
                let mut q = p.clone();
                q.push(e.1.clone());
                best = Some(q.join("/"));
                if self.r.pct(50) {
                    break;
                }
            }
            if dirs.is_empty() {
                break;
            }
            let e = *self.r.pick(&dirs);
            p.push(e.1.clone());
            n = e.2;
        }
        best
    }
    fn fresh_path(&mut self, d: &Fdr) -> String {
        let mut p = if self.r.pct(45) { self.existing(d, Some(Kind::Dir)).unwrap_or_default() } else { String::new() };
        if self.r.pct(12) {
            if !p.is_empty() {
                p.push('/');
            }
            p += &self.name();
        }
        if !p.is_empty() {
            p.push('/');
        }
        p + &self.name()
    }
    fn decorate(&mut self, p: String) -> String {
        let deco = match self.prop {
            "C07" => 55,
            "C06" | "C20" => 15,
            _ => 4,
        };
        if !self.r.pct(deco) {
            return p;
        }
        let mut parts: Vec<String> = p.split('/').map(|s| s.to_string()).collect();
        for _ in 0..1 + self.r.below(3) {
            let i = self.r.below(parts.len() as u64 + 1) as usize;
            match self.r.below(9) {
                0 => parts.insert(i, ".".into()),
                1 => parts.insert(i.max(1).min(parts.len()), "".into()),
                2 => {
                    let n = self.name();
                    parts.insert(i, n);
                    parts.insert(i + 1, "..".into());
                }
                3 => parts.insert(i, "..".into()),
                4 => parts.push("".into()),
                5 => parts.push(".".into()),
                6 => parts.push("..".into()),
                7 => {
                    if self.r.pct(20) {
                        parts.insert(0, "".into());
                    }
                }
                _ => {
                    let n = self.name();
                    parts.insert(i, n);
                }
            }
        }
        if self.r.pct(3) {
            return (*self.r.pick(&["", ".", "..", "/", "/a", "./", "a/..", "..//a", "a//../.."])).to_string();
        }
        parts.join("/")
    }
    fn path(&mut self, d: &Fdr, want: Option<Kind>, exist: u64) -> String {
        let p = if self.r.pct(exist) { self.existing(d, want) } else { None };
        let p = match p {
            Some(p) => p,
            None => self.fresh_path(d),
        };
        self.decorate(p)
    }
    fn len(&mut self) -> usize {
        let cs = self.cs();
        let big = if cs > 20000 { 3 } else { 6 };
        (match self.r.below(14) {
            0 => 0,
            1 => 1,
            2 => 2 + self.r.below(8),
            3 => 100 + self.r.below(200),
            4 => cs - 1,
            5 => cs,
            6 => cs + 1,
            7 => cs * 2,
            8 => cs * self.r.below(big) + self.r.below(4),
            9 => self.r.below(cs),
            10 => 4096 * (1 + self.r.below(3)),
            11 => self.r.below(cs * big),
            _ => 1 + self.r.below(40),
        }) as usize
    }
    fn off(&mut self, node: Option<usize>) -> u64 {
        let cs = self.cs();
        let size = node.and_then(|n| self.run.model.nodes.get(&n)).map(|n| n.eff().size).unwrap_or(0).min(1 << 60);
        let j = [0u64, 0, 0, 1, 2, cs - 1, cs / 2];
        match self.r.below(16) {
            0 => 0,
            1 => size,
            2 => size + 1,
            3 => size.saturating_sub(1),
            4 => size / cs * cs,
            5 => (size / cs + 1) * cs,
            6 => size.div_ceil(cs) * cs + self.r.below(3) * cs,
            7 => self.r.below(6) * cs + *self.r.pick(&j),
            8 => (self.r.below(6) * cs).saturating_sub(1),
            9 => self.r.below(size + 1),
            10 => self.r.below(size + 3 * cs),
            11 => *self.r.pick(&[98u64, 99, 100, 101, 199, 200, 256, 1023, 1024, 1025]) * cs + *self.r.pick(&j),
            12 => 4096 * self.r.below(40) + *self.r.pick(&[0, 1, 4095]),
            13 => self.r.below(cs),
            _ => self.r.below(200),
        }
    }
    fn huge(&mut self, node: Option<usize>) -> u64 {
        let cs = self.cs();
        let max = node.and_then(|n| self.run.model.nodes.get(&n)).map(|n| n.eff().max()).unwrap_or(1 << 43);
        let full = (u32::MAX as u64 - 10) * 4096;
        let b = *self.r.pick(&[
            max, max, max, full, (u32::MAX as u64) * cs, (u32::MAX as u64) * 4096, (1u64 << 32) * cs, 1 << 32, 1 << 31, i64::MAX as u64, u64::MAX, 1 << 40, 1 << 63,
            max / cs * cs,
        ]);
        match self.r.below(8) {
            0 => b.wrapping_sub(self.r.below(10)),
            1 => b.wrapping_add(self.r.below(10)),
            2 => b.wrapping_sub(cs),
            3 => b.wrapping_add(cs),
            4 => b.wrapping_sub(self.r.below(3 * cs)),
            _ => b,
        }
    }
    fn lens(&mut self) -> Vec<usize> {
        let n = *self.r.pick(&[0u64, 1, 1, 2, 2, 3, 4, 6]);
        (0..n).map(|_| if self.r.pct(60) { self.r.below(60) as usize } else { self.len() }).collect()
    }
    fn seed(&mut self) -> u32 {
        self.r.next() as u32 & 0xffff
    }
    fn time(&mut self) -> u64 {
        self.t += 1;
        if self.r.pct(6) { *self.r.pick(&[0, u64::MAX, 1 << 63, 1 << 32]) } else { 1000 + self.t }
    }
    fn open(&mut self, d: Fdr, path: String, create: u64) {
        let rights = if self.prop == "C11" || self.r.pct(6) {
            *self.r.pick(&[0u64, RD, WR, RD | WR, ALL, ALL & !RD, ALL & !WR, RD | 4, WR | 1, 1, ALL & !(1 << 22), ALL & !(1 << 10), ALL & !(1 << 18)])
        } else {
            ALL
        };
        let fdf = if self.r.pct(if self.prop == "C10" { 25 } else { 6 }) { *self.r.pick(&[1u16, 1, 1, 2, 4, 8, 16]) } else { 0 };
        let mut of = if self.r.pct(create) { 1u16 } else { 0 };
        if self.r.pct(6) {
            of |= 2;
        }
        if self.r.pct(7) {
            of |= 4;
        }
        if self.r.pct(if self.prop == "C03" || self.prop == "C05" { 15 } else { 5 }) {
            of |= 8;
        }
        let ctime = self.time();
        self.q.push(Op::Open { d, path, rights, fdflags: fdf, oflags: of, ctime });
        self.nh += 1;
    }
    fn make(&mut self, c: Cat) {
        match c {
            Data => {
                let Some(f) = self.filefd() else { return self.make(Create) };
                let n = self.node_of(&f);
                if self.r.pct(3) {
                    self.q.push(Op::SetMeta(f.clone(), 4, 0));
                }
                match self.r.below(10) {
                    0..=2 => {
                        let (o, l, s) = (self.off(n), self.len(), self.seed());
                        self.q.push(Op::PWriteV(f, o, vec![l], s));
                    }
                    3 | 4 => {
                        let o = self.off(n) as i64;
                        self.q.push(Op::Seek(f.clone(), o, 0));
                        let (l, s) = (self.len(), self.seed());
                        self.q.push(Op::Write(f, l, s));
                    }
                    5 => {
                        let (l, s) = (self.len(), self.seed());
                        self.q.push(Op::Write(f, l, s));
                    }
                    6 | 7 => {
                        let (o, l) = (self.off(n), self.len());
                        self.q.push(Op::PReadV(f, o, vec![l]));
                    }
                    8 => {
                        let l = self.len();
                        self.q.push(Op::Read(f, l));
                    }
                    _ => {
                        let o = self.off(n) as i64;
                        self.q.push(Op::Seek(f.clone(), o, 0));
                        let l = self.len();
                        self.q.push(Op::Read(f, l));
                    }
                }
            }
            Vecd => {
                let Some(f) = self.filefd() else { return self.make(Create) };
                let n = self.node_of(&f);
                let (ls, o, s) = (self.lens(), self.off(n), self.seed());
                self.q.push(match self.r.below(4) {
                    0 => Op::ReadV(f, ls),
                    1 => Op::PReadV(f, o, ls),
                    2 => Op::WriteV(f, ls, s),
                    _ => Op::PWriteV(f, o, ls, s),
                });
            }
            Seek => {
                let Some(f) = self.filefd() else { return self.make(Create) };
                let n = self.node_of(&f);
                let w = self.r.below(3) as u8;
                let d = match self.r.below(10) {
                    0 => 0,
                    1 => *self.r.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1]),
                    2 => self.huge(n) as i64,
                    3 => -(self.r.below(50) as i64),
                    4 => (self.off(n) as i64).wrapping_neg(),
                    _ => {
                        if w == 0 {
                            self.off(n) as i64
                        } else if w == 1 {
                            self.r.below(100) as i64 - 50
                        } else {
                            -(self.r.below(100) as i64) + 3
                        }
                    }
                };
                self.q.push(if self.r.pct(15) { Op::Tell(f) } else { Op::Seek(f, d, w) });
            }
            Size => {
                let Some(f) = self.filefd() else { return self.make(Create) };
                let n = self.node_of(&f);
                let o = self.off(n);
                if self.r.pct(15) {
                    let mut p = None;
                    if let Some(k) = self.existing(&Fdr::H(0), Some(Kind::File)) {
                        p = Some(k);
                    }
                    if let Some(p) = p {
                        let ctime = self.time();
                        self.q.push(Op::Open { d: Fdr::H(0), path: p, rights: ALL, fdflags: 0, oflags: 8, ctime });
                        return;
                    }
                }
                if self.r.pct(12) {
                    self.q.push(Op::SetMeta(f, 3, o));
                } else {
                    self.q.push(Op::SetSize(f, o));
                }
            }
            Limit => {
                let Some(f) = self.filefd() else { return self.make(Create) };
                let n = self.node_of(&f);
                let o = if self.r.pct(85) { self.off(n) } else { self.huge(n) };
                self.q.push(Op::SetLimit(f.clone(), o));
                if self.r.pct(70) {
                    let lim = o;
                    let l = self.len() as u64;
                    let s = self.seed();
                    let j = self.r.below(3);
                    match self.r.below(4) {
                        0 => self.q.push(Op::SetSize(f, lim.saturating_add(j).saturating_sub(1))),
                        1 => self.q.push(Op::PWriteV(f, lim.saturating_add(j).saturating_sub(1).saturating_sub(l), vec![l as usize], s)),
                        2 => self.q.push(Op::PWriteV(f, lim.saturating_add(j).saturating_sub(1), vec![0], s)),
                        _ => {
                            let a = (l / 2) as usize;
                            self.q.push(Op::PWriteV(f, lim.saturating_add(j).saturating_sub(1).saturating_sub(l), vec![a, l as usize - a], s));
                        }
                    }
                }
            }
            Huge => {
                let Some(f) = self.filefd() else { return self.make(Create) };
                let n = self.node_of(&f);
                let (h, s) = (self.huge(n), self.seed());
                let l = *self.r.pick(&[0usize, 1, 2, 3, 10, 5000]);
                match self.r.below(8) {
                    0 | 1 => self.q.push(Op::PWriteV(f, h, vec![l], s)),
                    2 => self.q.push(Op::SetSize(f, h)),
                    3 => self.q.push(Op::PReadV(f, h, vec![l])),
                    4 => {
                        self.q.push(Op::Seek(f.clone(), h as i64, 0));
                        self.q.push(if self.r.pct(50) { Op::Write(f, l, s) } else { Op::Read(f, l) });
                    }
                    5 => {
                        let m = n.and_then(|n| self.run.model.nodes.get(&n)).map(|x| x.eff().max()).unwrap_or(1 << 43);
                        self.q.push(Op::PWriteV(f.clone(), m.saturating_sub(l as u64), vec![l, 1], s));
                        self.q.push(Op::PReadV(f, m.saturating_sub(l as u64 + 3), vec![l + 10]));
                    }
                    6 => self.q.push(Op::SetLimit(f, h)),
                    _ => self.q.push(Op::SetMeta(f, 3, h)),
                }
            }
            Meta => {
                let v = self.live(None);
                let f = if self.r.pct(50) {
                    match self.filefd() {
                        Some(f) => f,
                        None => Fdr::H(*self.r.pick(&v)),
                    }
                } else {
                    Fdr::H(*self.r.pick(&v))
                };
                let n = self.node_of(&f);
                let t = self.time();
                match self.r.below(10) {
                    0 => self.q.push(Op::SetATime(f, t)),
                    1 => self.q.push(Op::SetMTime(f, t)),
                    2..=4 => {
                        let w = self.r.below(5) as u8;
                        let o = if w == 3 { self.off(n) } else { t };
                        self.q.push(Op::SetMeta(f, w, o));
                    }
                    5 | 6 => self.q.push(Op::Meta(f)),
                    7 => {
                        let d = self.dirfd();
                        let p = self.path(&d, None, 90);
                        self.q.push(Op::OpenMeta(d, p));
                    }
                    8 => self.q.push(Op::GetStat(f)),
                    _ => self.make(Rights),
                }
            }
            Create => {
                let d = self.dirfd();
                match self.r.below(12) {
                    0 | 1 => {
                        let p = self.path(&d, Some(Kind::Dir), 20);
                        let t = self.time();
                        self.q.push(Op::Mkdir(d, p, t));
                    }
                    2 => {
                        let p = self.path(&d, Some(Kind::Dir), 20);
                        let t = self.time();
                        self.q.push(Op::MkOpen { d, path: p, ctime: t });
                    }
                    3 => {
                        let p = self.path(&d, Some(Kind::Dir), 90);
                        self.open(d, p, 5);
                    }
                    4 => {
                        let p = self.path(&d, None, 70);
                        let ctime = self.time();
                        self.q.push(Op::Open { d, path: p, rights: ALL, fdflags: 0, oflags: 3, ctime });
                    }
                    _ => {
                        let p = self.path(&d, Some(Kind::File), 40);
                        self.open(d, p, 80);
                    }
                }
            }
            Remove => {
                let d = self.dirfd();
                match self.r.below(10) {
                    0..=4 => {
                        // make room for success: close its descriptors now and then
                        let p = self.path(&d, Some(Kind::File), 92);
                        if self.r.pct(60)
                            && let Ok(n) = self.run.model.find(self.node_of_dir(&d), &p)
                        {
                            for h in self.live(Some(Kind::File)) {
                                if self.node_of(&Fdr::H(h)) == Some(n) {
                                    self.q.push(Op::Close(Fdr::H(h)));
                                }
                            }
                        }
                        self.q.push(Op::RmFile(d, p));
                    }
                    5 => {
                        let p = self.path(&d, Some(Kind::Dir), 50);
                        self.q.push(Op::RmFile(d, p));
                    }
                    6 => {
                        let p = self.path(&d, Some(Kind::File), 90);
                        self.q.push(Op::RmDir(d, p));
                    }
                    7 | 8 => {
                        let p = self.path(&d, Some(Kind::Dir), 92);
                        self.q.push(Op::RmDir(d, p));
                    }
                    _ => {
                        let p = self.path(&d, None, 92);
                        if self.prop != "C20" {
                            for h in self.live(Some(Kind::File)) {
                                if self.r.pct(70) {
                                    self.q.push(Op::Close(Fdr::H(h)));
                                }
                            }
                        }
                        self.q.push(Op::RmRec(d, p));
                    }
                }
            }
            Link | Rename => {
                let (a, b) = (self.dirfd(), self.dirfd());
                let k = if self.r.pct(if c == Link { 85 } else { 60 }) { Kind::File } else { Kind::Dir };
                let p = self.path(&a, Some(k), 92);
                let k2 = if self.r.pct(80) { k } else { Kind::Dir };
                let mut r = self.path(&b, Some(k2), 45);
                if self.r.pct(5) {
                    r = p.clone();
                }
                if self.r.pct(6) && k == Kind::Dir {
                    r = format!("{p}/{}", self.name());
                }
                if self.r.pct(55)
                    && let Ok(n) = self.run.model.find(self.node_of_dir(&b), &r)
                {
                    for h in self.live(Some(Kind::File)) {
                        if self.node_of(&Fdr::H(h)) == Some(n) {
                            self.q.push(Op::Close(Fdr::H(h)));
                        }
                    }
                }
                self.q.push(if c == Link { Op::Link(a, p, b, r) } else { Op::Rename(a, p, b, r) });
                if self.r.pct(70) {
                    // the returned descriptor keeps the file busy
                    let h = self.run.handles.len() + self.q.iter().filter(|o| matches!(o, Op::Open { .. } | Op::MkOpen { .. } | Op::Link(..) | Op::Rename(..))).count() - 1;
                    self.q.push(Op::Close(Fdr::H(h)));
                }
            }
            Fd => {
                let v = self.live(None);
                match self.r.below(10) {
                    0..=3 => {
                        let f = if self.r.pct(12) { self.wild() } else { Fdr::H(*self.r.pick(&v)) };
                        self.q.push(Op::Close(f));
                    }
                    4..=7 => {
                        let a = if self.r.pct(15) { self.wild() } else { Fdr::H(*self.r.pick(&v)) };
                        let b = if self.r.pct(60) {
                            let mx = self.run.model.fds.keys().max().copied().unwrap_or(3).min(1000);
                            Fdr::N((self.r.below(mx as u64 + 6)) as u32)
                        } else {
                            self.wild()
                        };
                        self.q.push(Op::Renumber(a, b));
                    }
                    8 => {
                        let f = self.wild();
                        self.q.push(Op::Meta(f));
                    }
                    _ => self.make(Create),
                }
            }
            Rights => {
                let v = self.live(None);
                let f = if self.r.pct(80) { self.filefd().unwrap_or(Fdr::H(0)) } else { Fdr::H(*self.r.pick(&v)) };
                match self.r.below(10) {
                    0..=3 => {
                        let rg = *self.r.pick(&[0u64, RD, WR, RD | WR, ALL, ALL & !RD, ALL & !WR, 1 << 22]);
                        let fl = *self.r.pick(&[0u16, 0, 1, 1, 2, 4]);
                        self.q.push(Op::SetStat(f, rg, fl));
                    }
                    4 => self.q.push(Op::GetStat(f)),
                    5 => {
                        let (l, s) = (self.r.below(30) as usize, self.seed());
                        self.q.push(Op::Write(f.clone(), l, s));
                        self.q.push(Op::Read(f, l));
                    }
                    6 => {
                        let (o, s) = (self.r.below(30), self.seed());
                        self.q.push(Op::PWriteV(f.clone(), o, vec![5, 3], s));
                        self.q.push(Op::PReadV(f, o, vec![4, 4]));
                    }
                    7 => {
                        let n = self.node_of(&f);
                        let o = self.off(n);
                        self.q.push(Op::SetSize(f, o));
                    }
                    _ => self.make(Create),
                }
            }
            Mount => {
                let root = Fdr::H(0);
                let mounted: std::vec::Vec<usize> = self.run.model.nodes.iter().filter(|x| x.1.mount.is_some()).map(|x| *x.0).collect();
                let mut p = self.path(&root, Some(Kind::File), 90);
                if !mounted.is_empty() && self.r.pct(75) {
                    let n = *self.r.pick(&mounted);
                    if let Some(q) = self.path_of(n) {
                        p = q;
                    }
                }
                match self.r.below(12) {
                    0..=3 => {
                        let m = self.r.below(NMEMS as u64) as usize;
                        let pol = match self.r.below(5) {
                            0 => Policy::PrevOrZero,
                            1 => Policy::PrevOrPages,
                            2 => Policy::Pages,
                            _ => {
                                let l = self.len() as u64;
                                Policy::Explicit(if self.r.pct(4) { self.huge(None) } else { l })
                            }
                        };
                        if self.r.pct(50) {
                            p = self.path(&root, Some(Kind::File), 85);
                        }
                        self.q.push(Op::Mount(p, m, pol));
                    }
                    4 | 5 => self.q.push(Op::Unmount(p)),
                    6 => self.q.push(Op::Init(p)),
                    7 | 8 => self.q.push(Op::Store(p)),
                    9 => {
                        let (m, o, l, s) = (self.r.below(NMEMS as u64) as usize, self.off(None), self.len(), self.seed());
                        self.q.push(Op::WriteMem(m, o.min(1 << 20), l, s));
                    }
                    _ => {
                        // work on the mounted file through a descriptor
                        self.q.push(Op::Open { d: root, path: p, rights: ALL, fdflags: 0, oflags: 0, ctime: 5 });
                        let h = Fdr::H(self.run.handles.len());
                        let (o, l, s) = (self.off(None).min(1 << 20), self.len(), self.seed());
                        match self.r.below(5) {
                            0 => self.q.push(Op::SetSize(h.clone(), o)),
                            1 => self.q.push(Op::SetLimit(h.clone(), o)),
                            2 => self.q.push(Op::PReadV(h.clone(), o, vec![l])),
                            _ => self.q.push(Op::PWriteV(h.clone(), o, vec![l], s)),
                        }
                        if self.r.pct(60) {
                            self.q.push(Op::Close(h));
                        }
                    }
                }
            }
            List => {
                let d = self.dirfd();
                let n = self.node_of_dir(&d);
                let es = &self.run.model.nodes[&n].entries;
                let k = *self.r.pick(&[0usize, 1, 2, 3, 1000, 1000, 1000]);
                let idx = match self.r.below(7) {
                    0 => None,
                    1 => Some(*self.r.pick(&[0, 1, 2, u32::MAX, u32::MAX - 1, u32::MAX - 2, u32::MAX - 3, 1 << 31])),
                    2 | 3 if !es.is_empty() => {
                        let e = self.r.pick(es).0;
                        Some((e + self.r.below(3) as u32).saturating_sub(1))
                    }
                    4 => Some(*self.r.pick(&[u32::MAX, u32::MAX - 1, u32::MAX - 4, u32::MAX - 5, u32::MAX - 6])),
                    _ => None,
                };
                if self.r.pct(20) {
                    self.q.push(Op::GetEntry(d, idx.unwrap_or(1)));
                } else {
                    self.q.push(Op::List(d, idx, k));
                }
            }
            Reopen => self.q.push(Op::Reopen),
            Chunk => {
                if self.r.pct(if self.prop == "C15" { 75 } else { 25 }) {
                    let n = *self.r.pick(&[4096u32, 8192, 16384, 32768, 65536]);
                    self.q.push(Op::ChunkSize(n));
                } else {
                    let n = 1 + self.r.below(2) as u8;
                    self.q.push(Op::ChunkType(n));
                }
            }
            Many => {
                let d = self.dirfd();
                let n = *self.r.pick(&[110usize, 130, 260, 1010, 1100]);
                let n = if self.run.model.nodes.len() > 100 || !self.r.pct(if self.prop == "C05" { 8 } else { 2 }) { 3 } else { n };
                let pre = self.name();
                self.q.push(Op::Burst(d, if pre.len() > 20 { "q".into() } else { pre }, n));
            }
            Names => {
                let d = self.dirfd();
                let mut p = if self.r.pct(40) { self.existing(&d, Some(Kind::Dir)).map(|x| x + "/").unwrap_or_default() } else { String::new() };
                if self.r.pct(55)
                    && let Some(q) = self.existing(&d, None)
                {
                    // near miss of an existing name
                    let (dir, nm) = match q.rfind('/') {
                        Some(i) => (q[..i + 1].to_string(), q[i + 1..].to_string()),
                        None => (String::new(), q.clone()),
                    };
                    let mut cs: std::vec::Vec<char> = nm.chars().collect();
                    match self.r.below(5) {
                        0 => cs.push('k'),
                        1 => {
                            cs.pop();
                        }
                        2 => {
                            let l = cs.len();
                            cs[l - 1] = 'y';
                        }
                        3 => cs[0] = 'y',
                        _ => {}
                    }
                    p = dir + &cs.iter().collect::<String>();
                } else {
                    p += &self.oddname();
                }
                match self.r.below(8) {
                    0 => {
                        let t = self.time();
                        self.q.push(Op::Mkdir(d, p, t))
                    }
                    1 => self.q.push(Op::OpenMeta(d, p)),
                    2 => {
                        let s = self.existing(&d, Some(Kind::File)).unwrap_or("a".into());
                        self.q.push(Op::Link(d.clone(), s, d, p));
                    }
                    3 => {
                        let s = self.existing(&d, None).unwrap_or("a".into());
                        self.q.push(Op::Rename(d.clone(), s, d, p));
                    }
                    4 => self.q.push(Op::RmFile(d, p)),
                    _ => self.open(d, p, 85),
                }
            }
            Paths => {
                let d = self.dirfd();
                let p = self.path(&d, None, 75);
                match self.r.below(6) {
                    0 => self.open(d, p, 40),
                    1 => {
                        let t = self.time();
                        self.q.push(Op::Mkdir(d, p, t))
                    }
                    _ => self.q.push(Op::OpenMeta(d, p)),
                }
            }
            Edge => {
                // write, cut and grow around the same multiple of the chunk size
                let Some(f) = self.filefd() else { return self.make(Create) };
                let cs = self.cs();
                let b = cs * self.r.below(4);
                let near = |r: &mut Rng, b: u64| -> u64 { (b + *r.pick(&[0u64, 0, 0, 1, 2, 7])).saturating_sub(*r.pick(&[0u64, 0, 0, 1, 5])) };
                let (k1, k2, k3) = (self.r.below(3), self.r.below(3), self.r.below(4));
                let (x, y, z) = (near(self.r, b), near(self.r, b + cs), near(self.r, b + cs * k1));
                let s = self.seed();
                self.q.push(Op::PWriteV(f.clone(), x.min(y), vec![(y.max(x) - x.min(y)) as usize], s));
                self.q.push(Op::SetSize(f.clone(), z));
                if self.r.pct(50) {
                    let w = near(self.r, b + cs * k2);
                    self.q.push(Op::SetSize(f.clone(), w));
                } else {
                    let w = near(self.r, b + cs * k3);
                    self.q.push(Op::PWriteV(f.clone(), w, vec![3], s + 1));
                }
                self.q.push(Op::PReadV(f, x.saturating_sub(3), vec![3 * cs as usize]));
            }
        }
    }
    fn path_of(&self, n: usize) -> Option<String> {
        let mut q = vec![(0usize, String::new())];
        while let Some((d, p)) = q.pop() {
            for e in &self.run.model.nodes[&d].entries {
                let c = if p.is_empty() { e.1.clone() } else { format!("{p}/{}", e.1) };
                if e.2 == n {
                    return Some(c);
                }
                if self.run.model.nodes[&e.2].meta.kind == Kind::Dir {
                    q.push((e.2, c));
                }
            }
        }
        None
    }
}

pub fn history(prop: &str, seed: u64, no: u64) -> (Config, std::vec::Vec<Op>, Option<Mismatch>) {
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(no));
    let cs = *r.pick(&[4096u32, 4096, 4096, 8192, 16384, 16384, 32768, 65536]);
    let cfg = Config {
        transient: match prop {
            "C18" => true,
            "C14" | "C15" => false,
            _ => r.pct(12),
        },
        cs,
        ct: if r.pct(30) { 1 } else { 2 },
        start: if r.pct(70) { 0 } else { r.below(100) as u8 },
    };
    let cfg = if cfg.transient { Config { cs: 4096, ct: 2, start: 0, ..cfg } } else { cfg };
    let w = weights(prop);
    let tot: u64 = w.iter().map(|x| x.1).sum();
    let n = match r.below(10) {
        0..=4 => 8 + r.below(25),
        5..=8 => 25 + r.below(60),
        _ => 80 + r.below(120),
    } as usize;
    let gap = 1 + r.below(6);
    let mut ops: std::vec::Vec<Op> = vec![];
    let mut run = match Run::new(&cfg) {
        Ok(r) => r,
        Err(m) => return (cfg, ops, Some(m)),
    };
    let mut since = 0;
    let mut t = no * 1000 % 100000;
    macro_rules! go {
        ($op:expr) => {{
            let op = $op;
            ops.push(op.clone());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run.exec(&op)));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return (cfg, ops, Some(m)),
                Err(p) => {
                    let msg = format!("the check itself fails: {}", pmsg(p));
                    return (cfg, ops, Some(Mismatch { tags: vec!["INTERNAL"], msg, at: 0 }));
                }
            }
        }};
    }
    // a small initial population
    if r.pct(80) {
        for nm in ["a", "b"].iter().take(1 + r.below(2) as usize) {
            t += 1;
            go!(Op::Open { d: Fdr::H(0), path: nm.to_string(), rights: ALL, fdflags: 0, oflags: 1, ctime: t });
        }
        if r.pct(50) {
            go!(Op::MkOpen { d: Fdr::H(0), path: "d".into(), ctime: t });
        }
    }
    while ops.len() < n {
        let mut k = r.below(tot);
        let cat = w.iter().find(|x| { if k < x.1 { true } else { k -= x.1; false } }).unwrap().0;
        let mut g = Gen { r: &mut r, run: &run, q: vec![], nh: 0, prop, t };
        if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.make(cat))) {
            let msg = format!("the generator fails: {}", pmsg(p));
            return (cfg, ops, Some(Mismatch { tags: vec!["INTERNAL"], msg, at: 0 }));
        }
        t = g.t;
        for op in g.q {
            go!(op);
            since += 1;
            let refused = run.last_err.is_some();
            if since >= gap || (refused && matches!(prop, "C20" | "C12" | "C04" | "C11" | "C19")) {
                since = 0;
                let lvl = match prop {
                    "C14" => 3,
                    "C02" | "C05" | "C15" => 4,
                    "C20" => if refused { 4 } else { 0 },
                    "C07" | "C06" | "C17" => 1,
                    _ => 0,
                };
                go!(Op::Check(lvl));
            }
        }
    }
    go!(Op::Check(7));
    (cfg, ops, None)
}
