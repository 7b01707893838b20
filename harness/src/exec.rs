//! Runs one history on the real code and on the model, comparing everything observable.
use crate::model::*;
use crate::ops::*;
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager};
use ic_stable_structures::{BTreeMap as SBTreeMap, Memory, VectorMemory};
use stable_fs::error::Error;
use stable_fs::fs::{ChunkSize, ChunkType, FdFlags, FdStat, FileSystem, OpenFlags, SrcBuf, DstBuf, Whence};
use stable_fs::storage::stable::StableStorage;
use stable_fs::storage::transient::TransientStorage;
use stable_fs::storage::types::{FileChunk, FileType, Metadata, MountedFileSizePolicy};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Config {
    pub transient: bool,
    pub cs: u32,
    pub ct: u8,
    pub start: u8,
}
impl std::fmt::Display for Config {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "config {} {} {} {}", if self.transient { "transient" } else { "stable" }, self.cs, self.ct, self.start)
    }
}
#[derive(Clone, Debug)]
pub struct Mismatch {
    pub tags: Vec<&'static str>,
    pub msg: String,
    pub at: usize,
}
pub const NMEMS: usize = 3;

pub fn chunk_size(n: u32) -> ChunkSize {
    match n {
        4096 => ChunkSize::CHUNK4K,
        8192 => ChunkSize::CHUNK8K,
        16384 => ChunkSize::CHUNK16K,
        32768 => ChunkSize::CHUNK32K,
        _ => ChunkSize::CHUNK64K,
    }
}
fn new_mem() -> VectorMemory {
    Rc::new(RefCell::new(Vec::new()))
}
fn open_fs(cfg: &Config, mem: &VectorMemory) -> FileSystem {
    if cfg.transient {
        FileSystem::new(Box::new(TransientStorage::new())).unwrap()
    } else {
        let mm = MemoryManager::init_with_bucket_size(mem.clone(), 1);
        let st = StableStorage::new_with_memory_manager(&mm, cfg.start..cfg.start + 10);
        FileSystem::new(Box::new(st)).unwrap()
    }
}
pub enum Out {
    Unit,
    Fd(u32),
    Num(u64),
    Data(u64, Vec<u8>),
    Meta(Metadata),
    List(Vec<(u32, String, u64)>),
    Entry(String, u64),
    Stat(bool, u64, u16),
    Mem,
}
type Real = Result<Result<Out, String>, String>;

pub struct Run {
    pub cfg: Config,
    pub model: Model,
    pub mem: VectorMemory,
    pub fs: Option<FileSystem>,
    pub handles: Vec<Option<u32>>,
    pub last_fd: Vec<u32>,
    pub mems: Vec<VectorMemory>,
    pub reopened: bool,
    pub last_err: Option<String>,
    pub just_reopened: bool,
    pub step: usize,
    pub reals: u64,
    /// evaluate what the mismatch is about on fresh copy
    pub fresh_hint: bool,
}

fn op_tags(op: &Op) -> &'static [&'static str] {
    match op {
        Op::Open { .. } | Op::MkOpen { .. } | Op::Mkdir(..) => &["C07", "C06", "C20"],
        Op::Close(_) | Op::Renumber(..) => &["C09"],
        Op::Read(..) => &["C01", "C10"],
        Op::ReadV(..) | Op::PReadV(..) => &["C10", "C01"],
        Op::Write(..) => &["C01", "C10"],
        Op::WriteV(..) | Op::PWriteV(..) => &["C10", "C01"],
        Op::Seek(..) | Op::Tell(_) => &["C10"],
        Op::SetSize(..) => &["C03"],
        Op::SetLimit(..) => &["C04", "C19"],
        Op::SetATime(..) | Op::SetMTime(..) | Op::SetMeta(..) => &["C19"],
        Op::SetStat(..) | Op::GetStat(_) => &["C09", "C11"],
        Op::Meta(_) => &["C19", "C09"],
        Op::OpenMeta(..) => &["C07", "C19"],
        Op::RmFile(..) | Op::RmDir(..) | Op::RmRec(..) => &["C12", "C05"],
        Op::Link(..) | Op::Rename(..) => &["C08"],
        Op::List(..) | Op::GetEntry(..) => &["C16"],
        Op::Mount(..) | Op::Unmount(_) | Op::Init(_) | Op::Store(_) | Op::WriteMem(..) => &["C13"],
        Op::Reopen => &["C14"],
        Op::ChunkSize(_) => &["C15"],
        Op::ChunkType(_) => &["C19"],
        Op::Burst(..) => &["C06"],
        Op::Check(_) => &[],
    }
}
fn err_tags(code: &str) -> &'static [&'static str] {
    match code {
        "FileTooLarge" => &["C04"],
        "BadFileDescriptor" => &["C09"],
        "OperationNotPermitted" => &["C11"],
        "TextFileBusy" | "DirectoryNotEmpty" | "DeviceOrResourceBusy" => &["C12"],
        "FilenameTooLong" => &["C17"],
        "NoSuchFileOrDirectory" => &["C07", "C06"],
        "FileExists" => &["C06"],
        "InvalidSeek" => &["C10"],
        _ => &[],
    }
}

impl Run {
    pub fn new(cfg: &Config) -> Result<Run, Mismatch> {
        let mem = new_mem();
        let c = cfg.clone();
        let m2 = mem.clone();
        let r = catch_unwind(AssertUnwindSafe(move || {
            let mut fs = open_fs(&c, &m2);
            if !c.transient {
                fs.storage.set_chunk_size(chunk_size(c.cs)).map_err(|e| format!("{e:?}"))?;
                fs.storage.set_chunk_type(if c.ct == 1 { ChunkType::V1 } else { ChunkType::V2 });
            }
            Ok::<_, String>(fs)
        }));
        match r {
            Ok(Ok(fs)) => Ok(Run {
                cfg: cfg.clone(),
                model: Model::new(cfg.transient, if cfg.transient { 4096 } else { cfg.cs as usize }, cfg.ct, NMEMS),
                mem,
                fs: Some(fs),
                handles: vec![Some(3)],
                last_fd: vec![3],
                mems: (0..NMEMS).map(|_| new_mem()).collect(),
                reopened: false,
                last_err: None,
                just_reopened: false,
                step: 0,
                reals: 0,
                fresh_hint: true,
            }),
            Ok(Err(e)) => Err(Mismatch { tags: vec!["C15"], msg: format!("initial set_chunk_size({}) refused: {e}", cfg.cs), at: 0 }),
            Err(p) => Err(Mismatch { tags: vec!["C14", "C20"], msg: format!("opening an empty file system panics: {}", pmsg(p)), at: 0 }),
        }
    }
    fn fd(&self, f: &Fdr) -> Option<u32> {
        match f {
            Fdr::H(h) => {
                if *h < self.handles.len() && self.last_fd[*h] != u32::MAX { Some(self.last_fd[*h]) } else { None }
            }
            Fdr::N(n) => Some(*n),
        }
    }
    fn real<F: FnOnce(&mut FileSystem) -> Result<Out, Error>>(&mut self, f: F) -> Real {
        self.reals += 1;
        let fs = self.fs.as_mut().unwrap();
        match catch_unwind(AssertUnwindSafe(|| f(fs))) {
            Ok(Ok(o)) => Ok(Ok(o)),
            Ok(Err(e)) => Ok(Err(format!("{e:?}"))),
            Err(p) => Err(pmsg(p)),
        }
    }
    fn mm(&self, tags: &[&'static str], msg: String) -> Mismatch {
        let mut t: Vec<&'static str> = tags.to_vec();
        if self.cfg.transient {
            t.push("C18");
        }
        Mismatch { tags: t, msg, at: self.step }
    }
    /// compares success/refusal; Ok(Some(out)) when both succeed
    fn agree<T>(&self, op: &Op, real: Real, exp: &R<T>) -> Result<Option<Out>, Mismatch> {
        let base = op_tags(op);
        match (real, exp) {
            (Err(p), _) => {
                let mut t = vec!["C20"];
                t.extend_from_slice(base);
                if matches!(op, Op::Write(..) | Op::WriteV(..) | Op::PWriteV(..) | Op::SetSize(..) | Op::PReadV(..)) {
                    t.push("C04");
                }
                Err(self.mm(&t, format!("operation aborts: {p}")))
            }
            (Ok(Ok(o)), Ok(_)) => Ok(Some(o)),
            (Ok(Ok(_)), Err(r)) => Err(self.mm(r.tags, format!("operation succeeds but must be refused: {}", r.why))),
            (Ok(Err(code)), Ok(_)) => {
                let mut t = base.to_vec();
                t.extend_from_slice(err_tags(&code));
                Err(self.mm(&t, format!("operation is refused with {code} but must succeed")))
            }
            (Ok(Err(code)), Err(r)) => {
                if let Some(want) = r.code
                    && want != code
                {
                    return Err(self.mm(r.tags, format!("refused with {code}, must be {want}: {}", r.why)));
                }
                Ok(None)
            }
        }
    }
    fn adopt(&mut self, n: usize, real: u64) -> Result<(), Mismatch> {
        let cur = self.model.nodes[&n].real;
        match cur {
            None => {
                if !self.model.used_real.insert(real) {
                    return Err(self.mm(&["C05"], format!("new file was given node id {real}, which was used before")));
                }
                self.model.nodes.get_mut(&n).unwrap().real = Some(real);
                Ok(())
            }
            Some(r) if r == real => Ok(()),
            Some(r) => Err(self.mm(&["C06", "C08", "C09"], format!("expected node {r}, found {real}"))),
        }
    }
    fn adopt_fd(&mut self, op: &Op, fd: u32, mfd: Fd) -> Result<(), Mismatch> {
        if self.model.fds.contains_key(&fd) {
            return Err(self.mm(&["C09"], format!("{op}: returned descriptor {fd} which is already open")));
        }
        let n = mfd.node;
        self.model.fds.insert(fd, mfd);
        self.handles.push(Some(fd));
        self.last_fd.push(fd);
        let r = self.real(|fs| Ok(Out::Num(fs.metadata(fd)?.node)));
        match r {
            Ok(Ok(Out::Num(x))) => {
                if let Some(r) = self.model.nodes[&n].real
                    && r != x
                {
                    let mut t = op_tags(op).to_vec();
                    t.push("C09");
                    return Err(self.mm(&t, format!("descriptor {fd} denotes node {x}, expected {r}")));
                }
                self.adopt(n, x)
            }
            _ => Err(self.mm(&["C09"], format!("metadata of fresh descriptor {fd} fails"))),
        }
    }
    fn node_of(&self, real: u64) -> Option<usize> {
        self.model.nodes.iter().find(|(_, n)| n.real == Some(real)).map(|x| *x.0)
    }
    fn cmp_meta(&self, n: usize, m: &Metadata, ctx: &str) -> Result<(), Mismatch> {
        let nd = &self.model.nodes[&n];
        let e = nd.eff();
        let mut tags: Vec<&'static str> = vec![];
        let mut what = String::new();
        let mut diff = |t: &[&'static str], name: &str, a: String, b: String| {
            if a != b {
                tags.extend_from_slice(t);
                what += &format!(" {name}: expected {a}, found {b};");
            }
        };
        let size_tags: &[&str] = if e.kind == Kind::Dir { &["C06"] } else { &["C01", "C03", "C04", "C19"] };
        diff(size_tags, "size", e.size.to_string(), m.size.to_string());
        diff(&["C08"], "link_count", e.links.to_string(), m.link_count.to_string());
        diff(&["C19"], "accessed", e.atime.to_string(), m.times.accessed.to_string());
        diff(&["C19"], "modified", e.mtime.to_string(), m.times.modified.to_string());
        diff(&["C19"], "created", e.ctime.to_string(), m.times.created.to_string());
        diff(&["C19", "C04"], "limit", format!("{:?}", e.limit), format!("{:?}", m.maximum_size_allowed));
        diff(&["C19"], "chunk_type", format!("{:?}", e.chunk_type), format!("{:?}", m.chunk_type.map(|c| c as u8)));
        let k = if m.file_type == FileType::Directory { Kind::Dir } else { Kind::File };
        diff(&["C19"], "kind", format!("{:?}", e.kind), format!("{k:?}"));
        if tags.is_empty() {
            return Ok(());
        }
        if nd.mount.is_some() || nd.was_mounted {
            tags.push("C13");
        }
        if !self.model.touched.contains(&n) {
            tags.push("C02");
        }
        Err(self.mm(&tags, format!("{ctx}: metadata of node {:?} differs:{what}", nd.real)))
    }
    fn cmp_data(&self, n: usize, off: u64, exp: &[u8], got: &[u8], ctx: &str) -> Result<(), Mismatch> {
        if exp == got {
            return Ok(());
        }
        let nd = &self.model.nodes[&n];
        let mut tags = vec!["C01"];
        if nd.mount.is_some() || nd.was_mounted {
            tags.push("C13");
        }
        if !self.model.touched.contains(&n) {
            tags.push("C02");
        }
        let what = if exp.len() != got.len() {
            format!("{} bytes instead of {}", got.len(), exp.len())
        } else {
            let i = (0..exp.len()).find(|i| exp[*i] != got[*i]).unwrap();
            if exp[i] == 0 {
                tags.push("C03"); // must read as zero
            }
            if exp[i] != 0 && nd.was_cut {
                tags.push("C03"); // kept prefix lost
            }
            format!("byte at {} is {}, expected {}", off + i as u64, got[i], exp[i])
        };
        Err(self.mm(&tags, format!("{ctx}: node {:?} (size {}): {what}", nd.real, nd.eff().size)))
    }
    /// every directory, entry, metadata record and byte, compared through the storage interface
    fn check_tree(&mut self, fs: &mut FileSystem, adopt: bool) -> Result<(), Mismatch> {
        let mut queue = vec![0usize];
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        while let Some(n) = queue.pop() {
            if !seen.insert(n) {
                continue;
            }
            let real = self.model.nodes[&n].real.unwrap();
            let m = match fs.storage.get_metadata(real) {
                Ok(m) => m,
                Err(e) => return Err(self.mm(&["C06", "C14", "C19", "C02"], format!("no metadata for live node {real}: {e:?}"))),
            };
            if m.node != real {
                return Err(self.mm(&["C19"], format!("metadata of node {real} says node {}", m.node)));
            }
            self.cmp_meta(n, &m, "check")?;
            if self.model.nodes[&n].meta.kind == Kind::Dir {
                let mut got: Vec<(u32, Vec<u8>, u64, Option<FileType>)> = vec![];
                fs.storage.with_direntries(real, Some(0), &mut |i, e| {
                    got.push((*i, e.name.bytes[..e.name.length as usize].to_vec(), e.node, e.entry_type));
                    got.len() < 100000
                });
                let exp = self.model.nodes[&n].entries.clone();
                let gn: Vec<_> = got.iter().map(|x| (x.0, x.1.clone())).collect();
                let en: Vec<_> = exp.iter().map(|x| (x.0, x.1.as_bytes().to_vec())).collect();
                if gn != en {
                    let mut t = vec!["C06"];
                    let mut a = gn.iter().map(|x| x.1.clone()).collect::<Vec<_>>();
                    let mut b = en.iter().map(|x| x.1.clone()).collect::<Vec<_>>();
                    a.sort();
                    b.sort();
                    if a == b || !self.model.touched.contains(&n) {
                        t.push("C16");
                    }
                    if a != b {
                        t.extend(["C08", "C17", "C07"]);
                    }
                    if !self.model.touched.contains(&n) {
                        t.push("C02");
                    }
                    return Err(self.mm(&t, format!("listing of directory {real}: expected {}, found {}", show(&en), show(&gn))));
                }
                for (g, e) in got.iter().zip(exp.iter()) {
                    if let Some(r) = self.model.nodes[&e.2].real {
                        if r != g.2 {
                            return Err(self.mm(&["C06", "C08"], format!("entry {} of directory {real} leads to node {}, expected {r}", e.1, g.2)));
                        }
                    } else if adopt {
                        self.adopt(e.2, g.2)?;
                    } else {
                        continue;
                    }
                    let k = self.model.nodes[&e.2].meta.kind;
                    if let Some(t) = g.3
                        && (t == FileType::Directory) != (k == Kind::Dir)
                    {
                        return Err(self.mm(&["C06"], format!("entry {} of directory {real} is listed with type {t:?}", e.1)));
                    }
                    queue.push(e.2);
                }
            } else {
                let nd = &self.model.nodes[&n];
                let size = nd.eff().size;
                let mut spans: Vec<(u64, u64)> = vec![];
                if size <= 1 << 20 {
                    spans.push((0, size));
                } else {
                    let src = match nd.mount {
                        Some(m) => &self.model.mems[m],
                        None => &nd.data,
                    };
                    for k in src.blocks.keys() {
                        let s = (k * 512).saturating_sub(700);
                        let e = (k * 512 + 1212).min(size);
                        if s >= e {
                            continue;
                        }
                        match spans.last_mut() {
                            Some(l) if l.1 >= s && e - l.0 <= 1 << 21 => l.1 = e,
                            _ => spans.push((s, e)),
                        }
                    }
                    spans.push((size.saturating_sub(700), size));
                }
                for (s, e) in spans {
                    if self.too_big_for_memory(n, e) {
                        continue;
                    }
                    let mut buf = vec![0xAAu8; (e - s) as usize + 7];
                    let r = fs.storage.read(real, s, &mut buf);
                    let exp = self.model.read_at(n, s, buf.len() as u64);
                    match r {
                        Ok(k) => {
                            buf.truncate(k as usize);
                            self.cmp_data(n, s, &exp, &buf, "check")?;
                        }
                        Err(er) => return Err(self.mm(&["C01"], format!("reading node {real} at {s} fails: {er:?}"))),
                    }
                }
                // the memory itself
                let nd = &self.model.nodes[&n];
                if let Some(mi) = nd.mount
                    && adopt
                {
                    let bytes = self.mems[mi].borrow();
                    let len = bytes.len().min(1 << 20);
                    let exp = self.model.mems[mi].read(0, len);
                    if bytes[..len] != exp[..] {
                        drop(bytes);
                        return Err(self.mm(&["C13"], format!("bytes of memory {mi} mounted on node {real} differ")));
                    }
                }
            }
        }
        Ok(())
    }
    fn check_fds(&mut self, fs: &mut FileSystem) -> Result<(), Mismatch> {
        let fds: Vec<(u32, Fd)> = self.model.fds.iter().map(|(a, b)| (*a, b.clone())).collect();
        for (fd, m) in fds {
            let (t, st) = match fs.get_stat(fd) {
                Ok(x) => x,
                Err(e) => return Err(self.mm(&["C09"], format!("open descriptor {fd}: stat fails with {e:?}"))),
            };
            if (t == FileType::Directory) != (m.kind == Kind::Dir) {
                return Err(self.mm(&["C09"], format!("descriptor {fd} changed kind")));
            }
            if st.rights_base != m.rights || st.flags.bits() != m.flags {
                return Err(self.mm(&["C09", "C11"], format!("descriptor {fd}: rights/flags {:x}/{} expected {:x}/{}", st.rights_base, st.flags.bits(), m.rights, m.flags)));
            }
            if m.kind == Kind::File {
                match fs.tell(fd) {
                    Ok(c) if c == m.cursor => {}
                    x => return Err(self.mm(&["C10", "C09"], format!("descriptor {fd}: cursor {x:?}, expected {}", m.cursor))),
                }
            }
            let real = self.model.nodes[&m.node].real.unwrap();
            match fs.metadata(fd) {
                Ok(x) if x.node == real => {}
                x => return Err(self.mm(&["C09"], format!("descriptor {fd}: denotes {:?}, expected node {real}", x.map(|y| y.node)))),
            }
        }
        Ok(())
    }
    fn check_paths(&mut self, fs: &mut FileSystem) -> Result<(), Mismatch> {
        let mut queue: Vec<(usize, String)> = vec![(0, String::new())];
        let mut cnt = 0;
        while let Some((n, p)) = queue.pop() {
            for (i, name, c) in self.model.nodes[&n].entries.clone() {
                cnt += 1;
                if cnt > 400 {
                    return Ok(());
                }
                let path = if p.is_empty() { name.clone() } else { format!("{p}/{name}") };
                let real = self.model.nodes[&c].real;
                match fs.open_metadata(3, &path) {
                    Ok(m) if Some(m.node) == real || real.is_none() => {}
                    Ok(m) => return Err(self.mm(&["C07", "C06"], format!("path {path:?} leads to node {}, expected {real:?}", m.node))),
                    Err(e) => return Err(self.mm(&["C07", "C06"], format!("path {path:?} is listed (index {i}) but not found: {e:?}"))),
                }
                if self.model.nodes[&c].meta.kind == Kind::Dir && p.len() < 2000 {
                    queue.push((c, path));
                }
            }
            // a name that is not there
            let miss = if p.is_empty() { "nosuchname".to_string() } else { format!("{p}/nosuchname") };
            if let Ok(m) = fs.open_metadata(3, &miss) {
                return Err(self.mm(&["C07", "C06"], format!("path {miss:?} does not exist but leads to node {}", m.node)));
            }
        }
        Ok(())
    }
    fn check_raw(&mut self) -> Result<(), Mismatch> {
        if self.cfg.transient {
            return Ok(());
        }
        let live: BTreeMap<u64, usize> = self.model.nodes.iter().filter_map(|(k, n)| n.real.map(|r| (r, *k))).collect();
        if live.len() != self.model.nodes.len() {
            return Ok(());
        }
        let copy: VectorMemory = Rc::new(RefCell::new(self.mem.borrow().clone()));
        let mm = MemoryManager::init_with_bucket_size(copy, 1);
        let at = |k: u8| mm.get(MemoryId::new(self.cfg.start + k));
        let al = at(6);
        let word = |i: u64| {
            let mut b = [0u8; 8];
            al.read(i * 8, &mut b);
            u64::from_le_bytes(b)
        };
        let (cs, len, max) = (word(1), word(2), word(3));
        if cs != self.model.chunk_size as u64 && self.model.allocated {
            return Err(self.mm(&["C15"], format!("stored chunk size is {cs}, expected {}", self.model.chunk_size)));
        }
        let mut owner: BTreeMap<u64, String> = BTreeMap::new();
        for i in 0..len {
            let p = word(16 + i);
            if owner.insert(p, "the free list".into()).is_some() {
                return Err(self.mm(&["C05", "C02"], format!("block {p} is on the free list twice")));
            }
        }
        let free = owner.len() as u64;
        let ptrs: SBTreeMap<(u64, u32), u64, _> = SBTreeMap::init(at(5));
        let mut used = 0u64;
        for e in ptrs.iter() {
            let ((nd, idx), p) = (*e.key(), e.value());
            used += 1;
            if let Some(o) = owner.insert(p, format!("node {nd} chunk {idx}")) {
                return Err(self.mm(&["C02", "C05"], format!("block {p} belongs to node {nd} chunk {idx} and to {o}")));
            }
            if p % cs != 0 || p >= max {
                return Err(self.mm(&["C15", "C02"], format!("block {p} of node {nd} is not an allocated multiple of {cs} (max {max})")));
            }
            match live.get(&nd) {
                None => return Err(self.mm(&["C05"], format!("block {p} still belongs to deleted node {nd} (chunk {idx})"))),
                Some(n) => {
                    let m = &self.model.nodes[n].meta;
                    if idx < u32::MAX - 2 && (m.kind == Kind::Dir || idx as u64 * cs >= m.size) {
                        return Err(self.mm(&["C05", "C03"], format!("node {nd} of size {} keeps a block for chunk {idx}", m.size)));
                    }
                }
            }
        }
        if (used + free) * cs != max {
            return Err(self.mm(&["C05"], format!("{} blocks taken, but only {used} in use and {free} available", max / cs)));
        }
        let v1: SBTreeMap<(u64, u32), FileChunk, _> = SBTreeMap::init(at(3));
        for e in v1.iter() {
            let (nd, idx) = *e.key();
            match live.get(&nd) {
                None => return Err(self.mm(&["C05"], format!("deleted node {nd} keeps V1 chunk {idx}"))),
                Some(n) => {
                    let m = &self.model.nodes[n].meta;
                    if m.kind == Kind::Dir || idx as u64 * 4096 >= m.size {
                        return Err(self.mm(&["C05", "C03"], format!("node {nd} of size {} keeps V1 chunk {idx}", m.size)));
                    }
                }
            }
        }
        Ok(())
    }
    fn check_fresh(&mut self) -> Result<(), Mismatch> {
        if self.cfg.transient {
            return Ok(());
        }
        let copy: VectorMemory = Rc::new(RefCell::new(self.mem.borrow().clone()));
        let cfg = self.cfg.clone();
        let fs = catch_unwind(AssertUnwindSafe(|| open_fs(&cfg, &copy)));
        let mut fs = match fs {
            Ok(f) => f,
            Err(p) => return Err(self.mm(&["C14"], format!("reopening panics: {}", pmsg(p)))),
        };
        let saved = self.model.clone();
        self.model.reopen();
        let r = catch_unwind(AssertUnwindSafe(|| self.check_tree(&mut fs, false)));
        let cs = fs.storage.chunk_size();
        let (want, alloc) = (saved.chunk_size, saved.allocated);
        self.model = saved;
        if cs != want && alloc {
            return Err(self.mm(&["C14", "C15"], format!("chunk size after reopening is {cs}, expected {want}")));
        }
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(mut m)) => {
                m.tags = vec!["C14"];
                m.msg = format!("after reopening: {}", m.msg);
                Err(m)
            }
            Err(p) => Err(self.mm(&["C14"], format!("checking the reopened file system panics: {}", pmsg(p)))),
        }
    }
    pub fn check(&mut self, level: u8) -> Result<(), Mismatch> {
        let mut fs = self.fs.take().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| {
            self.check_tree(&mut fs, true)?;
            self.check_fds(&mut fs)?;
            if level & 1 != 0 {
                self.check_paths(&mut fs)?;
            }
            Ok(())
        }));
        self.fs = Some(fs);
        let r: Result<(), Mismatch> = match r {
            Ok(x) => x,
            Err(p) => Err(self.mm(&["C20", "C01", "C06"], format!("reading the state panics: {}", pmsg(p)))),
        };
        if let Err(mut m) = r {
            if let Some(e) = &self.last_err {
                m.tags.push("C20");
                m.msg = format!("after the refused operation ({e}): {}", m.msg);
            }
            if self.just_reopened {
                m.tags.push("C14");
            } else if !self.cfg.transient && self.fresh_hint {
                // does the live instance disagree with what is stored?
                if let Ok(Ok(())) = catch_unwind(AssertUnwindSafe(|| self.check_fresh())) {
                    m.tags.push("C14");
                    m.msg += " (a freshly opened instance shows the right state)";
                }
            }
            return Err(m);
        }
        if level & 2 != 0 {
            self.check_fresh()?;
        }
        if level & 4 != 0 {
            self.check_raw()?;
        }
        self.model.touched.clear();
        self.just_reopened = false;
        Ok(())
    }
    fn rm_rec(&mut self, dir: usize, path: &str) -> R<()> {
        let n = self.model.find(dir, path)?;
        if self.model.nodes[&n].meta.kind == Kind::File {
            return self.model.remove(dir, path, Some(Kind::File), false);
        }
        let kids: Vec<String> = self.model.nodes[&n].entries.iter().map(|e| e.1.clone()).collect();
        let mut res = Ok(());
        for k in kids {
            res = self.rm_rec(n, &k);
            if res.is_err() {
                break;
            }
        }
        self.model.remove(dir, path, Some(Kind::Dir), false)?;
        res
    }

    pub fn exec(&mut self, op: &Op) -> Result<(), Mismatch> {
        let r = self.exec_inner(op);
        self.step += 1;
        r.map_err(|mut m| {
            m.msg = format!("`{op}`: {}", m.msg);
            m
        })
    }
    /// A mounted memory that large only exhausts the memory of this process: out of scope.
    fn too_big_for_memory(&self, node: usize, end: u64) -> bool {
        let nd = &self.model.nodes[&node];
        nd.mount.is_some() && end > 1 << 24
    }
    fn exec_inner(&mut self, op: &Op) -> Result<(), Mismatch> {
        if !matches!(op, Op::Check(_)) {
            self.last_err = None;
        }
        macro_rules! fd {
            ($f:expr) => {
                match self.fd($f) {
                    Some(x) => x,
                    None => {
                        return Ok(());
                    }
                }
            };
        }
        macro_rules! agree {
            ($real:expr, $exp:expr) => {{
                let real = $real;
                if let Ok(Err(c)) = &real {
                    self.last_err = Some(format!("{op} -> {c}"));
                }
                match self.agree(op, real, &$exp)? {
                    None => return Ok(()),
                    Some(o) => (o, $exp.ok().unwrap()),
                }
            }};
        }
        let stat = |rights: u64, fl: u16| FdStat { flags: FdFlags::from_bits_truncate(fl), rights_base: rights, rights_inheriting: rights };
        match op {
            Op::Open { d, path, rights, fdflags, oflags, ctime } => {
                let f = fd!(d);
                // keep handle numbering independent of the outcome
                let exp = self.model.open(f, path, *rights, *fdflags, *oflags, *ctime);
                let real = self.real(|fs| {
                    Ok(Out::Fd(fs.open(f, path, stat(*rights, *fdflags), OpenFlags::from_bits_truncate(*oflags), *ctime)?))
                });
                if exp.is_err() {
                    self.push_dead();
                }
                let (o, mfd) = agree!(real, exp);
                if let Out::Fd(x) = o {
                    self.adopt_fd(op, x, mfd)?;
                }
            }
            Op::MkOpen { d, path, ctime } => {
                let f = fd!(d);
                let exp = self.model.mkdir(f, path, *ctime);
                let real = self.real(|fs| Ok(Out::Fd(fs.create_open_directory(f, path, FdStat::default(), *ctime)?)));
                if exp.is_err() {
                    self.push_dead();
                }
                let (o, n) = agree!(real, exp);
                if let Out::Fd(x) = o {
                    self.adopt_fd(op, x, Fd { node: n, kind: Kind::Dir, cursor: 0, rights: (1 << 28) - 1, rights_inh: 0, flags: 0 })?;
                }
            }
            Op::Close(a) => {
                let f = fd!(a);
                let exp: R<()> = if f == 3 { Ok(()) } else { self.model.get_any(f).map(|_| ()) };
                let real = self.real(|fs| fs.close(f).map(|_| Out::Unit));
                agree!(real, exp);
                if f != 3 {
                    self.model.fds.remove(&f);
                }
            }
            Op::Renumber(a, b) => {
                let (f, t) = (fd!(a), fd!(b));
                let exp: R<()> = (|| {
                    if f == t {
                        return Ok(());
                    }
                    let s = self.model.get_any(f)?;
                    if f == 3 || t == 3 {
                        return refuse(&["C09"], "the root descriptor cannot be closed or replaced");
                    }
                    if let Some(d) = self.model.fds.get(&t)
                        && d.kind != s.kind
                    {
                        return refuse(&["C09"], "renumbering between a file and a directory");
                    }
                    Ok(())
                })();
                if f == t {
                    return Ok(()); // whether an unopened number may be renumbered to itself is unspecified
                }
                let real = self.real(|fs| fs.renumber(f, t).map(|_| Out::Unit));
                agree!(real, exp);
                if f != t {
                    let e = self.model.fds.remove(&f).unwrap();
                    self.model.fds.insert(t, e);
                    if let Fdr::H(h) = a {
                        self.last_fd[*h] = t;
                    }
                }
            }
            Op::Read(a, n) => {
                let f = fd!(a);
                let exp: R<(usize, u64)> = (|| {
                    let m = self.model.get_file(f)?;
                    if m.rights & R_READ == 0 {
                        return refuse(&["C11"], "no right to read");
                    }
                    Ok((m.node, m.cursor))
                })();
                let n = *n;
                if let Ok((k, c)) = exp
                    && c < self.model.nodes[&k].eff().size
                    && self.too_big_for_memory(k, c.saturating_add(n as u64))
                {
                    return Ok(());
                }
                let real = self.real(|fs| {
                    let mut b = vec![0xAA; n];
                    let k = fs.read(f, &mut b)?;
                    Ok(Out::Data(k, b))
                });
                let (o, (node, cur)) = agree!(real, exp);
                let Out::Data(k, b) = o else { unreachable!() };
                let e = self.model.read_at(node, cur, n as u64);
                self.cmp_read(op, node, cur, &e, k, &b)?;
                self.model.fds.get_mut(&f).unwrap().cursor += k;
            }
            Op::ReadV(a, ls) | Op::PReadV(a, _, ls) => {
                let f = fd!(a);
                let at = if let Op::PReadV(_, o, _) = op { Some(*o) } else { None };
                let exp: R<(usize, u64)> = (|| {
                    let m = self.model.get_file(f)?;
                    if m.rights & R_READ == 0 {
                        return refuse(&["C11"], "no right to read");
                    }
                    Ok((m.node, at.unwrap_or(m.cursor)))
                })();
                let total: usize = ls.iter().sum();
                if let Ok((k, c)) = exp
                    && c < self.model.nodes[&k].eff().size
                    && self.too_big_for_memory(k, c.saturating_add(total as u64))
                {
                    return Ok(());
                }
                let real = self.real(|fs| {
                    let mut bufs: Vec<Vec<u8>> = ls.iter().map(|l| vec![0xAAu8; *l]).collect();
                    let v: Vec<DstBuf> = bufs.iter_mut().map(|b| DstBuf { buf: b.as_mut_ptr(), len: b.len() }).collect();
                    let k = match at {
                        Some(o) => fs.read_vec_with_offset(f, &v, o)?,
                        None => fs.read_vec(f, &v)?,
                    };
                    Ok(Out::Data(k, bufs.concat()))
                });
                let (o, (node, cur)) = agree!(real, exp);
                let Out::Data(k, b) = o else { unreachable!() };
                let e = self.model.read_at(node, cur, total as u64);
                self.cmp_read(op, node, cur, &e, k, &b)?;
                if at.is_none() {
                    self.model.fds.get_mut(&f).unwrap().cursor += k;
                }
            }
            Op::Write(a, n, s) => self.do_write(op, fd!(a), None, &[*n], *s, true)?,
            Op::WriteV(a, ls, s) => self.do_write(op, fd!(a), None, ls, *s, false)?,
            Op::PWriteV(a, o, ls, s) => self.do_write(op, fd!(a), Some(*o), ls, *s, false)?,
            Op::Seek(a, d, w) => {
                let f = fd!(a);
                let exp: R<u64> = (|| {
                    let m = self.model.get_file(f)?;
                    let size = self.model.nodes[&m.node].eff().size;
                    let p: i128 = match w {
                        0 => *d as i128,
                        1 => m.cursor as i128 + *d as i128,
                        _ => size as i128 + *d as i128,
                    };
                    if p < 0 || p > u64::MAX as i128 || (*w >= 2 && *d > 0) {
                        return refuse(&["C10"], "position out of range");
                    }
                    Ok(p as u64)
                })();
                let wh = match w {
                    0 => Whence::SET,
                    1 => Whence::CUR,
                    _ => Whence::END,
                };
                let real = self.real(|fs| fs.seek(f, *d, wh).map(Out::Num));
                let (o, p) = agree!(real, exp);
                if let Out::Num(x) = o
                    && x != p
                {
                    return Err(self.mm(&["C10"], format!("seek returns {x}, expected {p}")));
                }
                self.model.fds.get_mut(&f).unwrap().cursor = p;
            }
            Op::Tell(a) => {
                let f = fd!(a);
                let exp = self.model.get_file(f).map(|m| m.cursor);
                let real = self.real(|fs| fs.tell(f).map(Out::Num));
                let (o, p) = agree!(real, exp);
                if let Out::Num(x) = o
                    && x != p
                {
                    return Err(self.mm(&["C10", "C09"], format!("cursor is {x}, expected {p}")));
                }
            }
            Op::SetSize(a, n) => {
                let f = fd!(a);
                let exp: R<usize> = (|| {
                    let m = self.model.get_file(f)?;
                    if m.rights & R_WRITE == 0 {
                        return refuse(&["C11"], "no right to write");
                    }
                    if *n > self.model.nodes[&m.node].eff().max() {
                        return refuse_code("FileTooLarge", &["C04"], "size beyond the limit");
                    }
                    Ok(m.node)
                })();
                if let Ok(k) = exp
                    && self.too_big_for_memory(k, *n)
                {
                    return Ok(());
                }
                let real = self.real(|fs| fs.set_file_size(f, *n).map(|_| Out::Unit));
                let (_, node) = agree!(real, exp);
                self.model.resize(node, *n);
            }
            Op::SetLimit(a, n) => {
                let f = fd!(a);
                let exp: R<usize> = (|| {
                    let m = self.model.get_file(f)?;
                    if self.model.nodes[&m.node].eff().size > *n {
                        return refuse_code("FileTooLarge", &["C04"], "limit below the current size");
                    }
                    Ok(m.node)
                })();
                let real = self.real(|fs| fs.set_file_size_limit(f, *n).map(|_| Out::Unit));
                let (_, node) = agree!(real, exp);
                self.model.touched.insert(node);
                self.model.nodes.get_mut(&node).unwrap().eff_mut().limit = Some(*n);
            }
            Op::SetATime(a, t) | Op::SetMTime(a, t) => {
                let f = fd!(a);
                let at = matches!(op, Op::SetATime(..));
                let exp = self.model.get_any(f).map(|m| m.node);
                let real = self.real(|fs| {
                    if at { fs.set_accessed_time(f, *t)? } else { fs.set_modified_time(f, *t)? };
                    Ok(Out::Unit)
                });
                let (_, node) = agree!(real, exp);
                self.model.touched.insert(node);
                self.model.allocated = true;
                let m = self.model.nodes.get_mut(&node).unwrap().eff_mut();
                if at { m.atime = *t } else { m.mtime = *t };
            }
            Op::SetMeta(a, w, v) => {
                let f = fd!(a);
                let exp: R<usize> = (|| {
                    let m = self.model.get_any(f)?;
                    let nd = &self.model.nodes[&m.node];
                    if *w == 1 {
                        return refuse(&["C19"], "change of the node number");
                    }
                    if *w == 2 {
                        return refuse(&["C19"], "change of the file kind");
                    }
                    if *w == 3 && (m.kind == Kind::Dir || *v > nd.eff().max()) {
                        return refuse_code("FileTooLarge", &["C04"], "size beyond the limit");
                    }
                    if *w == 0 && m.kind == Kind::File && nd.eff().size > *v {
                        return refuse_code("FileTooLarge", &["C04"], "limit below the current size");
                    }
                    Ok(m.node)
                })();
                if (f <= 2 && !self.model.fds.contains_key(&f)) || *w == 3 && self.model.fds.get(&f).is_some_and(|m| m.kind == Kind::Dir) {
                    return Ok(());
                }
                if *w == 3
                    && let Ok(k) = exp
                    && self.too_big_for_memory(k, *v)
                {
                    return Ok(());
                }
                let is_dir = self.model.fds.get(&f).is_some_and(|m| m.kind == Kind::Dir);
                // the layout of a file may be unknown (files of earlier versions), never that of a mounted one
                if *w == 4 && (is_dir || exp.as_ref().is_ok_and(|n| self.model.nodes[n].mmeta.is_some())) {
                    return Ok(());
                }
                let real = self.real(|fs| {
                    let mut m = fs.metadata(f)?;
                    match w {
                        4 => m.chunk_type = None,
                        1 => m.node = m.node.wrapping_add(1),
                        2 => m.file_type = if m.file_type == FileType::Directory { FileType::RegularFile } else { FileType::Directory },
                        3 => m.size = *v,
                        _ => {
                            m.times.accessed = v.wrapping_mul(3) % 1000003;
                            m.times.modified = v.wrapping_mul(5) % 1000003;
                            m.times.created = v.wrapping_mul(7) % 1000003;
                            if !is_dir {
                                m.maximum_size_allowed = Some(*v);
                            }
                        }
                    }
                    fs.set_metadata(f, m)?;
                    Ok(Out::Unit)
                });
                let (_, node) = agree!(real, exp);
                self.model.touched.insert(node);
                self.model.allocated = true;
                if *w == 3 {
                    self.model.resize(node, *v);
                } else if *w == 4 {
                    self.model.nodes.get_mut(&node).unwrap().meta.chunk_type = None;
                } else {
                    let m = self.model.nodes.get_mut(&node).unwrap().eff_mut();
                    m.atime = v.wrapping_mul(3) % 1000003;
                    m.mtime = v.wrapping_mul(5) % 1000003;
                    m.ctime = v.wrapping_mul(7) % 1000003;
                    if !is_dir {
                        m.limit = Some(*v);
                    }
                }
            }
            Op::SetStat(a, r, fl) => {
                let f = fd!(a);
                let exp: R<()> = (|| {
                    let m = self.model.get_any(f)?;
                    if m.kind == Kind::Dir && (*fl & 5) != 0 {
                        return refuse(&["C09"], "append or nonblock on a directory");
                    }
                    Ok(())
                })();
                let real = self.real(|fs| fs.set_stat(f, stat(*r, *fl)).map(|_| Out::Unit));
                agree!(real, exp);
                let m = self.model.fds.get_mut(&f).unwrap();
                m.rights = *r;
                m.flags = *fl;
            }
            Op::GetStat(a) => {
                let f = fd!(a);
                let exp = self.model.get_any(f).map(|m| (m.kind, m.rights, m.flags));
                let real = self.real(|fs| {
                    let (t, s) = fs.get_stat(f)?;
                    Ok(Out::Stat(t == FileType::Directory, s.rights_base, s.flags.bits()))
                });
                let (o, (k, r, fl)) = agree!(real, exp);
                if let Out::Stat(d, r2, f2) = o
                    && (d != (k == Kind::Dir) || r2 != r || f2 != fl)
                {
                    return Err(self.mm(&["C09", "C11"], format!("stat of {f}: dir={d} rights={r2:x} flags={f2}, expected {k:?} {r:x} {fl}")));
                }
            }
            Op::Meta(a) => {
                let f = fd!(a);
                if f <= 2 && !self.model.fds.contains_key(&f) {
                    return Ok(());
                }
                let exp = self.model.get_any(f).map(|m| m.node);
                let real = self.real(|fs| fs.metadata(f).map(Out::Meta));
                let (o, n) = agree!(real, exp);
                if let Out::Meta(m) = o {
                    if Some(m.node) != self.model.nodes[&n].real {
                        return Err(self.mm(&["C09", "C19"], format!("descriptor {f} denotes node {}, expected {:?}", m.node, self.model.nodes[&n].real)));
                    }
                    self.cmp_meta(n, &m, "metadata")?;
                }
            }
            Op::OpenMeta(a, p) => {
                let f = fd!(a);
                let exp = self.model.get_dir(f).and_then(|d| self.model.find(d, p));
                let real = self.real(|fs| fs.open_metadata(f, p).map(Out::Meta));
                let (o, n) = agree!(real, exp);
                if let Out::Meta(m) = o {
                    if let Some(r) = self.model.nodes[&n].real
                        && r != m.node
                    {
                        return Err(self.mm(&["C07", "C06"], format!("path {p:?} leads to node {}, expected {r}", m.node)));
                    }
                    self.adopt(n, m.node)?;
                    self.cmp_meta(n, &m, "open_metadata")?;
                }
            }
            Op::Mkdir(a, p, t) => {
                let f = fd!(a);
                let exp = self.model.mkdir(f, p, *t);
                let real = self.real(|fs| fs.mkdir(f, p, FdStat::default(), *t).map(|_| Out::Unit));
                agree!(real, exp);
            }
            Op::RmFile(a, p) | Op::RmDir(a, p) => {
                let f = fd!(a);
                let file = matches!(op, Op::RmFile(..));
                let exp = self.model.get_dir(f).and_then(|d| self.model.remove(d, p, Some(if file { Kind::File } else { Kind::Dir }), false));
                let real = self.real(|fs| {
                    if file { fs.remove_file(f, p)? } else { fs.remove_dir(f, p)? };
                    Ok(Out::Unit)
                });
                agree!(real, exp);
            }
            Op::RmRec(a, p) => {
                let f = fd!(a);
                let exp = match self.model.get_dir(f) {
                    Ok(d) => self.rm_rec(d, p),
                    Err(e) => Err(e),
                };
                let real = self.real(|fs| fs.remove_recursive(f, p).map(|_| Out::Unit));
                agree!(real, exp);
            }
            Op::Link(a, p, b, r) | Op::Rename(a, p, b, r) => {
                let (f, g) = (fd!(a), fd!(b));
                let ren = matches!(op, Op::Rename(..));
                let exp = self.model.link(f, p, g, r, ren);
                let real = self.real(|fs| Ok(Out::Fd(if ren { fs.rename(f, p, g, r)? } else { fs.create_hard_link(f, p, g, r)? })));
                if exp.is_err() {
                    self.push_dead();
                }
                let (o, n) = agree!(real, exp);
                if let Out::Fd(x) = o {
                    let kind = self.model.nodes[&n].meta.kind;
                    self.adopt_fd(op, x, Fd { node: n, kind, cursor: 0, rights: (1 << 28) - 1, rights_inh: 0, flags: 0 })?;
                }
            }
            Op::List(a, start, k) => {
                let f = fd!(a);
                let exp = self.model.get_dir(f).map(|d| self.model.list(d, *start));
                let real = self.real(|fs| {
                    let mut v = vec![];
                    fs.with_direntries(f, *start, &mut |i, e| {
                        v.push((*i, String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).to_string(), e.node));
                        v.len() < *k
                    })?;
                    Ok(Out::List(v))
                });
                let (o, mut e) = agree!(real, exp);
                let Out::List(v) = o else { unreachable!() };
                e.truncate((*k).max(1));
                let ok = v.len() == e.len()
                    && v.iter().zip(e.iter()).all(|(x, y)| {
                        x.0 == y.0 && x.1 == y.1 && y.2.is_none_or(|n| self.model.nodes[&n].real.is_none_or(|r| r == x.2))
                    });
                if !ok {
                    let gn: Vec<_> = v.iter().map(|x| (x.0, x.1.as_bytes().to_vec())).collect();
                    let en: Vec<_> = e.iter().map(|x| (x.0, x.1.as_bytes().to_vec())).collect();
                    return Err(self.mm(&["C16", "C06"], format!("iteration yields {}, expected {}", show(&gn), show(&en))));
                }
            }
            Op::GetEntry(a, i) => {
                let f = fd!(a);
                let exp = self.model.get_dir(f).and_then(|d| {
                    match self.model.nodes[&d].entries.iter().find(|e| e.0 == *i) {
                        Some(e) => Ok((e.1.clone(), e.2)),
                        None => refuse(&["C16", "C06"], "no entry with this index"),
                    }
                });
                let real = self.real(|fs| {
                    let e = fs.get_direntry(f, *i)?;
                    Ok(Out::Entry(String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).to_string(), e.node))
                });
                let (o, (name, n)) = agree!(real, exp);
                if let Out::Entry(s, r) = o
                    && (s != name || self.model.nodes[&n].real.is_some_and(|x| x != r))
                {
                    return Err(self.mm(&["C16", "C17", "C06"], format!("entry {i} is {s:?} node {r}, expected {name:?}")));
                }
            }
            Op::Mount(p, m, pol) => {
                if self.model.mem_used.contains(m) {
                    return Ok(());
                }
                if let Policy::Explicit(n) = pol
                    && *n > 1 << 24
                    && !self.model.nodes.values().any(|x| x.meta.limit.is_some_and(|l| l < *n))
                {
                    return Ok(());
                }
                let pages = self.mems[*m].size();
                let exp = self.model.mount(p, *m, *pol, pages);
                let mem = self.mems[*m].clone();
                let pol2 = match pol {
                    Policy::PrevOrZero => MountedFileSizePolicy::PreviousOrZero,
                    Policy::PrevOrPages => MountedFileSizePolicy::PreviousOrMemoryPages,
                    Policy::Explicit(n) => MountedFileSizePolicy::Explicit(*n),
                    Policy::Pages => MountedFileSizePolicy::MemoryPages,
                };
                let real = self.real(|fs| fs.mount_memory_file(p, Box::new(mem), pol2).map(|_| Out::Unit));
                agree!(real, exp);
            }
            Op::Unmount(p) => {
                let exp = self.model.unmount(p);
                let real = self.real(|fs| fs.unmount_memory_file(p).map(|_| Out::Mem));
                agree!(real, exp);
            }
            Op::Init(p) | Op::Store(p) => {
                let init = matches!(op, Op::Init(_));
                // sizes larger than this would only exhaust the memory of the test process
                let big = self.model.nodes.values().any(|n| n.mount.is_some() && (n.meta.size > 1 << 24 || n.eff().size > 1 << 24));
                if big {
                    return Ok(());
                }
                let exp = if init { self.model.init_mem(p) } else { self.model.store_mem(p) };
                let real = self.real(|fs| {
                    if init { fs.init_memory_file(p)? } else { fs.store_memory_file(p)? };
                    Ok(Out::Unit)
                });
                agree!(real, exp);
            }
            Op::WriteMem(m, off, n, s) => {
                let d = pattern(*n, *s);
                let end = off + *n as u64;
                let mem = &self.mems[*m];
                let need = end.div_ceil(PAGE);
                if mem.size() < need {
                    mem.grow(need - mem.size());
                }
                mem.write(*off, &d);
                self.model.mems[*m].write(*off, &d);
                for (k, nd) in &self.model.nodes {
                    if nd.mount == Some(*m) {
                        self.model.touched.insert(*k);
                    }
                }
            }
            Op::Reopen => {
                if self.cfg.transient {
                    return Ok(());
                }
                self.fs = None;
                let (cfg, mem) = (self.cfg.clone(), self.mem.clone());
                match catch_unwind(AssertUnwindSafe(|| open_fs(&cfg, &mem))) {
                    Ok(f) => self.fs = Some(f),
                    Err(p) => {
                        return Err(self.mm(&["C14"], format!("reopening panics: {}", pmsg(p))));
                    }
                }
                self.model.reopen();
                for h in self.handles.iter_mut().skip(1) {
                    *h = None;
                }
                self.reopened = true;
                self.just_reopened = true;
                let cs = self.fs.as_ref().unwrap().storage.chunk_size();
                if cs != self.model.chunk_size {
                    return Err(self.mm(&["C14", "C15"], format!("chunk size after reopening is {cs}, expected {}", self.model.chunk_size)));
                }
            }
            Op::ChunkSize(n) => {
                let exp: R<()> = if self.cfg.transient || *n as usize == self.model.chunk_size || !self.model.allocated {
                    Ok(())
                } else {
                    refuse(&["C15"], "chunk size change after allocation")
                };
                let real = self.real(|fs| fs.storage.set_chunk_size(chunk_size(*n)).map(|_| Out::Unit));
                agree!(real, exp);
                if !self.cfg.transient {
                    self.model.chunk_size = *n as usize;
                }
                let cs = self.fs.as_ref().unwrap().storage.chunk_size();
                if cs != self.model.chunk_size {
                    return Err(self.mm(&["C15"], format!("chunk_size() is {cs}, expected {}", self.model.chunk_size)));
                }
            }
            Op::ChunkType(n) => {
                let real = self.real(|fs| {
                    fs.storage.set_chunk_type(if *n == 1 { ChunkType::V1 } else { ChunkType::V2 });
                    Ok(Out::Unit)
                });
                agree!(real, Ok::<(), Refuse>(()));
                if !self.cfg.transient {
                    self.model.chunk_type = *n;
                }
            }
            Op::Burst(a, p, n) => {
                let f = fd!(a);
                for i in 0..*n {
                    let path = format!("{p}{i}");
                    let exp = self.model.open(f, &path, (1 << 28) - 1, 0, 1, i as u64);
                    let real = self.real(|fs| {
                        let x = fs.open(f, &path, FdStat::default(), OpenFlags::CREATE, i as u64)?;
                        let nd = fs.metadata(x)?.node;
                        fs.close(x)?;
                        Ok(Out::Num(nd))
                    });
                    let (o, mfd) = agree!(real, exp);
                    if let Out::Num(x) = o {
                        self.adopt(mfd.node, x)?;
                    }
                }
            }
            Op::Check(l) => self.check(*l)?,
        }
        Ok(())
    }
    fn push_dead(&mut self) {
        self.handles.push(None);
        self.last_fd.push(u32::MAX);
    }
    fn cmp_read(&mut self, _op: &Op, node: usize, off: u64, exp: &[u8], k: u64, buf: &[u8]) -> Result<(), Mismatch> {
        if k as usize > buf.len() {
            return Err(self.mm(&["C01", "C10"], format!("read reports {k} bytes into a buffer of {}", buf.len())));
        }
        if k as usize != exp.len() {
            return Err(self.mm(
                &["C01", "C10"],
                format!("read at {off} transfers {k} bytes, expected {} (file size {}, buffer {})", exp.len(), self.model.nodes[&node].eff().size, buf.len()),
            ));
        }
        self.cmp_data(node, off, exp, &buf[..k as usize], "read")?;
        if buf[k as usize..].iter().any(|b| *b != 0xAA) {
            return Err(self.mm(&["C01"], "read writes beyond the bytes it reports".to_string()));
        }
        Ok(())
    }
    fn do_write(&mut self, op: &Op, f: u32, at: Option<u64>, ls: &[usize], seed: u32, plain: bool) -> Result<(), Mismatch> {
        let datas: Vec<Vec<u8>> = ls.iter().enumerate().map(|(i, l)| pattern(*l, seed.wrapping_add(i as u32))).collect();
        if let Ok(m) = self.model.get_file(f).cloned() {
            let off = if m.flags & 1 != 0 { self.model.nodes[&m.node].eff().size } else { at.unwrap_or(m.cursor) };
            let mut end = off;
            for l in ls {
                match end.checked_add(*l as u64) {
                    Some(e) if e <= self.model.nodes[&m.node].eff().max() => end = e,
                    _ => break,
                }
                if *l > 0 && self.too_big_for_memory(m.node, end) {
                    return Ok(());
                }
            }
        }
        let exp: R<(u64, u64)> = (|| {
            let m = self.model.get_file(f)?.clone();
            if m.rights & R_WRITE == 0 {
                return refuse(&["C11"], "no right to write");
            }
            let off = if m.flags & 1 != 0 { self.model.nodes[&m.node].eff().size } else { at.unwrap_or(m.cursor) };
            let mut w = 0;
            for d in &datas {
                w += self.model.write_at(m.node, off.wrapping_add(w), d)?;
            }
            Ok((off, w))
        })();
        let real = self.real(|fs| {
            if plain {
                return fs.write(f, &datas[0]).map(Out::Num);
            }
            let v: Vec<SrcBuf> = datas.iter().map(|b| SrcBuf { buf: b.as_ptr(), len: b.len() }).collect();
            Ok(Out::Num(match at {
                Some(o) => fs.write_vec_with_offset(f, &v, o)?,
                None => fs.write_vec(f, &v)?,
            }))
        });
        if let Ok(Err(c)) = &real {
            self.last_err = Some(format!("{op} -> {c}"));
        }
        let o = match self.agree(op, real, &exp)? {
            None => return Ok(()),
            Some(o) => o,
        };
        let (off, w) = exp.ok().unwrap();
        if let Out::Num(x) = o
            && x != w
        {
            return Err(self.mm(&["C01", "C10"], format!("write reports {x} bytes, expected {w}")));
        }
        if at.is_none() {
            self.model.fds.get_mut(&f).unwrap().cursor = off + w;
        }
        Ok(())
    }
}
pub fn pmsg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())
}
fn show(v: &[(u32, Vec<u8>)]) -> String {
    let mut s = String::from("[");
    for (i, (k, n)) in v.iter().enumerate() {
        if i > 30 {
            s += "...";
            break;
        }
        let t = String::from_utf8_lossy(&n[..n.len().min(20)]);
        s += &format!("{k}:{t} ");
    }
    s + "]"
}
