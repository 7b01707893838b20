//! Reference model: what the properties say the file system does. Independent of the implementation:
//! no chunks, no caches, no descriptor recycling.
use std::collections::{BTreeMap, BTreeSet};

pub const MAX_FILE_SIZE: u64 = ((u32::MAX - 10) as u64) * 4096;
pub const PAGE: u64 = 65536;
pub const R_READ: u64 = 1 << 1;
pub const R_WRITE: u64 = 1 << 6;
pub const DOT: u32 = u32::MAX - 5;
pub const DOTDOT: u32 = u32::MAX - 4;
const B: u64 = 512;

/// sparse byte content of unbounded extent, zero by default
#[derive(Clone, Default)]
pub struct Bytes {
    pub blocks: BTreeMap<u64, Box<[u8; B as usize]>>,
}
impl Bytes {
    pub fn read(&self, off: u64, len: usize) -> Vec<u8> {
        let mut v = vec![0u8; len];
        if len == 0 {
            return v;
        }
        let end = off + len as u64;
        for (k, b) in self.blocks.range(off / B..=(end - 1) / B) {
            let s = (k * B).max(off);
            let e = (k * B + B).min(end);
            v[(s - off) as usize..(e - off) as usize]
                .copy_from_slice(&b[(s - k * B) as usize..(e - k * B) as usize]);
        }
        v
    }
    pub fn write(&mut self, off: u64, data: &[u8]) {
        let end = off + data.len() as u64;
        let mut p = off;
        while p < end {
            let k = p / B;
            let e = (k * B + B).min(end);
            let blk = self.blocks.entry(k).or_insert_with(|| Box::new([0; B as usize]));
            blk[(p - k * B) as usize..(e - k * B) as usize]
                .copy_from_slice(&data[(p - off) as usize..(e - off) as usize]);
            p = e;
        }
    }
    pub fn cut(&mut self, n: u64) {
        let k = n / B;
        self.blocks.split_off(&(k + 1));
        if let Some(b) = self.blocks.get_mut(&k) {
            b[(n - k * B) as usize..].fill(0);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Dir,
    File,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Meta {
    pub kind: Kind,
    pub links: u64,
    pub size: u64,
    pub atime: u64,
    pub mtime: u64,
    pub ctime: u64,
    pub chunk_type: Option<u8>,
    pub limit: Option<u64>,
}
impl Meta {
    pub fn max(&self) -> u64 {
        self.limit.unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE)
    }
}

#[derive(Clone)]
pub struct Node {
    pub meta: Meta,
    pub mmeta: Option<Meta>,
    pub mount: Option<usize>,
    pub data: Bytes,
    pub entries: Vec<(u32, String, usize)>,
    pub real: Option<u64>,
    pub was_cut: bool,
    pub was_mounted: bool,
}
impl Node {
    pub fn eff(&self) -> &Meta {
        if self.mount.is_some() { self.mmeta.as_ref().unwrap() } else { &self.meta }
    }
    pub fn eff_mut(&mut self) -> &mut Meta {
        if self.mount.is_some() { self.mmeta.as_mut().unwrap() } else { &mut self.meta }
    }
}

#[derive(Clone)]
pub struct Fd {
    pub node: usize,
    pub kind: Kind,
    pub cursor: u64,
    pub rights: u64,
    pub rights_inh: u64,
    pub flags: u16,
}

/// expected refusal: `code` is the Debug name of the error when a property fixes it
#[derive(Clone, Debug)]
pub struct Refuse {
    pub code: Option<&'static str>,
    pub tags: &'static [&'static str],
    pub why: &'static str,
}
pub fn refuse<T>(tags: &'static [&'static str], why: &'static str) -> Result<T, Refuse> {
    Err(Refuse { code: None, tags, why })
}
pub fn refuse_code<T>(code: &'static str, tags: &'static [&'static str], why: &'static str) -> Result<T, Refuse> {
    Err(Refuse { code: Some(code), tags, why })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Policy {
    PrevOrZero,
    PrevOrPages,
    Explicit(u64),
    Pages,
}

#[derive(Clone)]
pub struct Model {
    pub nodes: BTreeMap<usize, Node>,
    pub next: usize,
    pub fds: BTreeMap<u32, Fd>,
    pub mems: Vec<Bytes>,
    pub mem_pages: Vec<u64>,
    pub mem_used: BTreeSet<usize>,
    pub chunk_size: usize,
    pub chunk_type: u8,
    pub allocated: bool,
    pub transient: bool,
    pub used_real: BTreeSet<u64>,
    pub touched: BTreeSet<usize>,
}

fn meta(kind: Kind, ctime: u64, ct: Option<u8>) -> Meta {
    Meta { kind, links: 1, size: 0, atime: ctime, mtime: ctime, ctime, chunk_type: ct, limit: None }
}

pub type R<T> = Result<T, Refuse>;

impl Model {
    pub fn new(transient: bool, chunk_size: usize, chunk_type: u8, mems: usize) -> Model {
        let mut m = Model {
            nodes: BTreeMap::new(),
            next: 1,
            fds: BTreeMap::new(),
            mems: vec![Bytes::default(); mems],
            mem_pages: vec![0; mems],
            mem_used: BTreeSet::new(),
            chunk_size,
            chunk_type: if transient { 1 } else { chunk_type },
            allocated: false,
            transient,
            used_real: BTreeSet::new(),
            touched: BTreeSet::new(),
        };
        m.nodes.insert(0, m.node(meta(Kind::Dir, 0, None)));
        m.nodes.get_mut(&0).unwrap().real = Some(0);
        m.used_real.insert(0);
        m.fds.insert(3, Fd { node: 0, kind: Kind::Dir, cursor: 0, rights: (1 << 28) - 1, rights_inh: (1 << 28) - 1, flags: 0 });
        m
    }
    fn node(&self, meta: Meta) -> Node {
        Node { meta, mmeta: None, mount: None, data: Bytes::default(), entries: vec![], real: None, was_cut: false, was_mounted: false }
    }
    pub fn reopen(&mut self) {
        self.fds.retain(|k, _| *k == 3);
        let f = self.fds.get_mut(&3).unwrap();
        f.rights = (1 << 28) - 1;
        f.rights_inh = (1 << 28) - 1;
        f.flags = 0;
        for n in self.nodes.values_mut() {
            n.mount = None;
        }
        self.mem_used.clear();
        self.chunk_type = 2;
    }
    pub fn get_dir(&self, fd: u32) -> R<usize> {
        match self.fds.get(&fd) {
            None => refuse_code("BadFileDescriptor", &["C09"], "descriptor is not open"),
            Some(f) if f.kind == Kind::Dir => Ok(f.node),
            _ => refuse(&["C09"], "descriptor is a file, not a directory"),
        }
    }
    pub fn get_file(&self, fd: u32) -> R<&Fd> {
        match self.fds.get(&fd) {
            None => refuse_code("BadFileDescriptor", &["C09"], "descriptor is not open"),
            Some(f) if f.kind == Kind::File => Ok(f),
            _ => refuse(&["C09"], "descriptor is a directory"),
        }
    }
    pub fn get_any(&self, fd: u32) -> R<&Fd> {
        match self.fds.get(&fd) {
            None => refuse_code("BadFileDescriptor", &["C09"], "descriptor is not open"),
            Some(f) => Ok(f),
        }
    }
    pub fn parts(path: &str) -> R<Vec<String>> {
        if path.starts_with('/') {
            return refuse(&["C07"], "absolute path");
        }
        let mut v: Vec<String> = vec![];
        for p in path.split('/') {
            if p == ".." {
                if v.pop().is_none() {
                    return refuse(&["C07"], "path escapes the start directory");
                }
            } else if p.is_empty() || p == "." {
            } else if p.len() > 255 {
                return refuse_code("FilenameTooLong", &["C17", "C20"], "component longer than 255 bytes");
            } else {
                v.push(p.to_string());
            }
        }
        Ok(v)
    }
    /// Ok((node, parent))
    pub fn walk(&self, dir: usize, parts: &[String]) -> Option<(usize, usize)> {
        let (mut cur, mut parent) = (dir, dir);
        for p in parts {
            parent = cur;
            cur = self.nodes[&cur].entries.iter().find(|e| e.1 == *p)?.2;
        }
        Some((cur, parent))
    }
    pub fn find(&self, dir: usize, path: &str) -> R<usize> {
        let parts = Self::parts(path)?;
        match self.walk(dir, &parts) {
            Some((n, _)) => Ok(n),
            None => refuse(&["C07", "C06"], "no such file or directory"),
        }
    }
    fn add_entry(&mut self, dir: usize, name: &str, node: usize) {
        let d = self.nodes.get_mut(&dir).unwrap();
        let idx = d.entries.last().map(|e| e.0 + 1).unwrap_or(1);
        d.entries.push((idx, name.to_string(), node));
        d.meta.size += 1;
        self.touched.insert(dir);
        self.allocated = true;
    }
    /// create missing directories; returns (dir of the leaf, leaf name); leaf itself is created if `leaf` is given
    fn create_path(&mut self, dir: usize, parts: &[String], leaf: Option<Kind>, ctime: u64) -> R<usize> {
        let mut cur = dir;
        let mut i = 0;
        while i < parts.len() {
            match self.nodes[&cur].entries.iter().find(|e| e.1 == parts[i]) {
                Some(e) => cur = e.2,
                None => break,
            }
            i += 1;
        }
        if i < parts.len() && self.nodes[&cur].meta.kind != Kind::Dir {
            return refuse(&["C07", "C20"], "a path component is a file");
        }
        while i < parts.len() {
            let last = i + 1 == parts.len();
            let kind = if last {
                match leaf {
                    Some(k) => k,
                    None => return Ok(cur),
                }
            } else {
                Kind::Dir
            };
            let id = self.next;
            self.next += 1;
            let ct = if kind == Kind::File { Some(self.chunk_type) } else { None };
            let n = self.node(meta(kind, ctime, ct));
            self.nodes.insert(id, n);
            self.touched.insert(id);
            self.add_entry(cur, &parts[i], id);
            cur = id;
            i += 1;
        }
        Ok(cur)
    }
    fn refs(&self, node: usize) -> usize {
        self.fds.values().filter(|f| f.node == node).count()
    }
    fn drop_name(&mut self, parent: usize, name: &str) {
        let d = self.nodes.get_mut(&parent).unwrap();
        let p = d.entries.iter().position(|e| e.1 == name).unwrap();
        let n = d.entries.remove(p).2;
        d.meta.size -= 1;
        self.touched.insert(parent);
        self.touched.insert(n);
        let nd = self.nodes.get_mut(&n).unwrap();
        nd.meta.links -= 1;
        if let Some(m) = nd.mmeta.as_mut() {
            m.links = nd.meta.links;
        }
        if nd.meta.links == 0 {
            self.nodes.remove(&n);
        }
    }
    pub fn remove(&mut self, dir: usize, path: &str, expect: Option<Kind>, renaming: bool) -> R<()> {
        let parts = Self::parts(path)?;
        let Some((n, parent)) = self.walk(dir, &parts) else {
            return refuse(&["C07", "C06"], "no such file or directory");
        };
        let Some(name) = parts.last() else {
            return refuse(&["C20", "C12", "C06"], "the start directory itself cannot be removed");
        };
        let nd = &self.nodes[&n];
        if nd.mount.is_some() {
            return refuse(&["C12"], "memory is mounted on the file");
        }
        if nd.meta.kind == Kind::Dir {
            if expect == Some(Kind::File) {
                return refuse(&["C12"], "directory removed as a file");
            }
            if !renaming && !nd.entries.is_empty() {
                return refuse(&["C12"], "directory is not empty");
            }
        } else if expect == Some(Kind::Dir) {
            return refuse(&["C12"], "file removed as a directory");
        }
        if nd.meta.links == 1 && self.refs(n) > 0 {
            return refuse(&["C12"], "last name of an open file");
        }
        let name = name.clone();
        self.drop_name(parent, &name);
        Ok(())
    }
    pub fn open_node(&mut self, n: usize, rights: u64, flags: u16, oflags: u16) -> R<Fd> {
        let nd = self.nodes.get_mut(&n).unwrap();
        let kind = nd.meta.kind;
        let mut cursor = 0;
        if kind == Kind::File {
            if oflags & 2 != 0 {
                return refuse(&["C20"], "file opened as a directory");
            }
            if flags & 1 != 0 {
                cursor = nd.eff().size;
            }
            if oflags & 8 != 0 {
                self.resize(n, 0);
            }
        }
        Ok(Fd { node: n, kind, cursor, rights, rights_inh: rights, flags })
    }
    pub fn open(&mut self, fd: u32, path: &str, rights: u64, flags: u16, oflags: u16, ctime: u64) -> R<Fd> {
        let d = self.get_dir(fd)?;
        let parts = Self::parts(path)?;
        match self.walk(d, &parts) {
            Some((n, _)) => {
                if oflags & 5 == 5 {
                    return refuse(&["C20", "C06"], "exclusive create of an existing name");
                }
                self.open_node(n, rights, flags, oflags)
            }
            None => {
                if oflags & 1 == 0 {
                    return refuse(&["C07", "C06"], "no such file or directory");
                }
                let kind = if oflags & 2 != 0 { Kind::Dir } else { Kind::File };
                let n = self.create_path(d, &parts, Some(kind), ctime)?;
                Ok(Fd { node: n, kind, cursor: 0, rights, rights_inh: rights, flags })
            }
        }
    }
    pub fn mkdir(&mut self, fd: u32, path: &str, ctime: u64) -> R<usize> {
        let d = self.get_dir(fd)?;
        let parts = Self::parts(path)?;
        if self.walk(d, &parts).is_some() {
            return refuse(&["C06", "C20"], "name exists");
        }
        self.create_path(d, &parts, Some(Kind::Dir), ctime)
    }
    fn in_subtree(&self, root: usize, x: usize) -> bool {
        root == x || self.nodes[&root].entries.iter().any(|e| self.in_subtree(e.2, x))
    }
    pub fn link(&mut self, ofd: u32, op: &str, nfd: u32, np: &str, renaming: bool) -> R<usize> {
        let sd = self.get_dir(ofd)?;
        let dd = self.get_dir(nfd)?;
        let src = self.find(sd, op)?;
        let nparts = match Self::parts(np) {
            Ok(p) => p,
            // several reasons to refuse: any of them may be given
            Err(r) if self.nodes[&src].meta.kind == Kind::Dir || self.nodes[&src].mount.is_some() => return Err(Refuse { code: None, ..r }),
            Err(r) => return Err(r),
        };
        let skind = self.nodes[&src].meta.kind;
        let dst = self.walk(dd, &nparts).map(|x| x.0);
        if !renaming && skind == Kind::Dir {
            return refuse(&["C08", "C20"], "hard link to a directory");
        }
        if dst == Some(src) {
            return Ok(src);
        }
        if renaming {
            if Self::parts(op)?.is_empty() {
                return refuse(&["C08", "C20"], "renaming the start directory");
            }
            if self.nodes[&src].mount.is_some() {
                return refuse(&["C12"], "renaming a file with mounted memory");
            }
            if skind == Kind::Dir {
                let mut cur = dd;
                let mut bad = self.in_subtree(src, cur);
                for p in &nparts {
                    match self.nodes[&cur].entries.iter().find(|e| e.1 == *p) {
                        Some(e) => cur = e.2,
                        None => break,
                    }
                    bad |= cur == src;
                }
                if bad {
                    return refuse(&["C08", "C20"], "renaming a directory into itself");
                }
            }
        }
        if let Some(dst) = dst {
            let dm = self.nodes[&dst].meta.kind;
            if dm != skind {
                return refuse(&["C08", "C20"], "destination is of the other kind");
            }
            if dm == Kind::Dir && !self.nodes[&dst].entries.is_empty() {
                return refuse(&["C12"], "destination directory is not empty");
            }
            self.remove(dd, np, None, false)?;
        }
        let ctime = self.nodes[&src].eff().ctime;
        let dir = self.create_path(dd, &nparts, None, ctime)?;
        let name = nparts.last().unwrap().clone();
        self.touched.insert(src);
        let s = self.nodes.get_mut(&src).unwrap();
        s.meta.links += 1;
        if let Some(m) = s.mmeta.as_mut() {
            m.links = s.meta.links;
        }
        self.add_entry(dir, &name, src);
        if renaming {
            self.remove(sd, op, None, true).expect("model: unlink of the old name");
        }
        Ok(src)
    }
    pub fn resize(&mut self, n: usize, size: u64) {
        self.touched.insert(n);
        let nd = self.nodes.get_mut(&n).unwrap();
        if nd.mount.is_none() && size < nd.meta.size {
            nd.data.cut(size);
            nd.was_cut = true;
        }
        nd.eff_mut().size = size;
    }
    pub fn read_at(&self, n: usize, off: u64, len: u64) -> Vec<u8> {
        let nd = &self.nodes[&n];
        let size = nd.eff().size;
        if off >= size {
            return vec![];
        }
        let k = len.min(size - off) as usize;
        match nd.mount {
            Some(m) => self.mems[m].read(off, k),
            None => nd.data.read(off, k),
        }
    }
    pub fn write_at(&mut self, n: usize, off: u64, data: &[u8]) -> R<u64> {
        if data.is_empty() {
            return Ok(0);
        }
        let nd = self.nodes.get_mut(&n).unwrap();
        let end = off.checked_add(data.len() as u64);
        let max = nd.eff().max();
        if end.is_none_or(|e| e > max) {
            return refuse_code("FileTooLarge", &["C04"], "write beyond the size limit");
        }
        let end = end.unwrap();
        self.touched.insert(n);
        match nd.mount {
            Some(m) => self.mems[m].write(off, data),
            None => nd.data.write(off, data),
        }
        let e = nd.eff_mut();
        e.size = e.size.max(end);
        Ok(data.len() as u64)
    }
    pub fn policy(p: Policy, prev: Option<u64>, pages: u64) -> u64 {
        let cur = pages * PAGE;
        match p {
            Policy::PrevOrZero => prev.filter(|x| *x <= cur).unwrap_or(0),
            Policy::PrevOrPages => prev.filter(|x| *x <= cur).unwrap_or(cur),
            Policy::Explicit(s) => s,
            Policy::Pages => cur,
        }
    }
    pub fn find_named(&mut self, path: &str, create: bool) -> R<usize> {
        let p = path.strip_prefix('/').unwrap_or(path);
        let fd = self.open(3, p, (1 << 28) - 1, 0, if create { 1 } else { 0 }, 0)?;
        if fd.kind == Kind::Dir {
            return refuse(&["C13", "C20"], "not a regular file");
        }
        Ok(fd.node)
    }
    pub fn mount(&mut self, path: &str, mem: usize, p: Policy, pages: u64) -> R<()> {
        let n = self.find_named(path, true)?;
        let nd = self.nodes.get_mut(&n).unwrap();
        if nd.mount.is_some() {
            return refuse(&["C13"], "already mounted");
        }
        let size = Self::policy(p, nd.mmeta.as_ref().map(|m| m.size), pages);
        let mut m = nd.mmeta.clone().unwrap_or(nd.meta.clone());
        m.links = nd.meta.links;
        if size > m.max() {
            return refuse_code("FileTooLarge", &["C04", "C13"], "mounted size beyond the limit");
        }
        m.size = size;
        nd.mmeta = Some(m);
        nd.mount = Some(mem);
        nd.was_mounted = true;
        self.touched.insert(n);
        self.mem_used.insert(mem);
        self.allocated = true;
        Ok(())
    }
    pub fn unmount(&mut self, path: &str) -> R<usize> {
        let n = self.find_named(path, false)?;
        let nd = self.nodes.get_mut(&n).unwrap();
        self.touched.insert(n);
        match nd.mount.take() {
            None => refuse(&["C13"], "not mounted"),
            Some(m) => {
                self.mem_used.remove(&m);
                Ok(m)
            }
        }
    }
    pub fn init_mem(&mut self, path: &str) -> R<()> {
        let n = self.find_named(path, false)?;
        let nd = self.nodes.get_mut(&n).unwrap();
        let Some(m) = nd.mount else { return refuse(&["C13"], "not mounted") };
        let size = nd.meta.size;
        self.touched.insert(n);
        nd.mmeta = Some(nd.meta.clone());
        let mut off = 0;
        while off < size {
            let k = (size - off).min(PAGE);
            let d = nd.data.read(off, k as usize);
            self.mems[m].write(off, &d);
            off += k;
        }
        Ok(())
    }
    pub fn store_mem(&mut self, path: &str) -> R<()> {
        let n = self.find_named(path, false)?;
        let nd = self.nodes.get_mut(&n).unwrap();
        let Some(m) = nd.mount else { return refuse(&["C13"], "not mounted") };
        let mm = nd.mmeta.clone().unwrap();
        if mm.size > nd.meta.max() {
            return refuse_code("FileTooLarge", &["C04", "C13"], "storing beyond the file's size limit");
        }
        self.touched.insert(n);
        let size = mm.size;
        let mut off = 0;
        while off < size {
            let k = (size - off).min(PAGE);
            let d = self.mems[m].read(off, k as usize);
            nd.data.write(off, &d);
            off += k;
        }
        if size < nd.meta.size {
            nd.data.cut(size);
            nd.was_cut = true;
        }
        nd.meta = mm;
        Ok(())
    }
    pub fn list(&self, dir: usize, start: Option<u32>) -> Vec<(u32, String, Option<usize>)> {
        let mut v = vec![];
        let s = match start {
            None | Some(DOT) => {
                v.push((DOT, ".".into(), Some(dir)));
                v.push((DOTDOT, "..".into(), None));
                0
            }
            Some(DOTDOT) => {
                v.push((DOTDOT, "..".into(), None));
                0
            }
            Some(s) => s,
        };
        for e in &self.nodes[&dir].entries {
            if e.0 >= s {
                v.push((e.0, e.1.clone(), Some(e.2)));
            }
        }
        v
    }
}
