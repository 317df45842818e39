//! An in-memory file system with fault injection.  The real `std::fs` code of the program runs
//! unmodified on top of it: the libc entry points it uses are defined in `posix.rs`.
use crate::{rng::Rng, sched};
use libc::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub const FD_BASE: i32 = 1 << 20;
pub type Ino = u64;
type R<T> = Result<T, i32>;

#[derive(Clone, Debug)]
pub enum Kind {
    File(Vec<u8>),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub mode: u32,
    pub mtime: u64,
    pub ctime: u64,
    pub nlink: u32,
    pub parent: Ino,
    opens: u32,
}
struct Open {
    ino: Ino,
    pos: u64,
    append: bool,
    rd: bool,
    wr: bool,
    path: Vec<u8>,
    wrote: bool,
    ents: Vec<(Vec<u8>, Ino)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    Open,
    Read,
    Write,
    Close,
    Stat,
    Mkdir,
    Unlink,
    Rename,
    Readdir,
    Realpath,
    Sync,
    Link,
}
impl Op {
    pub fn parse(s: &str) -> Option<Op> {
        use Op::*;
        Some(match s {
            "open" => Open,
            "read" => Read,
            "write" => Write,
            "close" => Close,
            "stat" => Stat,
            "mkdir" => Mkdir,
            "unlink" => Unlink,
            "rename" => Rename,
            "readdir" => Readdir,
            "realpath" => Realpath,
            "sync" => Sync,
            "link" => Link,
            _ => return None,
        })
    }
}

#[derive(Clone, Debug)]
pub enum Effect {
    Errno(i32),
    /// at most n bytes are transferred
    Short(usize),
    /// the operation takes this long (simulated)
    Delay(u64),
}
#[derive(Clone, Debug)]
pub struct Rule {
    pub op: Op,
    /// the canonical path must end with this
    pub suffix: String,
    pub skip: u32,
    pub times: u32,
    pub effect: Effect,
    pub label: &'static str,
    pub hits: u32,
}

#[derive(Clone, Debug)]
pub struct Log {
    pub tid: u32,
    pub at: u64,
    pub op: Op,
    pub path: String,
    pub write: bool,
    pub res: i64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum RawEvent {
    Create(String, bool),
    Modify(String),
    CloseWrite(String),
    Attrib(String),
    Delete(String, bool),
    MovedFrom(String, u32, bool),
    MovedTo(String, u32, bool),
    Overflow,
}
#[derive(Default)]
pub struct Watch {
    dirs: BTreeMap<Ino, String>,
    pub queue: VecDeque<RawEvent>,
    pub cap: usize,
    pub overflows: u64,
    lost: bool,
    key: Box<u64>,
}

pub struct Vfs {
    nodes: BTreeMap<Ino, Inode>,
    next: Ino,
    cwd: Vec<u8>,
    fds: BTreeMap<i32, Open>,
    next_fd: i32,
    pub dirs: BTreeSet<usize>,
    pub rules: Vec<Rule>,
    pub log: Vec<Log>,
    pub log_on: bool,
    pub capacity: Option<u64>,
    used: u64,
    pub rng: Rng,
    pub watches: Vec<Watch>,
    cookie: u32,
    pub fault_counts: BTreeMap<String, u64>,
    pub chunk: usize,
    pub shuffle: bool,
    pub ops: u64,
    /// granularity of file times (ns)
    pub granularity: u64,
    /// capacity of new watch queues
    pub watch_cap: usize,
}

pub const ROOT: Ino = 1;
static mut VFS: *mut Vfs = core::ptr::null_mut();

pub fn vfs() -> &'static mut Vfs {
    unsafe { &mut *VFS }
}
/// True once a simulation was started in this process.
pub fn ready() -> bool {
    unsafe { !VFS.is_null() }
}
pub fn init(seed: u64) {
    let mut nodes = BTreeMap::new();
    nodes.insert(
        ROOT,
        Inode { kind: Kind::Dir(BTreeMap::new()), mode: 0o755, mtime: sched::REAL_BASE, ctime: sched::REAL_BASE, nlink: 1, parent: ROOT, opens: 0 },
    );
    unsafe {
        VFS = Box::into_raw(Box::new(Vfs {
            nodes,
            next: 2,
            cwd: b"/".to_vec(),
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            dirs: BTreeSet::new(),
            rules: vec![],
            log: vec![],
            log_on: true,
            capacity: None,
            used: 0,
            rng: Rng::new(seed ^ 0xf5),
            watches: vec![],
            cookie: 0,
            fault_counts: BTreeMap::new(),
            chunk: usize::MAX,
            shuffle: true,
            ops: 0, granularity: 1, watch_cap: 16384,
        }));
    }
}

struct Walk {
    parent: Ino,
    name: Vec<u8>,
    ino: Option<Ino>,
    canon: Vec<u8>,
    trailing: bool,
}

impl Vfs {
    pub fn realtime(&self) -> u64 {
        (crate::posix::real_ns()) as u64
    }
    fn node(&self, i: Ino) -> &Inode {
        self.nodes.get(&i).expect("ino")
    }
    fn node_mut(&mut self, i: Ino) -> &mut Inode {
        self.nodes.get_mut(&i).expect("ino")
    }
    fn path_of_dir(&self, mut i: Ino) -> Vec<u8> {
        let mut parts: Vec<Vec<u8>> = vec![];
        while i != ROOT {
            let p = self.node(i).parent;
            if let Kind::Dir(m) = &self.node(p).kind {
                match m.iter().find(|(_, &v)| v == i) {
                    Some((n, _)) => parts.push(n.clone()),
                    None => break,
                }
            }
            if p == i {
                break;
            }
            i = p;
        }
        let mut out = vec![];
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend_from_slice(p);
        }
        if out.is_empty() {
            out.push(b'/');
        }
        out
    }

    fn walk(&self, path: &[u8], follow_last: bool) -> R<Walk> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() > 4095 {
            return Err(ENAMETOOLONG);
        }
        let mut todo: VecDeque<Vec<u8>> = VecDeque::new();
        let push = |todo: &mut VecDeque<Vec<u8>>, p: &[u8], front: bool| {
            let comps: Vec<Vec<u8>> = p.split(|&b| b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
            if front {
                for c in comps.into_iter().rev() {
                    todo.push_front(c);
                }
            } else {
                todo.extend(comps);
            }
        };
        let mut cur = ROOT;
        if path[0] != b'/' {
            let cwd = self.cwd.clone();
            push(&mut todo, &cwd, false);
        }
        push(&mut todo, path, false);
        let trailing = path.len() > 1 && path[path.len() - 1] == b'/';
        let mut links = 0;
        let mut last: (Ino, Vec<u8>) = (ROOT, b".".to_vec());
        while let Some(c) = todo.pop_front() {
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let m = match &self.node(cur).kind {
                Kind::Dir(m) => m,
                _ => return Err(ENOTDIR),
            };
            if self.node(cur).mode & 0o111 == 0 {
                return Err(EACCES);
            }
            if c == b"." {
                last = (cur, b".".to_vec());
                continue;
            }
            if c == b".." {
                cur = self.node(cur).parent;
                last = (cur, b".".to_vec());
                continue;
            }
            let next = match m.get(&c) {
                Some(&n) => n,
                None => {
                    if todo.is_empty() {
                        let mut canon = self.path_of_dir(cur);
                        if canon != b"/" {
                            canon.push(b'/');
                        }
                        canon.extend_from_slice(&c);
                        return Ok(Walk { parent: cur, name: c, ino: None, canon, trailing });
                    }
                    return Err(ENOENT);
                }
            };
            let is_last = todo.is_empty();
            if let Kind::Link(t) = &self.node(next).kind {
                if !is_last || follow_last || trailing {
                    links += 1;
                    if links > 40 {
                        return Err(ELOOP);
                    }
                    if t.first() == Some(&b'/') {
                        cur = ROOT;
                    }
                    let t = t.clone();
                    push(&mut todo, &t, true);
                    last = (cur, b".".to_vec());
                    continue;
                }
            }
            if is_last {
                let mut canon = self.path_of_dir(cur);
                if canon != b"/" {
                    canon.push(b'/');
                }
                canon.extend_from_slice(&c);
                return Ok(Walk { parent: cur, name: c, ino: Some(next), canon, trailing });
            }
            last = (cur, c);
            cur = next;
        }
        let _ = last;
        // ended on a directory reached through ".", ".." or "/"
        Ok(Walk { parent: self.node(cur).parent, name: b".".to_vec(), ino: Some(cur), canon: self.path_of_dir(cur), trailing })
    }

    fn emit(&mut self, dir: Ino, name: &[u8], mk: impl Fn(String) -> RawEvent) {
        let name = String::from_utf8_lossy(name).into_owned();
        let mut wakes = vec![];
        for w in self.watches.iter_mut() {
            if let Some(p) = w.dirs.get(&dir) {
                let full = format!("{}/{}", p, name);
                if w.lost {
                    *self.fault_counts.entry("watch-event-lost".into()).or_default() += 1;
                    continue;
                }
                if w.queue.len() >= w.cap {
                    if w.queue.back() != Some(&RawEvent::Overflow) {
                        w.queue.push_back(RawEvent::Overflow);
                        w.overflows += 1;
                        *self.fault_counts.entry("watch-queue-overflow".into()).or_default() += 1;
                    }
                } else {
                    w.queue.push_back(mk(full));
                }
                wakes.push(&*w.key as *const u64 as usize);
            }
        }
        for k in wakes {
            sched::wake(k, 64, !0);
        }
    }

    /// Every operation passes here first: scheduling point, delays, faults.
    fn gate(op: Op, canon: &[u8]) -> R<Option<usize>> {
        let v = vfs();
        v.ops += 1;
        let p = String::from_utf8_lossy(canon).into_owned();
        let mut delay = 0;
        let mut out = Ok(None);
        for r in v.rules.iter_mut() {
            if r.op == op && p.ends_with(&r.suffix) {
                if r.skip > 0 {
                    r.skip -= 1;
                    continue;
                }
                if r.times == 0 {
                    continue;
                }
                r.times -= 1;
                r.hits += 1;
                *v.fault_counts.entry(r.label.to_string()).or_default() += 1;
                match r.effect {
                    Effect::Errno(e) => out = Err(e),
                    Effect::Short(n) => out = Ok(Some(n)),
                    Effect::Delay(d) => delay += d,
                }
                if out.is_err() {
                    break;
                }
            }
        }
        if delay > 0 {
            sched::sleep_ns(delay);
        }
        out
    }

    fn log(&mut self, op: Op, path: &[u8], write: bool, res: i64) {
        if self.log_on {
            let l = Log { tid: sched::me(), at: sched::now(), op, path: String::from_utf8_lossy(path).into_owned(), write, res };
            self.log.push(l);
        }
    }

    fn alloc(&mut self, kind: Kind, mode: u32, parent: Ino) -> Ino {
        let i = self.next;
        self.next += 1;
        let mtime = self.stamp();
        self.nodes.insert(i, Inode { kind, mode, mtime, ctime: mtime, nlink: 1, parent, opens: 0 });
        i
    }
    fn dir_mut(&mut self, d: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        match &mut self.node_mut(d).kind {
            Kind::Dir(m) => m,
            _ => panic!("not a dir"),
        }
    }
    fn unref(&mut self, i: Ino) {
        let gone = {
            let n = self.node_mut(i);
            n.nlink == 0 && n.opens == 0
        };
        if gone {
            if let Some(n) = self.nodes.remove(&i) {
                if let Kind::File(d) = n.kind {
                    self.used -= (d.len() as u64).min(self.used);
                }
            }
        }
    }
    /// The time put on files, as coarse as the file system keeps it.
    fn stamp(&self) -> u64 {
        let t = self.realtime();
        t - t % self.granularity.max(1)
    }
    /// A change of the inode alone (renamed, linked, permissions).
    fn touch_inode(&mut self, i: Ino) {
        let t = self.stamp();
        self.node_mut(i).ctime = t;
    }
    /// futimens
    pub fn set_mtime(&mut self, fd: i32, t: u64) -> R<()> {
        sched::sync_point();
        let i = self.fd_path(fd)?.1;
        self.touch_inode(i);
        self.node_mut(i).mtime = t;
        self.notify_ino(i, RawEvent::Attrib);
        Ok(())
    }
    fn touch(&mut self, i: Ino) {
        let t = self.stamp();
        let n = self.node_mut(i);
        n.mtime = t;
        n.ctime = t;
    }

    pub fn open(&mut self, path: &[u8], flags: i32, mode: u32) -> R<i32> {
        sched::sync_point();
        let acc = flags & O_ACCMODE;
        let wr = acc != O_RDONLY;
        let w = match self.walk(path, flags & O_NOFOLLOW == 0 && !(flags & O_CREAT != 0 && flags & O_EXCL != 0)) {
            Ok(w) => w,
            Err(e) => {
                self.log(Op::Open, path, wr, -e as i64);
                return Err(e);
            }
        };
        let r = Self::gate(Op::Open, &w.canon).and_then(|_| {
            let w = self.walk(path, flags & O_NOFOLLOW == 0)?;
            self.open2(w, flags, mode, wr)
        });
        self.log(Op::Open, &w.canon, wr, r.map_or_else(|e| -e as i64, |f| f as i64));
        r
    }
    fn open2(&mut self, w: Walk, flags: i32, mode: u32, wr: bool) -> R<i32> {
        let acc = flags & O_ACCMODE;
        let mut created = false;
        let ino = match w.ino {
            Some(i) => {
                if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                    return Err(EEXIST);
                }
                match &self.node(i).kind {
                    Kind::Dir(_) if wr => return Err(EISDIR),
                    Kind::Link(_) => return Err(ELOOP),
                    Kind::File(_) if flags & O_DIRECTORY != 0 || w.trailing => return Err(ENOTDIR),
                    _ => (),
                }
                let m = self.node(i).mode;
                if (wr && m & 0o222 == 0) || (acc != O_WRONLY && m & 0o444 == 0) {
                    return Err(EACCES);
                }
                i
            }
            None => {
                if flags & O_CREAT == 0 {
                    return Err(ENOENT);
                }
                if w.trailing {
                    return Err(EISDIR);
                }
                if self.node(w.parent).mode & 0o222 == 0 {
                    return Err(EACCES);
                }
                let i = self.alloc(Kind::File(vec![]), mode & 0o777 & !0o022, w.parent);
                self.dir_mut(w.parent).insert(w.name.clone(), i);
                self.touch(w.parent);
                created = true;
                i
            }
        };
        if created {
            self.emit(w.parent, &w.name, |p| RawEvent::Create(p, false));
        }
        if flags & O_TRUNC != 0 && wr {
            let old = match &mut self.node_mut(ino).kind {
                Kind::File(d) => {
                    let n = d.len();
                    d.clear();
                    n
                }
                _ => 0,
            };
            self.used -= (old as u64).min(self.used);
            self.touch(ino);
            if old > 0 {
                self.emit(w.parent, &w.name, RawEvent::Modify);
            }
        }
        let ents = if matches!(self.node(ino).kind, Kind::Dir(_)) { vec![] } else { vec![] };
        self.node_mut(ino).opens += 1;
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(
            fd,
            Open {
                ino,
                pos: 0,
                append: flags & O_APPEND != 0,
                rd: acc != O_WRONLY,
                wr,
                path: w.canon.clone(),
                wrote: false,
                ents,
            },
        );
        Ok(fd)
    }

    pub fn dup(&mut self, fd: i32) -> R<i32> {
        let o = self.fds.get(&fd).ok_or(EBADF)?;
        let n = Open { ino: o.ino, pos: o.pos, append: o.append, rd: o.rd, wr: o.wr, path: o.path.clone(), wrote: false, ents: vec![] };
        let ino = o.ino;
        self.node_mut(ino).opens += 1;
        let f = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(f, n);
        Ok(f)
    }

    fn fd_path(&self, fd: i32) -> R<(Vec<u8>, Ino)> {
        self.fds.get(&fd).map(|o| (o.path.clone(), o.ino)).ok_or(EBADF)
    }

    pub fn read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> R<usize> {
        sched::sync_point();
        let (path, ino) = self.fd_path(fd)?;
        let short = match Self::gate(Op::Read, &path) {
            Ok(s) => s,
            Err(e) => {
                self.log(Op::Read, &path, false, -e as i64);
                return Err(e);
            }
        };
        let o = self.fds.get(&fd).ok_or(EBADF)?;
        if !o.rd {
            return Err(EBADF);
        }
        let pos = at.unwrap_or(o.pos) as usize;
        let n = match &self.node(ino).kind {
            Kind::File(d) => {
                let avail = d.len().saturating_sub(pos);
                let mut n = avail.min(buf.len()).min(self.chunk);
                if let Some(s) = short {
                    if n > 0 {
                        n = n.min(s.max(1));
                    }
                }
                buf[..n].copy_from_slice(&d[pos.min(d.len())..pos.min(d.len()) + n]);
                n
            }
            _ => return Err(EISDIR),
        };
        if at.is_none() {
            self.fds.get_mut(&fd).unwrap().pos += n as u64;
        }
        self.log(Op::Read, &path, false, n as i64);
        Ok(n)
    }

    pub fn write(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> R<usize> {
        sched::sync_point();
        let (path, ino) = self.fd_path(fd)?;
        let short = match Self::gate(Op::Write, &path) {
            Ok(s) => s,
            Err(e) => {
                self.log(Op::Write, &path, true, -e as i64);
                return Err(e);
            }
        };
        let o = self.fds.get(&fd).ok_or(EBADF)?;
        if !o.wr {
            return Err(EBADF);
        }
        let (append, opos) = (o.append, o.pos);
        let len = match &self.node(ino).kind {
            Kind::File(d) => d.len(),
            _ => return Err(EISDIR),
        };
        let pos = if append { len } else { at.unwrap_or(opos) as usize };
        let mut n = buf.len().min(self.chunk);
        if let Some(s) = short {
            n = n.min(s.max(1));
        }
        let mut grow = (pos + n).saturating_sub(len);
        if let Some(cap) = self.capacity {
            let free = cap.saturating_sub(self.used) as usize;
            if grow > free {
                let cut = grow - free;
                if cut >= n && n > 0 {
                    *self.fault_counts.entry("disk-full".into()).or_default() += 1;
                    self.log(Op::Write, &path, true, -ENOSPC as i64);
                    return Err(ENOSPC);
                }
                n -= cut;
                grow = free;
            }
        }
        self.used += grow as u64;
        if let Kind::File(d) = &mut self.node_mut(ino).kind {
            if d.len() < pos + n {
                d.resize(pos + n, 0);
            }
            d[pos..pos + n].copy_from_slice(&buf[..n]);
        }
        self.touch(ino);
        let o = self.fds.get_mut(&fd).unwrap();
        o.wrote = true;
        if at.is_none() {
            o.pos = (pos + n) as u64;
        }
        self.notify_ino(ino, RawEvent::Modify);
        self.log(Op::Write, &path, true, n as i64);
        Ok(n)
    }

    /// Emit an event for every directory entry referring to a file inode.
    fn notify_ino(&mut self, ino: Ino, mk: impl Fn(String) -> RawEvent + Copy) {
        if self.watches.is_empty() {
            return;
        }
        let mut places = vec![];
        for (d, n) in &self.nodes {
            if let Kind::Dir(m) = &n.kind {
                for (name, i) in m {
                    if *i == ino {
                        places.push((*d, name.clone()));
                    }
                }
            }
        }
        for (d, n) in places {
            self.emit(d, &n, mk);
        }
    }

    pub fn close(&mut self, fd: i32) -> R<()> {
        sched::sync_point();
        let (path, ino) = self.fd_path(fd)?;
        let g = Self::gate(Op::Close, &path);
        let o = self.fds.remove(&fd).ok_or(EBADF)?;
        self.node_mut(ino).opens -= 1;
        if o.wr && self.nodes.contains_key(&ino) {
            self.notify_ino(ino, RawEvent::CloseWrite);
        }
        self.unref(ino);
        let _ = o.wrote;
        g.map(|_| ())
    }

    pub fn seek(&mut self, fd: i32, off: i64, whence: i32) -> R<i64> {
        let (_, ino) = self.fd_path(fd)?;
        let len = self.size(ino) as i64;
        let o = self.fds.get_mut(&fd).ok_or(EBADF)?;
        let n = match whence {
            SEEK_SET => off,
            SEEK_CUR => o.pos as i64 + off,
            SEEK_END => len + off,
            _ => return Err(EINVAL),
        };
        if n < 0 {
            return Err(EINVAL);
        }
        o.pos = n as u64;
        Ok(n)
    }
    pub fn truncate(&mut self, fd: i32, len: u64) -> R<()> {
        sched::sync_point();
        let (path, ino) = self.fd_path(fd)?;
        Self::gate(Op::Write, &path)?;
        let old = self.size(ino);
        if let Kind::File(d) = &mut self.node_mut(ino).kind {
            d.resize(len as usize, 0);
        }
        self.used = self.used + len - old.min(self.used + len);
        self.touch(ino);
        self.notify_ino(ino, RawEvent::Modify);
        self.log(Op::Write, &path, true, 0);
        Ok(())
    }
    pub fn sync(&mut self, fd: i32) -> R<()> {
        sched::sync_point();
        let (path, _) = self.fd_path(fd)?;
        Self::gate(Op::Sync, &path)?;
        self.log(Op::Sync, &path, true, 0);
        Ok(())
    }

    fn size(&self, i: Ino) -> u64 {
        match &self.node(i).kind {
            Kind::File(d) => d.len() as u64,
            Kind::Dir(_) => 4096,
            Kind::Link(t) => t.len() as u64,
        }
    }
    pub fn stat_ino(&self, i: Ino) -> (u32, u64, (u64, u64), u32) {
        let n = self.node(i);
        let t = match n.kind {
            Kind::File(_) => S_IFREG,
            Kind::Dir(_) => S_IFDIR,
            Kind::Link(_) => S_IFLNK,
        };
        (t | n.mode, self.size(i), (n.mtime, n.ctime), n.nlink)
    }
    pub fn stat(&mut self, path: &[u8], follow: bool) -> R<Ino> {
        sched::sync_point();
        let r = self.walk(path, follow).and_then(|w| {
            Self::gate(Op::Stat, &w.canon)?;
            let w = self.walk(path, follow)?;
            match w.ino {
                Some(i) => {
                    if w.trailing && !matches!(self.node(i).kind, Kind::Dir(_)) {
                        return Err(ENOTDIR);
                    }
                    Ok((i, w.canon))
                }
                None => Err(ENOENT),
            }
        });
        match r {
            Ok((i, c)) => {
                self.log(Op::Stat, &c, false, 0);
                Ok(i)
            }
            Err(e) => {
                self.log(Op::Stat, path, false, -e as i64);
                Err(e)
            }
        }
    }
    pub fn fstat(&self, fd: i32) -> R<Ino> {
        self.fd_path(fd).map(|x| x.1)
    }

    pub fn mkdir(&mut self, path: &[u8], mode: u32) -> R<()> {
        sched::sync_point();
        let w = self.walk(path, false)?;
        let r = (|| {
            Self::gate(Op::Mkdir, &w.canon)?;
            let w = self.walk(path, false)?;
            if w.ino.is_some() {
                return Err(EEXIST);
            }
            if self.node(w.parent).mode & 0o222 == 0 {
                return Err(EACCES);
            }
            let i = self.alloc(Kind::Dir(BTreeMap::new()), mode & 0o777 & !0o022, w.parent);
            self.dir_mut(w.parent).insert(w.name.clone(), i);
            self.touch(w.parent);
            self.emit(w.parent, &w.name, |p| RawEvent::Create(p, true));
            Ok(())
        })();
        self.log(Op::Mkdir, &w.canon, true, r.map_or_else(|e: i32| -e as i64, |_| 0));
        r
    }

    pub fn unlink(&mut self, path: &[u8], dir: bool) -> R<()> {
        sched::sync_point();
        let w = self.walk(path, false)?;
        let r = (|| {
            Self::gate(Op::Unlink, &w.canon)?;
            let w = self.walk(path, false)?;
            let i = w.ino.ok_or(ENOENT)?;
            match &self.node(i).kind {
                Kind::Dir(m) => {
                    if !dir {
                        return Err(EISDIR);
                    }
                    if !m.is_empty() {
                        return Err(ENOTEMPTY);
                    }
                }
                _ if dir => return Err(ENOTDIR),
                _ => (),
            }
            if w.name == b"." {
                return Err(EINVAL);
            }
            self.dir_mut(w.parent).remove(&w.name);
            self.touch(w.parent);
            self.emit(w.parent, &w.name, |p| RawEvent::Delete(p, dir));
            if dir {
                for wt in self.watches.iter_mut() {
                    wt.dirs.remove(&i);
                }
            }
            self.node_mut(i).nlink -= 1;
            self.unref(i);
            Ok(())
        })();
        self.log(Op::Unlink, &w.canon, true, r.map_or_else(|e: i32| -e as i64, |_| 0));
        r
    }

    pub fn rename(&mut self, from: &[u8], to: &[u8]) -> R<()> {
        sched::sync_point();
        let a = self.walk(from, false)?;
        let b = self.walk(to, false)?;
        let r = (|| {
            Self::gate(Op::Rename, &a.canon)?;
            let a = self.walk(from, false)?;
            let b = self.walk(to, false)?;
            let i = a.ino.ok_or(ENOENT)?;
            let isdir = matches!(self.node(i).kind, Kind::Dir(_));
            if let Some(j) = b.ino {
                if i == j {
                    return Ok(());
                }
                match (&self.node(j).kind, isdir) {
                    (Kind::Dir(m), true) if !m.is_empty() => return Err(ENOTEMPTY),
                    (Kind::Dir(_), false) => return Err(EISDIR),
                    (Kind::Dir(_), true) => (),
                    (_, true) => return Err(ENOTDIR),
                    _ => (),
                }
            }
            if isdir {
                // cannot move into itself
                let mut p = b.parent;
                loop {
                    if p == i {
                        return Err(EINVAL);
                    }
                    if p == ROOT {
                        break;
                    }
                    p = self.node(p).parent;
                }
            }
            self.dir_mut(a.parent).remove(&a.name);
            let old = self.dir_mut(b.parent).insert(b.name.clone(), i);
            self.node_mut(i).parent = b.parent;
            self.touch_inode(i);
            if let Some(o) = old {
                self.node_mut(o).nlink -= 1;
                self.unref(o);
            }
            self.touch(a.parent);
            self.touch(b.parent);
            self.cookie += 1;
            let c = self.cookie;
            self.emit(a.parent, &a.name, |p| RawEvent::MovedFrom(p, c, isdir));
            self.emit(b.parent, &b.name, |p| RawEvent::MovedTo(p, c, isdir));
            Ok(())
        })();
        self.log(Op::Rename, &a.canon, true, r.map_or_else(|e: i32| -e as i64, |_| 0));
        self.log(Op::Rename, &b.canon, true, r.map_or_else(|e: i32| -e as i64, |_| 0));
        r
    }

    pub fn symlink(&mut self, target: &[u8], path: &[u8]) -> R<()> {
        sched::sync_point();
        let w = self.walk(path, false)?;
        Self::gate(Op::Link, &w.canon)?;
        if w.ino.is_some() {
            return Err(EEXIST);
        }
        let i = self.alloc(Kind::Link(target.to_vec()), 0o777, w.parent);
        self.dir_mut(w.parent).insert(w.name.clone(), i);
        self.emit(w.parent, &w.name, |p| RawEvent::Create(p, false));
        self.log(Op::Link, &w.canon, true, 0);
        Ok(())
    }
    pub fn link(&mut self, from: &[u8], to: &[u8]) -> R<()> {
        sched::sync_point();
        let a = self.walk(from, false)?;
        let b = self.walk(to, false)?;
        Self::gate(Op::Link, &b.canon)?;
        let i = a.ino.ok_or(ENOENT)?;
        if b.ino.is_some() {
            return Err(EEXIST);
        }
        if matches!(self.node(i).kind, Kind::Dir(_)) {
            return Err(EPERM);
        }
        self.node_mut(i).nlink += 1;
        self.dir_mut(b.parent).insert(b.name.clone(), i);
        self.emit(b.parent, &b.name, |p| RawEvent::Create(p, false));
        self.log(Op::Link, &b.canon, true, 0);
        Ok(())
    }
    pub fn readlink(&mut self, path: &[u8]) -> R<Vec<u8>> {
        sched::sync_point();
        let w = self.walk(path, false)?;
        match &self.node(w.ino.ok_or(ENOENT)?).kind {
            Kind::Link(t) => Ok(t.clone()),
            _ => Err(EINVAL),
        }
    }
    pub fn chmod(&mut self, path: &[u8], mode: u32) -> R<()> {
        let w = self.walk(path, true)?;
        let i = w.ino.ok_or(ENOENT)?;
        self.node_mut(i).mode = mode & 0o7777;
        self.touch_inode(i);
        self.emit(w.parent, &w.name, RawEvent::Attrib);
        Ok(())
    }

    pub fn realpath(&mut self, path: &[u8]) -> R<Vec<u8>> {
        sched::sync_point();
        let w = self.walk(path, true)?;
        Self::gate(Op::Realpath, &w.canon)?;
        let w = self.walk(path, true)?;
        let i = w.ino.ok_or(ENOENT)?;
        if w.trailing && !matches!(self.node(i).kind, Kind::Dir(_)) {
            return Err(ENOTDIR);
        }
        Ok(w.canon)
    }

    /// A snapshot of the directory's entries, in an order chosen by the simulator.
    pub fn opendir(&mut self, path: &[u8]) -> R<Vec<(Vec<u8>, Ino, u8)>> {
        sched::sync_point();
        let w = self.walk(path, true)?;
        let r = Self::gate(Op::Readdir, &w.canon);
        let r = r.and_then(|_| {
            let w = self.walk(path, true)?;
            let i = w.ino.ok_or(ENOENT)?;
            if self.node(i).mode & 0o444 == 0 {
                return Err(EACCES);
            }
            match &self.node(i).kind {
                Kind::Dir(m) => Ok(m
                    .iter()
                    .map(|(n, &i)| {
                        let t = match self.node(i).kind {
                            Kind::File(_) => DT_REG,
                            Kind::Dir(_) => DT_DIR,
                            Kind::Link(_) => DT_LNK,
                        };
                        (n.clone(), i, t)
                    })
                    .collect::<Vec<_>>()),
                _ => Err(ENOTDIR),
            }
        });
        self.log(Op::Readdir, &w.canon, false, r.as_ref().map_or_else(|e| -*e as i64, |_| 0));
        let mut v = r?;
        if self.shuffle {
            self.rng.shuffle(&mut v);
        }
        Ok(v)
    }

    pub fn chdir(&mut self, path: &[u8]) -> R<()> {
        let w = self.walk(path, true)?;
        let i = w.ino.ok_or(ENOENT)?;
        if !matches!(self.node(i).kind, Kind::Dir(_)) {
            return Err(ENOTDIR);
        }
        self.cwd = w.canon;
        Ok(())
    }
    pub fn cwd(&self) -> Vec<u8> {
        self.cwd.clone()
    }

    // ---------------------------------------------------------------- watches
    /// Create a watch (its queue holds at most `cap` events).
    pub fn watch_new(&mut self, cap: usize) -> usize {
        self.watches.push(Watch { cap, key: Box::new(0), ..Default::default() });
        self.watches.len() - 1
    }
    /// Watch `path` and all its current subdirectories, reporting them as `shown`.
    pub fn watch_add(&mut self, w: usize, path: &[u8], shown: &str) -> R<()> {
        sched::sync_point();
        let i = self.walk(path, true)?.ino.ok_or(ENOENT)?;
        if !matches!(self.node(i).kind, Kind::Dir(_)) {
            return Err(ENOTDIR);
        }
        self.watch_rec(w, i, shown.to_string());
        Ok(())
    }
    fn watch_rec(&mut self, w: usize, i: Ino, shown: String) {
        self.watches[w].dirs.insert(i, shown.clone());
        let subs: Vec<(Vec<u8>, Ino)> = match &self.node(i).kind {
            Kind::Dir(m) => m.iter().map(|(n, i)| (n.clone(), *i)).collect(),
            _ => vec![],
        };
        for (n, s) in subs {
            if matches!(self.node(s).kind, Kind::Dir(_)) {
                self.watch_rec(w, s, format!("{}/{}", shown, String::from_utf8_lossy(&n)));
            }
        }
    }
    /// Forget the watches on a shown path and everything below.
    pub fn watch_remove(&mut self, w: usize, shown: &str) {
        let pre = format!("{}/", shown);
        self.watches[w].dirs.retain(|_, p| p != shown && !p.starts_with(&pre));
    }
    pub fn watch_lose(&mut self, on: bool) {
        for w in &mut self.watches {
            w.lost = on;
        }
    }
    /// Next event, waiting until `deadline` (simulated monotonic ns).
    pub fn watch_next(&mut self, w: usize, deadline: u64) -> Option<RawEvent> {
        loop {
            if let Some(e) = vfs().watches[w].queue.pop_front() {
                return Some(e);
            }
            let key = &*vfs().watches[w].key as *const u64 as usize;
            if sched::now() >= deadline {
                return None;
            }
            sched::wait_on(key, !0, deadline);
        }
    }

    // ---------------------------------------------------------------- direct access for harnesses
    pub fn peek(&self, path: &str) -> Option<Vec<u8>> {
        let w = self.walk(path.as_bytes(), true).ok()?;
        match &self.node(w.ino?).kind {
            Kind::File(d) => Some(d.clone()),
            _ => None,
        }
    }
    /// The canonical path of a file or directory.
    pub fn canon(&self, path: &str) -> Option<String> {
        let w = self.walk(path.as_bytes(), true).ok()?;
        w.ino?;
        Some(String::from_utf8_lossy(&w.canon).into_owned())
    }
    /// The names in a directory.
    pub fn names(&self, path: &str) -> BTreeSet<String> {
        let i = match self.walk(path.as_bytes(), true) {
            Ok(w) => w.ino,
            Err(_) => None,
        };
        match i.map(|i| &self.node(i).kind) {
            Some(Kind::Dir(m)) => m.keys().map(|n| String::from_utf8_lossy(n).into_owned()).collect(),
            _ => BTreeSet::new(),
        }
    }
    /// Every directory path.
    pub fn dirs_all(&self) -> Vec<String> {
        fn rec(v: &Vfs, i: Ino, p: String, out: &mut Vec<String>) {
            if let Kind::Dir(m) = &v.node(i).kind {
                for (n, j) in m {
                    rec(v, *j, format!("{}/{}", p, String::from_utf8_lossy(n)), out);
                }
                out.push(p);
            }
        }
        let mut out = vec![];
        rec(self, ROOT, String::new(), &mut out);
        out
    }
    /// Every file path and its content.
    pub fn tree(&self) -> BTreeMap<String, Vec<u8>> {
        let mut out = BTreeMap::new();
        self.tree_rec(ROOT, String::new(), &mut out);
        out
    }
    fn tree_rec(&self, i: Ino, p: String, out: &mut BTreeMap<String, Vec<u8>>) {
        match &self.node(i).kind {
            Kind::Dir(m) => {
                for (n, j) in m {
                    self.tree_rec(*j, format!("{}/{}", p, String::from_utf8_lossy(n)), out);
                }
            }
            Kind::File(d) => {
                out.insert(p, d.clone());
            }
            Kind::Link(_) => (),
        }
    }
    /// Every file path and the file it names.
    pub fn tree_inos(&self) -> BTreeMap<String, (Ino, &Vec<u8>)> {
        fn rec<'a>(v: &'a Vfs, i: Ino, p: String, out: &mut BTreeMap<String, (Ino, &'a Vec<u8>)>) {
            match &v.node(i).kind {
                Kind::Dir(m) => {
                    for (n, j) in m {
                        rec(v, *j, format!("{}/{}", p, String::from_utf8_lossy(n)), out);
                    }
                }
                Kind::File(d) => {
                    out.insert(p, (i, d));
                }
                Kind::Link(_) => (),
            }
        }
        let mut out = BTreeMap::new();
        rec(self, ROOT, String::new(), &mut out);
        out
    }
    pub fn rule(&mut self, op: Op, suffix: &str, skip: u32, times: u32, effect: Effect, label: &'static str) {
        self.rules.push(Rule { op, suffix: suffix.into(), skip, times, effect, label, hits: 0 });
    }
    pub fn used(&self) -> u64 {
        self.used
    }
}
