//! Stand-in for notify 4 (inotify back end with debouncing) on the simulated file system's watches.
//! Follows notify 4.0.17: one event loop thread translates raw events, delays Write/Create/Chmod/Remove
//! notices by the debounce delay, and a timer thread delivers them.
use simrt::{
    sched,
    vfs::{vfs, RawEvent},
};
use std::{
    collections::{BTreeMap, VecDeque},
    fmt,
    path::{Path, PathBuf},
    sync::mpsc::Sender,
    sync::{Arc, Mutex},
    time::Duration,
};

#[derive(Debug)]
pub enum Error {
    Generic(String),
    PathNotFound,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
#[derive(Debug)]
pub enum DebouncedEvent {
    NoticeWrite(PathBuf),
    NoticeRemove(PathBuf),
    Create(PathBuf),
    Write(PathBuf),
    Chmod(PathBuf),
    Remove(PathBuf),
    Rename(PathBuf, PathBuf),
    Rescan,
    Error(Error, Option<PathBuf>),
}
pub trait Watcher {
    fn watch<P: AsRef<Path>>(&mut self, path: P, mode: RecursiveMode) -> Result<()>;
}
pub struct INotifyWatcher {
    id: usize,
}
pub type RecommendedWatcher = INotifyWatcher;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Create,
    Write,
    Chmod,
    Remove,
}
#[derive(Default)]
struct State {
    /// pending operation per path, with its due time
    pending: BTreeMap<String, (Op, u64)>,
    order: VecDeque<String>,
    /// a rename whose second half has not arrived
    from: Option<(String, u32, u64)>,
}

pub fn watcher(tx: Sender<DebouncedEvent>, delay: Duration) -> Result<INotifyWatcher> {
    if !simrt::vfs::ready() {
        // not simulated (the repository's own tests under the stand-ins): no events
        std::mem::forget(tx);
        return Ok(INotifyWatcher { id: usize::MAX });
    }
    let id = vfs().watch_new(vfs().watch_cap);
    let st = Arc::new(Mutex::new(State::default()));
    let d = delay.as_nanos() as u64;
    {
        let (st, tx) = (st.clone(), tx.clone());
        std::thread::Builder::new()
            .name("notify-rs inotify loop".into())
            .spawn(move || raw_loop(id, st, tx, d))
            .map_err(|e| Error::Generic(e.to_string()))?;
    }
    std::thread::Builder::new()
        .name("notify-rs debouncer timer".into())
        .spawn(move || timer_loop(st, tx, d))
        .map_err(|e| Error::Generic(e.to_string()))?;
    Ok(INotifyWatcher { id })
}

impl Watcher for INotifyWatcher {
    fn watch<P: AsRef<Path>>(&mut self, path: P, _: RecursiveMode) -> Result<()> {
        use std::os::unix::ffi::OsStrExt;
        let p = path.as_ref();
        if self.id == usize::MAX {
            return Ok(());
        }
        let p = if p.is_absolute() { p.to_path_buf() } else { std::env::current_dir().unwrap_or_default().join(p) };
        vfs()
            .watch_add(self.id, p.as_os_str().as_bytes(), &p.display().to_string())
            .map_err(|_| Error::PathNotFound)
    }
}

fn put(st: &mut State, p: String, op: Op, due: u64) {
    if st.pending.insert(p.clone(), (op, due)).is_none() {
        st.order.push_back(p);
    }
}

fn raw_loop(id: usize, st: Arc<Mutex<State>>, tx: Sender<DebouncedEvent>, delay: u64) {
    loop {
        let ev = match vfs().watch_next(id, u64::MAX) {
            Some(e) => e,
            None => continue,
        };
        let now = sched::now();
        let due = now + delay;
        let mut out = vec![];
        {
            let mut s = st.lock().unwrap();
            let s = &mut *s;
            // an unpaired move-from becomes a remove as soon as anything else arrives
            if let Some((p, c, _)) = s.from.clone() {
                let pairs = matches!(&ev, RawEvent::MovedTo(_, c2, _) if *c2 == c);
                if !pairs {
                    s.from = None;
                    put(s, p, Op::Remove, due);
                }
            }
            match ev {
                RawEvent::Create(p, dir) => {
                    if dir {
                        let _ = vfs().watch_add(id, p.as_bytes(), &p);
                    }
                    // a create after a remove is a write
                    let op = match s.pending.get(&p) {
                        Some((Op::Remove, _)) => Op::Write,
                        _ => Op::Create,
                    };
                    put(s, p, op, due);
                }
                RawEvent::Modify(p) | RawEvent::CloseWrite(p) => match s.pending.get(&p).map(|x| x.0) {
                    Some(Op::Create) => put(s, p, Op::Create, due),
                    Some(Op::Write) => put(s, p, Op::Write, due),
                    _ => {
                        out.push(DebouncedEvent::NoticeWrite(PathBuf::from(&p)));
                        put(s, p, Op::Write, due);
                    }
                },
                RawEvent::Attrib(p) => {
                    if !s.pending.contains_key(&p) {
                        put(s, p, Op::Chmod, due);
                    }
                }
                RawEvent::Delete(p, dir) => {
                    if dir {
                        vfs().watch_remove(id, &p);
                    }
                    match s.pending.get(&p).map(|x| x.0) {
                        Some(Op::Create) => {
                            s.pending.remove(&p);
                            s.order.retain(|x| *x != p);
                        }
                        _ => {
                            out.push(DebouncedEvent::NoticeRemove(PathBuf::from(&p)));
                            put(s, p, Op::Remove, due);
                        }
                    }
                }
                RawEvent::MovedFrom(p, c, dir) => {
                    if dir {
                        vfs().watch_remove(id, &p);
                    }
                    out.push(DebouncedEvent::NoticeRemove(PathBuf::from(&p)));
                    s.from = Some((p, c, due));
                }
                RawEvent::MovedTo(p, c, dir) => {
                    if dir {
                        let _ = vfs().watch_add(id, p.as_bytes(), &p);
                    }
                    match s.from.take() {
                        Some((f, c2, _)) if c2 == c => {
                            // anything pending on the source follows the file
                            let created = s.pending.remove(&f);
                            s.order.retain(|x| *x != f);
                            s.pending.remove(&p);
                            s.order.retain(|x| *x != p);
                            match created {
                                Some((Op::Create, _)) => put(s, p, Op::Create, due),
                                Some((Op::Write, _)) => {
                                    out.push(DebouncedEvent::Rename(PathBuf::from(f), PathBuf::from(&p)));
                                    put(s, p, Op::Write, due);
                                }
                                _ => out.push(DebouncedEvent::Rename(PathBuf::from(f), PathBuf::from(p))),
                            }
                        }
                        x => {
                            s.from = x;
                            put(s, p, Op::Create, due);
                        }
                    }
                }
                RawEvent::Overflow => out.push(DebouncedEvent::Rescan),
            }
        }
        for e in out {
            if tx.send(e).is_err() {
                return;
            }
        }
    }
}

fn timer_loop(st: Arc<Mutex<State>>, tx: Sender<DebouncedEvent>, delay: u64) {
    loop {
        std::thread::sleep(Duration::from_nanos(delay.max(1_000_000)));
        let now = sched::now();
        let mut out = vec![];
        {
            let mut s = st.lock().unwrap();
            let s = &mut *s;
            if let Some((p, _, due)) = s.from.clone() {
                if due <= now {
                    s.from = None;
                    out.push(DebouncedEvent::Remove(PathBuf::from(p)));
                }
            }
            let order = std::mem::take(&mut s.order);
            for p in order {
                match s.pending.get(&p) {
                    Some((op, due)) if *due <= now => {
                        let pb = PathBuf::from(&p);
                        out.push(match op {
                            Op::Create => DebouncedEvent::Create(pb),
                            Op::Write => DebouncedEvent::Write(pb),
                            Op::Chmod => DebouncedEvent::Chmod(pb),
                            Op::Remove => DebouncedEvent::Remove(pb),
                        });
                        s.pending.remove(&p);
                    }
                    Some(_) => s.order.push_back(p),
                    None => (),
                }
            }
        }
        for e in out {
            if tx.send(e).is_err() {
                return;
            }
        }
    }
}
