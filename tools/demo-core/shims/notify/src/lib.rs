//! Stand-in for notify 4: watches by polling.
use std::{
    collections::BTreeMap,
    fmt,
    path::{Path, PathBuf},
    sync::mpsc::Sender,
    time::Duration,
};

#[derive(Debug)]
pub enum Error {
    Generic(String),
    PathNotFound,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
#[derive(Debug)]
pub enum DebouncedEvent {
    NoticeWrite(PathBuf),
    NoticeRemove(PathBuf),
    Create(PathBuf),
    Write(PathBuf),
    Chmod(PathBuf),
    Remove(PathBuf),
    Rename(PathBuf, PathBuf),
    Rescan,
    Error(Error, Option<PathBuf>),
}
pub trait Watcher {
    fn watch<P: AsRef<Path>>(&mut self, path: P, mode: RecursiveMode) -> Result<()>;
}
pub struct PollWatcher(Sender<DebouncedEvent>, Duration);
pub type RecommendedWatcher = PollWatcher;
pub fn watcher(tx: Sender<DebouncedEvent>, delay: Duration) -> Result<PollWatcher> {
    Ok(PollWatcher(tx, delay))
}
type Snap = BTreeMap<PathBuf, (u64, Option<std::time::SystemTime>)>;
fn scan(d: &Path, m: &mut Snap) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        if let Ok(x) = e.metadata() {
            if x.is_dir() {
                scan(&e.path(), m);
            } else {
                m.insert(e.path(), (x.len(), x.modified().ok()));
            }
        }
    }
}
impl Watcher for PollWatcher {
    fn watch<P: AsRef<Path>>(&mut self, path: P, _: RecursiveMode) -> Result<()> {
        let p = path.as_ref();
        let p = if p.is_absolute() { p.to_path_buf() } else { std::env::current_dir().unwrap_or_default().join(p) };
        let (tx, delay) = (self.0.clone(), self.1);
        let mut old = Snap::new();
        scan(&p, &mut old);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(5));
            let mut new = Snap::new();
            scan(&p, &mut new);
            let (mut now, mut late) = (vec![], vec![]);
            for (f, s) in &new {
                match old.get(f) {
                    None => late.push(DebouncedEvent::Create(f.clone())),
                    Some(o) if o != s => {
                        now.push(DebouncedEvent::NoticeWrite(f.clone()));
                        late.push(DebouncedEvent::Write(f.clone()));
                    }
                    _ => {}
                }
            }
            for f in old.keys().filter(|f| !new.contains_key(*f)) {
                now.push(DebouncedEvent::NoticeRemove(f.clone()));
                late.push(DebouncedEvent::Remove(f.clone()));
            }
            old = new;
            for e in now {
                if tx.send(e).is_err() {
                    return;
                }
            }
            if !late.is_empty() {
                let tx = tx.clone();
                std::thread::spawn(move || {
                    std::thread::sleep(delay);
                    for e in late {
                        tx.send(e).ok();
                    }
                });
            }
        });
        Ok(())
    }
}
