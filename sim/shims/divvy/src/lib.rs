//! Stand-in for kdr-aus/divvy (not available offline): shared string, switch and progress channel.
use std::{borrow::*, fmt, hash, iter::FromIterator, ops::Deref, sync::atomic::*, sync::Arc, sync::Mutex};

// ------------------------------------------------------------------ Str
/// A cheaply clonable immutable string.
#[derive(Clone)]
pub struct Str(Arc<String>);
impl Str {
    pub fn new<S: AsRef<str>>(s: S) -> Str {
        Str(Arc::new(s.as_ref().to_string()))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn to_mut(&mut self) -> &mut String {
        Arc::make_mut(&mut self.0)
    }
}
impl Default for Str {
    fn default() -> Self {
        Str::new("")
    }
}
impl Deref for Str {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl AsRef<str> for Str {
    fn as_ref(&self) -> &str {
        self
    }
}
impl AsRef<std::path::Path> for Str {
    fn as_ref(&self) -> &std::path::Path {
        self.as_str().as_ref()
    }
}
impl Borrow<str> for Str {
    fn borrow(&self) -> &str {
        self
    }
}
impl fmt::Debug for Str {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(self.as_str(), f)
    }
}
impl fmt::Display for Str {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self.as_str(), f)
    }
}
impl PartialEq for Str {
    fn eq(&self, o: &Str) -> bool {
        self.as_str() == o.as_str()
    }
}
impl Eq for Str {}
impl PartialEq<str> for Str {
    fn eq(&self, o: &str) -> bool {
        self.as_str() == o
    }
}
impl<'a> PartialEq<&'a str> for Str {
    fn eq(&self, o: &&'a str) -> bool {
        self.as_str() == *o
    }
}
impl PartialEq<String> for Str {
    fn eq(&self, o: &String) -> bool {
        self.as_str() == o
    }
}
impl PartialOrd<str> for Str {
    fn partial_cmp(&self, o: &str) -> Option<std::cmp::Ordering> {
        (**self).partial_cmp(o)
    }
}
impl PartialOrd for Str {
    fn partial_cmp(&self, o: &Str) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Str {
    fn cmp(&self, o: &Str) -> std::cmp::Ordering {
        self.as_str().cmp(o.as_str())
    }
}
impl hash::Hash for Str {
    fn hash<H: hash::Hasher>(&self, h: &mut H) {
        self.as_str().hash(h)
    }
}
impl From<&str> for Str {
    fn from(s: &str) -> Str {
        Str::new(s)
    }
}
impl From<&String> for Str {
    fn from(s: &String) -> Str {
        Str::new(s)
    }
}
impl From<String> for Str {
    fn from(s: String) -> Str {
        Str(Arc::new(s))
    }
}
impl From<char> for Str {
    fn from(s: char) -> Str {
        Str(Arc::new(s.to_string()))
    }
}
impl<'a> From<Cow<'a, str>> for Str {
    fn from(s: Cow<'a, str>) -> Str {
        Str(Arc::new(s.into_owned()))
    }
}
impl From<Str> for String {
    fn from(s: Str) -> String {
        Arc::try_unwrap(s.0).unwrap_or_else(|x| (*x).clone())
    }
}
impl From<Str> for Arc<str> {
    fn from(s: Str) -> Arc<str> {
        Arc::from(s.as_str())
    }
}
impl FromIterator<char> for Str {
    fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Str {
        String::from_iter(i).into()
    }
}
impl<'a> FromIterator<&'a str> for Str {
    fn from_iter<I: IntoIterator<Item = &'a str>>(i: I) -> Str {
        String::from_iter(i).into()
    }
}
impl FromIterator<String> for Str {
    fn from_iter<I: IntoIterator<Item = String>>(i: I) -> Str {
        String::from_iter(i).into()
    }
}
impl std::str::FromStr for Str {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Str, Self::Err> {
        Ok(Str::new(s))
    }
}
impl serde::Serialize for Str {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(self)
    }
}
impl<'de> serde::Deserialize<'de> for Str {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Str, D::Error> {
        String::deserialize(d).map(Str::from)
    }
}

// ------------------------------------------------------------------ Switch
/// A shared one-way switch.
#[derive(Clone, Debug, Default)]
pub struct Switch(Arc<AtomicBool>);
impl Switch {
    pub fn off() -> Switch {
        Switch::default()
    }
    pub fn flip_on(&self) {
        self.0.store(true, Ordering::SeqCst)
    }
    pub fn get(&self) -> bool {
        self.0.load(Ordering::SeqCst)
    }
    pub fn is_on(&self) -> bool {
        self.get()
    }
}

// ------------------------------------------------------------------ Progress
/// Sending half of a progress channel, with a cancellation switch.
#[derive(Clone, Default)]
pub struct ProgressTx {
    cancel: Switch,
    sink: Option<Arc<Mutex<Vec<(Option<f32>, String)>>>>,
}
/// Called for every report sent (stand-in only; set before any thread exists).
pub static mut ON_SEND: Option<fn(&str)> = None;
/// What was reported (stand-in only).
pub type Reports = Arc<Mutex<Vec<(Option<f32>, String)>>>;
impl ProgressTx {
    pub fn dummy() -> ProgressTx {
        ProgressTx::default()
    }
    /// Stand-in only: a channel whose reports are collected and which `cancel` cancels.
    pub fn collecting(cancel: Switch) -> (ProgressTx, Reports) {
        let r = Reports::default();
        (ProgressTx { cancel, sink: Some(r.clone()) }, r)
    }
    pub fn cancelled(&self) -> bool {
        self.cancel.get()
    }
    pub fn send<P: Into<Option<f32>>, S: Into<String>>(&self, p: P, msg: S) {
        if let Some(s) = &self.sink {
            let msg = msg.into();
            if let Some(f) = unsafe { ON_SEND } {
                f(&msg);
            }
            s.lock().unwrap_or_else(|e| e.into_inner()).push((p.into(), msg));
        }
    }
}
