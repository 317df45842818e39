//! Stand-in for glob: `*`, `?` and `[..]` in path components, expanded through std::fs.
use std::{fmt, path::PathBuf};
#[derive(Debug)]
pub struct PatternError(&'static str);
impl fmt::Display for PatternError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
    }
}
#[derive(Debug)]
pub struct GlobError(std::io::Error);
impl fmt::Display for GlobError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
pub type Paths = std::vec::IntoIter<Result<PathBuf, GlobError>>;
fn matches(p: &[char], s: &[char]) -> bool {
    match (p.first(), s.first()) {
        (None, None) => true,
        (Some('*'), _) => matches(&p[1..], s) || (!s.is_empty() && matches(p, &s[1..])),
        (Some('?'), Some(_)) => matches(&p[1..], &s[1..]),
        (Some('['), Some(c)) => match p.iter().position(|&x| x == ']') {
            Some(e) => {
                let set = &p[1..e];
                let (neg, set) = if set.first() == Some(&'!') { (true, &set[1..]) } else { (false, set) };
                let mut hit = false;
                let mut i = 0;
                while i < set.len() {
                    if i + 2 < set.len() && set[i + 1] == '-' {
                        hit |= (set[i]..=set[i + 2]).contains(c);
                        i += 3;
                    } else {
                        hit |= set[i] == *c;
                        i += 1;
                    }
                }
                hit != neg && matches(&p[e + 1..], &s[1..])
            }
            None => false,
        },
        (Some(a), Some(b)) => a == b && matches(&p[1..], &s[1..]),
        _ => false,
    }
}
pub fn glob(pat: &str) -> Result<Paths, PatternError> {
    if pat.matches('[').count() != pat.matches(']').count() {
        return Err(PatternError("invalid range pattern"));
    }
    let abs = pat.starts_with('/');
    let mut cur = vec![if abs { PathBuf::from("/") } else { PathBuf::new() }];
    let mut out = vec![];
    for comp in pat.split('/').filter(|c| !c.is_empty()) {
        let mut next = vec![];
        let wild = comp.contains(&['*', '?', '['][..]);
        for c in cur {
            if !wild {
                let n = c.join(comp);
                if std::fs::symlink_metadata(&n).is_ok() {
                    next.push(n);
                }
                continue;
            }
            let dir = if c.as_os_str().is_empty() { PathBuf::from(".") } else { c.clone() };
            match std::fs::read_dir(&dir) {
                Ok(rd) => {
                    let p: Vec<char> = comp.chars().collect();
                    let mut names: Vec<String> =
                        rd.filter_map(|e| e.ok()).filter_map(|e| e.file_name().into_string().ok()).collect();
                    names.sort();
                    for n in names {
                        if n.starts_with('.') && !comp.starts_with('.') {
                            continue;
                        }
                        if matches(&p, &n.chars().collect::<Vec<_>>()) {
                            next.push(c.join(n));
                        }
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::NotFound || e.raw_os_error() == Some(20) => (),
                Err(e) => out.push(Err(GlobError(e))),
            }
        }
        cur = next;
    }
    out.extend(cur.into_iter().map(Ok));
    Ok(out.into_iter())
}
