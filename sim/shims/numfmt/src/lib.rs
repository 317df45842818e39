//! Stand-in for numfmt (not available offline): a small number formatter.
use std::str::FromStr;
#[derive(Clone, Debug, PartialEq)]
enum Scale {
    None,
    Short,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Formatter {
    buf: String,
    scale: Scale,
    dp: Option<usize>,
    sep: Option<char>,
    pre: String,
    suf: String,
    plain: bool,
}
impl Formatter {
    pub fn new() -> Self {
        Formatter { buf: String::new(), scale: Scale::None, dp: None, sep: None, pre: String::new(), suf: String::new(), plain: true }
    }
    pub fn fmt(&mut self, n: f64) -> &str {
        let mut s = if n.is_nan() {
            "NaN".to_string()
        } else if n.is_infinite() {
            if n > 0.0 { "∞".into() } else { "-∞".into() }
        } else if self.plain {
            if n == 0.0 {
                "0".to_string()
            } else {
                format!("{:?}", n)
            }
        } else {
            let (mut x, mut suf) = (n, "");
            if self.scale == Scale::Short && x.abs() >= 1000.0 {
                for k in ["K", "M", "B", "T"] {
                    x /= 1000.0;
                    suf = k;
                    if x.abs() < 1000.0 {
                        break;
                    }
                }
            }
            let mut t = match self.dp {
                Some(d) => format!("{:.*}", d, x),
                None => format!("{}", x),
            };
            if self.dp == Some(3) && t.contains('.') && self.scale == Scale::Short {
                while t.ends_with('0') && !t.ends_with(".0") {
                    t.pop();
                }
                if x == 0.0 {
                    t = "0".into();
                }
            }
            if let Some(c) = self.sep {
                let (i, f) = match t.split_once('.') {
                    Some((i, f)) => (i.to_string(), Some(f.to_string())),
                    None => (t.clone(), None),
                };
                let neg = i.starts_with('-');
                let d: Vec<char> = i.trim_start_matches('-').chars().collect();
                let mut o = String::new();
                for (k, ch) in d.iter().enumerate() {
                    if k > 0 && (d.len() - k) % 3 == 0 {
                        o.push(c);
                    }
                    o.push(*ch);
                }
                t = format!("{}{}{}", if neg { "-" } else { "" }, o, f.map(|f| format!(".{}", f)).unwrap_or_default());
            }
            if suf.is_empty() { t } else { format!("{} {}", t, suf) }
        };
        s = format!("{}{}{}", self.pre, s, self.suf);
        self.buf = s;
        &self.buf
    }
}
impl Default for Formatter {
    fn default() -> Self {
        Formatter { scale: Scale::Short, dp: Some(3), sep: Some(','), plain: false, ..Formatter::new() }
    }
}
#[derive(Debug)]
pub struct ParseError(String);
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl FromStr for Formatter {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        if s.is_empty() {
            return Ok(Formatter::default());
        }
        let (a, r) = s.split_once('[').ok_or_else(|| ParseError(format!("no `[` found in `{}`", s)))?;
        let (inner, b) = r.split_once(']').ok_or_else(|| ParseError(format!("no `]` found in `{}`", s)))?;
        let mut f = Formatter { pre: a.into(), suf: b.into(), plain: false, sep: Some(','), ..Formatter::new() };
        let mut it = inner.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '.' => {
                    let mut n = String::new();
                    while let Some(d) = it.peek().filter(|d| d.is_ascii_digit()) {
                        n.push(*d);
                        it.next();
                    }
                    f.dp = n.parse().ok();
                }
                's' => f.scale = Scale::Short,
                'n' => f.scale = Scale::None,
                ',' => f.sep = Some(','),
                '/' => f.sep = it.next(),
                '~' => {
                    while it.peek().map_or(false, |d| d.is_ascii_digit()) {
                        it.next();
                    }
                }
                _ => (),
            }
        }
        Ok(f)
    }
}
