//! Stand-in for kdr-aus/table (not available offline): a row-major table.
pub use kserd::Number;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq)]
pub enum Entry<O> {
    Nil,
    Obj(O),
    Num(Number),
}
impl<O> Default for Entry<O> {
    fn default() -> Self {
        Entry::Nil
    }
}
impl<O> Entry<O> {
    pub fn is_nil(&self) -> bool {
        matches!(self, Entry::Nil)
    }
    pub fn map_obj<F: FnMut(O) -> P, P>(self, mut f: F) -> Entry<P> {
        match self {
            Entry::Nil => Entry::Nil,
            Entry::Num(n) => Entry::Num(n),
            Entry::Obj(o) => Entry::Obj(f(o)),
        }
    }
}
impl<O: PartialOrd> PartialOrd for Entry<O> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        fn d<O>(e: &Entry<O>) -> u8 {
            match e {
                Entry::Num(_) => 0,
                Entry::Obj(_) => 1,
                Entry::Nil => 2,
            }
        }
        match (self, other) {
            (Entry::Num(a), Entry::Num(b)) => Some(a.cmp(b)),
            (Entry::Obj(a), Entry::Obj(b)) => a.partial_cmp(b),
            (a, b) => Some(d(a).cmp(&d(b))),
        }
    }
}
impl<O> From<Number> for Entry<O> {
    fn from(n: Number) -> Self {
        Entry::Num(n)
    }
}

#[derive(Clone, Debug)]
pub struct Table<O> {
    pub header: bool,
    cols: usize,
    data: Vec<Vec<Entry<O>>>,
}
pub type DataTable = Table<divvy::Str>;

impl<O> Default for Table<O> {
    fn default() -> Self {
        Table { header: true, cols: 0, data: vec![] }
    }
}
impl<O: PartialEq> PartialEq for Table<O> {
    fn eq(&self, o: &Self) -> bool {
        let none = |t: &Self| t.cols == 0 || t.data.is_empty();
        (none(self) && none(o)) || (self.cols == o.cols && self.data == o.data)
    }
}
impl<O> From<Vec<Vec<Entry<O>>>> for Table<O> {
    fn from(mut data: Vec<Vec<Entry<O>>>) -> Self {
        let cols = data.iter().map(|r| r.len()).max().unwrap_or(0);
        for r in &mut data {
            r.resize_with(cols, Entry::default);
        }
        Table { header: true, cols, data }
    }
}

impl<O> Table<O> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn is_empty(&self) -> bool {
        self.data.is_empty()
    }
    pub fn rows_len(&self) -> usize {
        self.data.len()
    }
    pub fn cols_len(&self) -> usize {
        self.cols
    }
    pub fn row(&self, i: usize) -> Option<std::slice::Iter<'_, Entry<O>>> {
        self.data.get(i).map(|r| r.iter())
    }
    pub fn row_mut(&mut self, i: usize) -> Option<std::slice::IterMut<'_, Entry<O>>> {
        self.data.get_mut(i).map(|r| r.iter_mut())
    }
    pub fn rows(&self) -> impl ExactSizeIterator<Item = std::slice::Iter<'_, Entry<O>>> + DoubleEndedIterator + Clone {
        self.data.iter().map(|r| r.iter())
    }
    pub fn rows_mut(&mut self) -> impl ExactSizeIterator<Item = std::slice::IterMut<'_, Entry<O>>> + DoubleEndedIterator {
        self.data.iter_mut().map(|r| r.iter_mut())
    }
    pub fn col(&self, c: usize) -> Option<impl ExactSizeIterator<Item = &Entry<O>> + DoubleEndedIterator + Clone> {
        (c < self.cols).then(|| self.data.iter().map(move |r| &r[c]))
    }
    pub fn col_mut(&mut self, c: usize) -> Option<impl ExactSizeIterator<Item = &mut Entry<O>> + DoubleEndedIterator> {
        (c < self.cols).then(|| self.data.iter_mut().map(move |r| &mut r[c]))
    }
    pub fn cols(&self) -> impl Iterator<Item = Box<dyn Iterator<Item = &Entry<O>> + '_>> + '_ {
        (0..self.cols).map(move |c| Box::new(self.data.iter().map(move |r| &r[c])) as Box<dyn Iterator<Item = &Entry<O>> + '_>)
    }
    fn widen(&mut self, cols: usize) {
        if cols > self.cols {
            self.cols = cols;
            for r in &mut self.data {
                r.resize_with(cols, Entry::default);
            }
        }
    }
    pub fn add_row<I: IntoIterator<Item = E>, E: Into<Entry<O>>>(&mut self, row: I) {
        let n = self.data.len();
        self.insert_row(n, row)
    }
    pub fn insert_row<I: IntoIterator<Item = E>, E: Into<Entry<O>>>(&mut self, at: usize, row: I) {
        let mut r: Vec<Entry<O>> = row.into_iter().map(Into::into).collect();
        self.widen(r.len());
        r.resize_with(self.cols, Entry::default);
        self.data.insert(at, r);
    }
    pub fn add_rows<R, I, E>(&mut self, rows: R)
    where
        R: IntoIterator<Item = I>,
        I: IntoIterator<Item = E>,
        E: Into<Entry<O>>,
    {
        for r in rows {
            self.add_row(r);
        }
    }
    pub fn add_col<I: IntoIterator<Item = E>, E: Into<Entry<O>>>(&mut self, col: I) {
        let c = self.cols;
        let mut n = 0;
        self.cols += 1;
        for e in col {
            if n == self.data.len() {
                let mut r = vec![];
                r.resize_with(c, Entry::default);
                self.data.push(r);
            }
            self.data[n].push(e.into());
            n += 1;
        }
        for r in &mut self.data {
            r.resize_with(c + 1, Entry::default);
        }
    }
    pub fn add_cols<R, I, E>(&mut self, cols: R)
    where
        R: IntoIterator<Item = I>,
        I: IntoIterator<Item = E>,
        E: Into<Entry<O>>,
    {
        for c in cols {
            self.add_col(c);
        }
    }
    pub fn remove_row(&mut self, i: usize) {
        self.data.remove(i);
    }
    pub fn remove_col(&mut self, c: usize) {
        if c < self.cols {
            self.cols -= 1;
            for r in &mut self.data {
                r.remove(c);
            }
        }
    }
    pub fn reverse_rows(&mut self) {
        let s = usize::from(self.header && !self.data.is_empty());
        self.data[s..].reverse();
    }
    pub fn reverse_cols(&mut self) {
        for r in &mut self.data {
            r.reverse();
        }
    }
    pub fn retain_rows<F: FnMut(usize, &[Entry<O>]) -> bool>(&mut self, mut f: F) {
        let mut i = 0;
        self.data.retain(|r| {
            i += 1;
            f(i - 1, r)
        });
    }
    pub fn sort<F: FnMut(&Entry<O>, &Entry<O>) -> Ordering>(&mut self, col: usize, mut f: F) {
        let s = usize::from(self.header && !self.data.is_empty());
        self.data[s..].sort_by(|a, b| f(&a[col], &b[col]));
    }
    pub fn into_raw(self) -> Vec<Vec<Entry<O>>> {
        self.data
    }
    pub fn map_obj<F: FnMut(O) -> P, P>(self, mut f: F) -> Table<P> {
        Table {
            header: self.header,
            cols: self.cols,
            data: self.data.into_iter().map(|r| r.into_iter().map(|e| e.map_obj(&mut f)).collect()).collect(),
        }
    }
}
impl<O: Clone> Table<O> {
    pub fn clone_with_col_capacity(&self, _cap: usize) -> Self {
        self.clone()
    }
}
impl<O: Send> Table<O> {
    pub fn remove_col_par(&mut self, c: usize) {
        use rayon::prelude::*;
        if c < self.cols {
            self.cols -= 1;
            self.data.par_iter_mut().for_each(|r| {
                r.remove(c);
            });
        }
    }
    pub fn reverse_cols_par(&mut self) {
        use rayon::prelude::*;
        self.data.par_iter_mut().for_each(|r| r.reverse());
    }
}

/// Parse delimiter separated values: double-quoted fields, numbers become `Num`, empty `Nil`.
pub fn parse_dsv(sep: char, s: &str) -> Table<String> {
    let mut rows: Vec<Vec<Entry<String>>> = vec![];
    let mut row: Vec<Entry<String>> = vec![];
    let mut it = s.chars().peekable();
    let mut cell = String::new();
    let mut quoted = false;
    fn cell_of(cell: &mut String, quoted: &mut bool) -> Entry<String> {
        let c = std::mem::take(cell);
        let q = std::mem::take(quoted);
        if q {
            return Entry::Obj(c);
        }
        if c.is_empty() || c == "-" {
            return Entry::Nil;
        }
        match c.trim().parse::<Number>() {
            Ok(n) => Entry::Num(n),
            Err(_) => Entry::Obj(c),
        }
    }
    let mut any = false;
    while let Some(c) = it.next() {
        any = true;
        if c == '"' && cell.is_empty() && !quoted {
            quoted = true;
            while let Some(c) = it.next() {
                match c {
                    '"' if it.peek() == Some(&'"') => {
                        it.next();
                        cell.push('"');
                    }
                    '"' => break,
                    '\\' if it.peek() == Some(&'"') => {
                        it.next();
                        cell.push('"');
                    }
                    c => cell.push(c),
                }
            }
        } else if c == sep {
            row.push(cell_of(&mut cell, &mut quoted));
        } else if c == '\r' && it.peek() == Some(&'\n') {
        } else if c == '\n' {
            row.push(cell_of(&mut cell, &mut quoted));
            rows.push(std::mem::take(&mut row));
            any = false;
        } else {
            cell.push(c);
        }
    }
    if any {
        row.push(cell_of(&mut cell, &mut quoted));
        rows.push(row);
    }
    let mut t = Table::from(rows);
    t.header = true;
    t
}
