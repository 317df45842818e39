//! Stand-in for comfy-table 6 (the parts and the preset the repository uses).
use std::fmt;
use unicode_width::UnicodeWidthStr;
pub mod presets {
    pub const UTF8_FULL: &str = "││──╞═╪╡│    ┬┴┌┐└┘";
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TableComponent {
    HorizontalLines,
    MiddleIntersections,
    LeftBorderIntersections,
    RightBorderIntersections,
}
#[derive(Default)]
pub struct Table {
    header: Option<Vec<String>>,
    rows: Vec<Vec<String>>,
}
fn row<I: IntoIterator>(r: I) -> Vec<String>
where
    I::Item: ToString,
{
    r.into_iter().map(|x| x.to_string()).collect()
}
impl Table {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_header<I: IntoIterator>(&mut self, r: I) -> &mut Self
    where
        I::Item: ToString,
    {
        self.header = Some(row(r));
        self
    }
    pub fn add_row<I: IntoIterator>(&mut self, r: I) -> &mut Self
    where
        I::Item: ToString,
    {
        self.rows.push(row(r));
        self
    }
    pub fn load_preset(&mut self, _: &str) -> &mut Self {
        self
    }
    pub fn remove_style(&mut self, _: TableComponent) -> &mut Self {
        self
    }
}
impl fmt::Display for Table {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let all = || self.header.iter().chain(self.rows.iter());
        let cols = all().map(|r| r.len()).max().unwrap_or(0);
        let mut w = vec![0usize; cols];
        for r in all() {
            for (i, c) in r.iter().enumerate() {
                w[i] = w[i].max(c.lines().map(|l| l.width()).max().unwrap_or(0));
            }
        }
        let rule = |l: &str, m: &str, x: &str, r: &str| -> String {
            let mid: Vec<String> = w.iter().map(|n| m.repeat(n + 2)).collect();
            format!("{}{}{}", l, mid.join(x), r)
        };
        let mut out = vec![rule("┌", "─", "┬", "┐")];
        let mut body = |r: &Vec<String>, out: &mut Vec<String>| {
            let h = r.iter().map(|c| c.lines().count()).max().unwrap_or(1).max(1);
            for k in 0..h {
                let cells: Vec<String> = (0..cols)
                    .map(|i| {
                        let t = r.get(i).and_then(|c| c.lines().nth(k)).unwrap_or("");
                        format!(" {}{} ", t, " ".repeat(w[i] - t.width().min(w[i])))
                    })
                    .collect();
                out.push(format!("│{}│", cells.join("┆")));
            }
        };
        if let Some(h) = &self.header {
            body(h, &mut out);
            out.push(rule("╞", "═", "╪", "╡"));
        }
        for r in &self.rows {
            body(r, &mut out);
        }
        out.push(rule("└", "─", "┴", "┘"));
        f.write_str(&out.join("\n"))
    }
}
