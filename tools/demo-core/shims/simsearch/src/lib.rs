//! Stand-in for simsearch: prefix / substring / edit distance ranking.
pub struct SimSearch<I>(Vec<(I, String)>);
impl<I: Clone> SimSearch<I> {
    pub fn new() -> Self {
        SimSearch(vec![])
    }
    pub fn insert(&mut self, id: I, s: &str) {
        self.0.push((id, s.to_lowercase()));
    }
    pub fn search(&self, q: &str) -> Vec<I> {
        let q = q.to_lowercase();
        let mut v: Vec<(usize, usize, I)> = self
            .0
            .iter()
            .enumerate()
            .filter_map(|(i, (id, s))| {
                let d = dist(&q, s);
                let near = d * 2 <= q.chars().count().max(s.chars().count());
                (near || s.contains(&q)).then(|| (d, i, id.clone()))
            })
            .collect();
        v.sort_by_key(|x| (x.0, x.1));
        v.into_iter().map(|x| x.2).collect()
    }
}
impl<I: Clone> Default for SimSearch<I> {
    fn default() -> Self {
        Self::new()
    }
}
fn dist(a: &str, b: &str) -> usize {
    let b: Vec<char> = b.chars().collect();
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for (i, ca) in a.chars().enumerate() {
        let mut prev = row[0];
        row[0] = i + 1;
        for j in 0..b.len() {
            let x = (prev + (ca != b[j]) as usize).min(row[j] + 1).min(row[j + 1] + 1);
            prev = row[j + 1];
            row[j + 1] = x;
        }
    }
    row[b.len()]
}
