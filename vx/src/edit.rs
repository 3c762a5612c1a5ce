/// Text edits on byte offsets; insertions at one position keep the order they were added in.
#[derive(Default)]
pub struct Edits {
    v: Vec<(usize, usize, String, usize)>,
}
impl Edits {
    pub fn replace(&mut self, r: std::ops::Range<usize>, s: impl Into<String>) {
        let n = self.v.len();
        self.v.push((r.start, r.end, s.into(), n));
    }
    pub fn insert(&mut self, at: usize, s: impl Into<String>) {
        self.replace(at..at, s)
    }
    pub fn apply(mut self, src: &str) -> Result<String, String> {
        // insertions before a replacement that starts at the same place
        self.v.sort_by_key(|e| (e.0, (e.1 != e.0) as u8, e.3));
        let mut out = String::new();
        let mut pos = 0;
        for (a, b, s, _) in &self.v {
            if *a < pos {
                return Err(format!("overlapping edits at {a}"));
            }
            out.push_str(&src[pos..*a]);
            out.push_str(s);
            pos = *b;
        }
        out.push_str(&src[pos..]);
        Ok(out)
    }
}
