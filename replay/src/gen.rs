pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b { h ^= x as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567) }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize { (self.u() % (n.max(1) as u64)) as usize }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    /// now and then lengthens a string: one of its characters, a letter or a tricky one repeated up to a size around a source constant
    pub fn stretch(&mut self, s: String, ints: &[usize]) -> String {
        if !self.p(1, 8) { return s; }
        let n = if !ints.is_empty() && self.p(1, 2) { (*self.pick(ints)).min(1500) + self.n(3) } else { { let m = if self.p(1, 6) { 400 } else { 70 }; 1 + self.n(m) } };
        let cs: Vec<char> = s.chars().collect();
        let at = self.n(cs.len() + 1);
        let unit: String = match self.n(4) { 0 if !cs.is_empty() => self.pick(&cs).to_string(), 1 => self.pick(TRICKY).to_string(), 2 => "ab".into(), _ => "a".into() };
        let k = (n.saturating_sub(if self.p(1, 2) { s.len() } else { 0 })) / if self.p(1, 2) { unit.len() } else { 1 };
        cs[..at].iter().collect::<String>() + &unit.repeat(k) + &cs[at..].iter().collect::<String>()
    }
    /// a near miss of a string
    pub fn mutate(&mut self, s: &str) -> String {
        let cs: Vec<char> = s.chars().collect();
        let x = match self.n(4) { 0 => " ".to_string(), 1 => self.pick(&["\0", "\t", "\n", "'", ".", "-", "_", "s", "0", "1"]).to_string(), 2 if !cs.is_empty() => self.pick(&cs).to_string(), _ => self.pick(TRICKY).to_string() };
        let i = self.n(cs.len() + 1);
        match self.n(9) {
            0 | 1 => format!("{s}{x}"),
            2 => format!("{x}{s}"),
            3 => s.to_uppercase(),
            4 => s.to_lowercase(),
            5 => cs.iter().skip(1).collect(),
            6 => cs.iter().take(cs.len().saturating_sub(1)).collect(),
            7 => cs[..i].iter().collect::<String>() + &x + &cs[i..].iter().collect::<String>(),
            _ => cs[..i].iter().collect::<String>() + &x + &cs[(i + 1).min(cs.len())..].iter().collect::<String>(),
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.n(v.len()); &v[i] }
}
/// all strings over `alpha` of length <= n
pub fn strings(alpha: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..n {
        let mut nx = vec![];
        for s in &last { for a in alpha { nx.push(format!("{s}{a}")); } }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}
pub const TRICKY: &[&str] = &[
    "a", "b", "z", "e", "y", "s", "A", "Z", "I", "0", "9", "_", "-", " ", "\t", "\n", "\u{b}", "\u{c}", "\r", "\u{85}", "\u{a0}", "\u{1680}",
    "\u{2003}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}", "\u{200b}", "\u{feff}", "\u{1c}", "\u{1f}", "!", ".", ",", "'", "\"", "\\", "/", "{", "}", "`", "@", "[", "^", "|", "$", "\0", "\u{7f}",
    "é", "ß", "É", "İ", "ı", "Σ", "ς", "ſ", "K", "Å", "ǅ", "ﬁ", "\u{301}", "\u{663}", "\u{966}", "٣", "Ⅳ", "²", "½", "ª", "º",
    "Ж", "я", "ё", "ا", "آ", "أ", "إ", "ٱ", "ى", "\u{640}", "\u{64b}", "\u{650}", "\u{65b}", "\u{65c}", "한", "글", "ㄱ", "漢", "字", "あ", "ア", "ー", "々", "、", "。", "！", "😀", "𠀀", "\u{10ffff}", "‐", "–", "—", "−", "\u{ad}", "\u{2011}", "\u{ff0d}",
    "a\u{327}", "ñ", "Ə", "ə", "ğ", "Ğ", "\u{2c60}", "\u{a722}", "\u{ff21}", "Ａ", "α",
];

/// ["*", n, item] stands for n items, # in their texts replaced by 0, 1, ..
pub fn unfold(v: &[serde_json::Value]) -> Vec<serde_json::Value> {
    use serde_json::Value;
    fn put(v: &Value, i: u64) -> Value {
        match v {
            Value::String(s) => Value::String(s.replace('#', &i.to_string())),
            Value::Array(a) => Value::Array(a.iter().map(|x| put(x, i)).collect()),
            Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.replace('#', &i.to_string()), put(x, i))).collect()),
            _ => v.clone(),
        }
    }
    v.iter().flat_map(|o| match (o[0] == "*" && o[2].is_array(), o[1].as_u64()) {
        (true, Some(n)) => (0..n.min(200_000)).map(|i| put(&o[2], i)).collect(),
        _ => vec![o.clone()],
    }).collect()
}
/// sizes at which a count could wrap or hit a limit: those of the source and of narrow integers
pub fn many(ints: &[usize]) -> Vec<usize> {
    let mut v = vec![255, 256, 257, 1000, 1025, 65535, 65536, 65537];
    for &i in ints { if (258..=100_000).contains(&i) { v.extend([i - 1, i, i + 1]); } }
    v.sort();
    v.dedup();
    v
}
