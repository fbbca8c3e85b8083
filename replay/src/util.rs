//! deterministic pseudo random numbers, failure bookkeeping, JSON output
use std::collections::HashSet;
use std::fmt::Write as _;

/// literals of the current source (ints, floats), used as candidate inputs; how often to leave the ordinary sizes
pub struct Hints {
    pub ints: Vec<usize>,
    pub floats: Vec<f64>,
    pub broad: f64,
}
static HINTS: std::sync::OnceLock<Hints> = std::sync::OnceLock::new();
pub fn set_hints(file: Option<&String>, broad: f64) {
    let mut h = Hints { ints: vec![], floats: vec![], broad };
    if let Some(t) = file.and_then(|f| std::fs::read_to_string(f).ok()) {
        for l in t.lines() {
            if let Some(v) = l.strip_prefix("i ").and_then(|v| v.parse().ok()) {
                h.ints.push(v);
            }
            if let Some(v) = l.strip_prefix("f ").and_then(|v| v.parse::<u64>().ok()) {
                h.floats.push(f64::from_bits(v));
            }
        }
    }
    let _ = HINTS.set(h);
}
pub fn broad() -> f64 {
    HINTS.get().map_or(0.0, |h| h.broad)
}

pub struct Rng(u64);
impl Rng {
    /// a value around a literal of the source
    pub fn hint(&mut self) -> f64 {
        match HINTS.get() {
            Some(h) if !h.floats.is_empty() => {
                let x = h.floats[(self.u() % (h.floats.len() as u64)) as usize];
                let y = match self.below(6) {
                    0 => x * 0.5,
                    1 => x * 2.0,
                    2 => x * self.range(0.1, 1.9),
                    3 => x * self.pick(&[1.0 + 1e-15, 1.0 - 1e-15]),
                    _ => x,
                };
                if self.p(0.3) {
                    -y
                } else {
                    y
                }
            }
            _ => self.pick(&[1e-14, 1e-9, 1e-3, 1e3, 1e9]),
        }
    }
    /// a size around a literal of the source, in lo..=hi
    pub fn hint_int(&mut self, lo: usize, hi: usize) -> usize {
        if let Some(h) = HINTS.get() {
            for _ in 0..8 {
                if h.ints.is_empty() {
                    break;
                }
                let x = h.ints[(self.u() % (h.ints.len() as u64)) as usize];
                let x = match self.below(5) {
                    0 => x + 2,
                    1 => x + 1,
                    2 => x.saturating_sub(1),
                    3 => x.saturating_mul(2),
                    _ => x,
                };
                if x >= lo && x <= hi {
                    return x;
                }
            }
        }
        lo + self.below(hi - lo + 1)
    }
    /// 1..=usual, now and then larger
    pub fn size(&mut self, usual: usize, most: usize) -> usize {
        if self.p(0.3 * broad()) {
            self.hint_int(1, most)
        } else {
            1 + self.below(usual)
        }
    }
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u() % (n as u64)) as usize
    }
    pub fn p(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn unit(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// small dyadic rationals, so that exact ties happen
    pub fn dyadic(&mut self) -> f64 {
        (self.below(33) as f64 - 16.0) * self.pick(&[0.25, 0.5, 1.0])
    }
    /// any kind of float, the exceptional ones included
    pub fn float(&mut self) -> f64 {
        match self.below(13) {
            12 => self.hint(),
            0 => self.pick(&[0.0, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324]),
            1 => self.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN]),
            2 => f64::from_bits(self.u()),
            3 | 4 => self.dyadic(),
            5 => self.range(-1e-6, 1e-6),
            6 => self.range(-1e6, 1e6),
            _ => self.range(-10.0, 10.0),
        }
    }
    pub fn finite(&mut self) -> f64 {
        loop {
            let x = self.float();
            if x.is_finite() {
                return x;
            }
        }
    }
}

pub struct Bat {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub scratch: String,
    pub current: String,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<(String, Option<String>)>,
    pub nfail: u64,
    pub rule: String,
    pub hunt: bool,
    pub until: Option<std::time::Instant>,
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Bat {
    pub fn case(&mut self, trivial: bool, key: impl FnOnce() -> String) {
        self.cases += 1;
        if !trivial {
            let k = key();
            self.distinct.insert(hash(&k));
            if self.samples.len() < 3 && self.cases % 97 == 1 {
                self.samples.push(k.chars().take(600).collect());
            }
        }
    }
    pub fn fail(&mut self, what: String, known: Option<&str>) {
        self.nfail += 1;
        let have = self.fails.iter().filter(|f| f.1.as_deref() == known).count();
        if have < 4 {
            let what = compact(&what);
            self.fails.push((what.chars().take(6000).collect(), known.map(|s| s.to_string())));
        }
    }
    pub fn starting(&self, s: &str) {
        let _ = std::fs::write(&self.current, s);
    }
    pub fn full(&self) -> bool {
        let n = self.fails.iter().filter(|f| f.1.is_none()).count();
        n >= 4 || (self.hunt && n >= 1) || (self.cases % 16 == 0 && self.until.map_or(false, |t| std::time::Instant::now() > t))
    }
    pub fn json(&self) -> String {
        let mut o = String::new();
        write!(o, "{{\"cases\": {}, \"distinct\": {}, \"rule\": {}, \"samples\": [", self.cases, self.distinct.len(), js(&self.rule)).unwrap();
        o.push_str(&self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        write!(o, "], \"nfail\": {}, \"failures\": [", self.nfail).unwrap();
        let f: Vec<String> = self
            .fails
            .iter()
            .map(|(w, k)| match k {
                Some(k) => format!("{{\"what\": {}, \"known\": {}}}", js(w), js(k)),
                None => format!("{{\"what\": {}}}", js(w)),
            })
            .collect();
        o.push_str(&f.join(", "));
        o.push_str("]}");
        o
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// run and report whether it panicked
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// equal as numbers (both zeros are the same number), NaN equal to NaN
pub fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// equal up to rounding
pub fn near(a: f64, b: f64, scale: f64) -> bool {
    eq(a, b) || (a - b).abs() <= 1e-9 * scale.abs().max(a.abs()).max(b.abs())
}

/// shorter vectors and matrices in debug output
pub fn compact(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("VecStorage { data: [") {
        o.push_str(&rest[..i]);
        let t = &rest[i + "VecStorage { data: ".len()..];
        let e = t.find(']').map(|e| e + 1).unwrap_or(0);
        o.push_str(&t[..e]);
        let t = &t[e..];
        let c = t.find('}').map(|c| c + 1).unwrap_or(0);
        rest = &t[c..];
    }
    o.push_str(rest);
    o
}
