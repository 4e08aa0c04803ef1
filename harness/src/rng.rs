//! Deterministic random numbers; every choice of the harness derives from VERIF_SEED through this.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9E3779B97F4A7C15);
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}

pub fn hash_str(seed: u64, s: &str) -> u64 {
  let mut h = mix(seed ^ 0xABCD);
  for b in s.as_bytes() {
    h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    h ^= h >> 29;
  }
  mix(h)
}

impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(mix(seed))
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    mix(self.0)
  }
  /// uniform in 0..n
  pub fn below(&mut self, n: u64) -> u64 {
    if n == 0 {
      0
    } else {
      self.next() % n
    }
  }
  pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
    lo + self.below(hi - lo + 1)
  }
  pub fn us(&mut self, n: usize) -> usize {
    self.below(n as u64) as usize
  }
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.us(xs.len())]
  }
  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
      let j = self.us(i + 1);
      xs.swap(i, j);
    }
  }
  pub fn fork(&mut self) -> Rng {
    Rng::new(self.next())
  }
  /// Text over a hostile alphabet.
  pub fn text(&mut self, max: usize) -> String {
    const ALPHA: &[&str] = &[
      "a", "b", "Z", "0", "9", " ", "  ", "\t", "\n", "\"", "'", "\\", "$", "`", "$(id)", "${HOME}", ";", "&", "|",
      "#", ":", "-", "- ", "{", "}", "[", "]", ",", "%", "@", "!", "*", "?", "<", ">", "=", "/", ".", "~", "é", "漢",
      "🚀", "\u{7f}", "null", "true", "1e3", "\r", "\u{2028}", "\u{1}", "\u{1b}[0m", "\u{1b}[31m", "\u{feff}", "\u{a0}", "%2F", "A",
    ];
    let n = self.us(max + 1);
    let mut s = String::new();
    for _ in 0..n {
      s.push_str(self.pick(ALPHA));
    }
    s
  }
  /// A plain identifier.
  pub fn ident(&mut self, max: usize) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789-_";
    let n = 1 + self.us(max);
    let mut s = String::from(char::from(b'a' + self.below(26) as u8));
    for _ in 1..n {
      s.push(char::from(A[self.us(A.len())]));
    }
    s
  }
}

/// A number and its decimal text.
pub fn number(r: &mut Rng) -> (f64, String) {
  let sign = if r.chance(1, 3) { -1 } else { 1 };
  match r.below(4) {
    // any whole number a double holds
    0 => {
      let bits = r.range(1, 53);
      let x = sign * (r.next() >> (64 - bits)) as i64;
      (x as f64, x.to_string())
    }
    1 => {
      let x = sign * *r.pick(&[0, 255, 256, 32768, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 9007199254740991, 9007199254740992, 1000000000000000]);
      (x as f64, x.to_string())
    }
    // eighths: at most 13 digits, so no shorter text denotes the same double
    2 => {
      let k = sign * (1 + (r.next() >> r.range(28, 63))) as i64;
      let text = format!("{}{}.{:03}", if k < 0 { "-" } else { "" }, k.abs() / 8, k.abs() % 8 * 125);
      (k as f64 / 8.0, text.trim_end_matches('0').trim_end_matches('.').to_string())
    }
    _ => {
      let x = r.below(100000) as i64 - 500;
      (x as f64, x.to_string())
    }
  }
}
