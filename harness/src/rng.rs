//! The random source of a case, with a memory of the texts made so far in it.

const SLOTS: usize = 6;
const MAX: usize = 32;

/// Deterministic from its seed. Remembers the last few short texts generated
/// (without the heap, as some cases count allocations), so that parts of one
/// case are sometimes related: equal, a prefix, another case, twice the same.
#[derive(Clone)]
pub struct Rng {
    state: u64,
    text: [[u8; MAX]; SLOTS],
    len: [u8; SLOTS],
    seen: usize,
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { state: seed ^ 0x9E37_79B9_7F4A_7C15, text: [[0; MAX]; SLOTS], len: [0; SLOTS], seen: 0 }
    }
    pub fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num/den`.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn pstr(&mut self, v: &[&'static str]) -> &'static str {
        v[self.below(v.len())]
    }
    /// Notes a text of this case.
    pub fn remember(&mut self, s: &str) {
        if s.is_empty() || s.len() > MAX {
            return;
        }
        let k = self.seen % SLOTS;
        self.text[k][..s.len()].copy_from_slice(s.as_bytes());
        self.len[k] = s.len() as u8;
        self.seen += 1;
    }
    /// Sometimes, a text related to an earlier one of this case.
    pub fn echo(&mut self) -> Option<String> {
        if self.seen == 0 || !self.chance(1, 12) {
            return None;
        }
        let k = self.below(self.seen.min(SLOTS));
        let s = std::str::from_utf8(&self.text[k][..usize::from(self.len[k])]).unwrap().to_owned();
        let n = s.chars().count();
        Some(match self.below(12) {
            0..=5 => s,
            6 => s.chars().take(n - 1).collect(),
            7 => s.chars().skip(1).collect(),
            8 => format!("{s}{s}"),
            9 => {
                // The case of one letter.
                let at = self.below(n);
                s.chars()
                    .enumerate()
                    .map(|(k, c)| match c {
                        _ if k < at => c,
                        'a'..='z' => c.to_ascii_uppercase(),
                        'A'..='Z' => c.to_ascii_lowercase(),
                        _ => c,
                    })
                    .collect()
            }
            10 => format!("{s}{}", self.pstr(&["a", ".", "0", "-", "%41", "/"])),
            _ => {
                // One character percent-encoded.
                let at = self.below(n);
                let mut o = String::new();
                for (k, c) in s.chars().enumerate() {
                    if k == at && c != '%' {
                        let mut b = [0; 4];
                        for b in c.encode_utf8(&mut b).bytes() {
                            o.push_str(&format!("%{b:02X}"));
                        }
                    } else {
                        o.push(c);
                    }
                }
                o
            }
        })
    }
}
