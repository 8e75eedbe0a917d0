//! Windows of timed actions.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TSpec {
    pub clock: char,
    #[serde(with = "text")]
    pub start: i128,
    pub incs: bool,
    #[serde(with = "text")]
    pub end: i128,
    pub ince: bool,
    pub reset: char,
}

impl TSpec {
    pub fn show(&self) -> String {
        format!(
            "{}{};{}{} on {:?} reset {:?}",
            if self.incs { "[" } else { "(" },
            self.start,
            self.end,
            if self.ince { "]" } else { ")" },
            self.clock,
            self.reset
        )
    }
    pub fn rust(&self) -> String {
        format!("{:?}, {}, {}, {}, {}, {:?}", self.clock, self.start, self.incs, self.end, self.ince, self.reset)
    }
}

impl TSpec {
    /// Whole seconds admitted by the window (i128::MAX when unbounded).
    pub fn admitted(&self) -> (i128, i128) {
        let lo = if self.start < 0 { 0 } else { self.start + !self.incs as i128 };
        let hi = if self.end < 0 { i128::MAX } else { self.end - !self.ince as i128 };
        (lo, hi)
    }
    pub fn open(&self) -> bool {
        self.start < 0 && self.end < 0
    }
    /// The same action with one component of its timing changed.
    pub fn shifted(&self, salt: usize) -> TSpec {
        let mut t = self.clone();
        match salt % 6 {
            0 => t.clock = if t.clock == 'a' { 'b' } else { 'a' },
            1 => t.start += 1,
            2 => t.incs = !t.incs,
            3 => t.end += 1,
            4 => t.ince = !t.ince,
            _ => t.reset = if t.reset == 'c' { ' ' } else { 'c' },
        }
        t
    }
    /// A satisfiable window; `wide` ones stay open for minutes.
    pub fn of(seed: u32, wide: bool) -> TSpec {
        let clocks = ['a', 'b', 'c'];
        let clock = clocks[(seed % 3) as usize];
        let s = (seed / 3 % 7) as i128;
        let w = if wide { 200 + (seed / 21 % 5000) as i128 } else { (seed / 21 % 4) as i128 };
        let (incs, ince) = (seed >> 14 & 3 != 1, seed >> 16 & 3 != 1);
        let mut t = match seed >> 18 & 7 {
            1 => TSpec { clock, start: -1 - s, incs: false, end: s + w, ince, reset: ' ' },
            2 => TSpec { clock, start: -2, incs: false, end: -1, ince: false, reset: ' ' },
            _ => TSpec { clock, start: s, incs, end: s + w, ince, reset: ' ' },
        };
        let (lo, hi) = t.admitted();
        if hi < lo {
            t.end = lo + 1;
            t.ince = true;
        }
        t.reset = match seed >> 21 & 7 {
            0 | 1 | 2 => ' ',
            3 | 4 => clock,
            _ => clocks[(seed as usize % 3 + 1 + (seed >> 24) as usize % 2) % 3],
        };
        t
    }
}

pub fn tspec() -> impl Strategy<Value = TSpec> {
    let small = || prop_oneof![4 => 0i128..5, 1 => 5i128..40, 1 => 40i128..9000];
    let bounds = prop_oneof![
        // non-empty window
        8 => (small(), 0i128..4).prop_map(|(a, w)| (a, a + w)),
        3 => (-3i128..0, small()),
        1 => (small(), -3i128..0),
        1 => (-3i128..0, -3i128..0),
        2 => Just((-2, -1)),
        1 => (small(), 1i128..4).prop_map(|(a, w)| (a + w, a)),
        1 => (small(), prop_oneof![Just(10_000_000_000i128), Just(u64::MAX as i128), Just(1i128 << 40)]),
        1 => (prop_oneof![Just(10_000_000_000i128), Just(i128::MAX - 1)], Just(i128::MAX)),
    ];
    (
        proptest::sample::select(vec!['a', 'b', 'c']),
        bounds,
        any::<bool>(),
        any::<bool>(),
        prop_oneof![2 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8)],
    )
        .prop_map(|(clock, (start, end), incs, ince, r)| {
            let reset = match r {
                0 => ' ',
                1 => clock,
                _ => if clock == 'a' { 'b' } else { 'a' },
            };
            let (incs, ince) = if start == -2 && end == -1 { (false, false) } else { (incs, ince) };
            TSpec { clock, start, incs, end, ince, reset }
        })
}

/// JSON numbers stop at 64 bits.
mod text {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &i128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<i128, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
