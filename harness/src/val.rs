//! Payload types used by generated protocols: built from a seed and shown as text.
use std::sync::atomic::{AtomicI64, Ordering};

pub trait Val: Send + 'static {
    fn mk(seed: u64) -> Self;
    fn show(self) -> String;
}

fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

impl Val for i64 {
    fn mk(s: u64) -> Self {
        mix(s) as i64
    }
    fn show(self) -> String {
        format!("i64:{self}")
    }
}
impl Val for String {
    fn mk(s: u64) -> Self {
        let m = mix(s);
        let n = (m % 23) as usize;
        let mut t = format!("{m:x}-");
        for i in 0..n {
            t.push(char::from_u32(0x61 + ((m >> (i % 48)) as u32 & 0x1ff)).unwrap_or('é'));
        }
        t
    }
    fn show(self) -> String {
        format!("str:{self}")
    }
}
impl Val for (u8, bool) {
    fn mk(s: u64) -> Self {
        let m = mix(s);
        (m as u8, m & 256 != 0)
    }
    fn show(self) -> String {
        format!("pair:{self:?}")
    }
}
impl Val for Vec<u16> {
    fn mk(s: u64) -> Self {
        let m = mix(s);
        (0..(m % 9)).map(|i| mix(m + i) as u16).collect()
    }
    fn show(self) -> String {
        format!("vec:{self:?}")
    }
}
impl Val for () {
    fn mk(_: u64) -> Self {}
    fn show(self) -> String {
        "unit".into()
    }
}
impl Val for i32 {
    fn mk(s: u64) -> Self {
        mix(s) as i32
    }
    fn show(self) -> String {
        format!("i32:{self}")
    }
}

impl Val for [u64; 48] {
    fn mk(s: u64) -> Self {
        std::array::from_fn(|i| mix(s + i as u64))
    }
    fn show(self) -> String {
        format!("block:{:x?}", self.iter().fold(0u64, |a, b| a.rotate_left(7) ^ b))
    }
}
impl Val for Option<Box<char>> {
    fn mk(s: u64) -> Self {
        char::from_u32(mix(s) as u32 % 0x1_2000).map(Box::new).filter(|_| s % 3 > 0)
    }
    fn show(self) -> String {
        format!("option:{self:?}")
    }
}
impl Val for u128 {
    fn mk(s: u64) -> Self {
        (mix(s) as u128) << 64 | mix(s + 1) as u128
    }
    fn show(self) -> String {
        format!("u128:{self}")
    }
}
impl Val for Result<f64, String> {
    fn mk(s: u64) -> Self {
        if mix(s) & 1 == 0 {
            Ok(f64::from_bits(mix(s)))
        } else {
            Err(String::mk(s))
        }
    }
    fn show(self) -> String {
        match self {
            Ok(x) => format!("float:{:x}", x.to_bits()),
            Err(e) => format!("error:{e}"),
        }
    }
}

/// A payload whose live instances are counted: after a case everything made has been dropped exactly once.
#[derive(Debug)]
pub struct Tok(u64);
pub static TOK_MADE: AtomicI64 = AtomicI64::new(0);
pub static TOK_DROPPED: AtomicI64 = AtomicI64::new(0);
impl Val for Tok {
    fn mk(s: u64) -> Self {
        TOK_MADE.fetch_add(1, Ordering::SeqCst);
        Tok(mix(s))
    }
    fn show(self) -> String {
        format!("tok:{}", self.0)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        TOK_DROPPED.fetch_add(1, Ordering::SeqCst);
    }
}

pub const TYPES: &[&str] = &["i64", "String", "(u8,bool)", "Vec<u16>", "()", "i32", "Tok", "Deleg", "[u64;48]", "Option<Box<char>>", "u128", "Result<f64,String>"];

pub fn expect(ty: &str, seed: u64) -> String {
    match ty {
        "i64" => <i64 as Val>::mk(seed).show(),
        "String" => <String as Val>::mk(seed).show(),
        "(u8,bool)" => <(u8, bool) as Val>::mk(seed).show(),
        "Vec<u16>" => <Vec<u16> as Val>::mk(seed).show(),
        "()" => "unit".into(),
        "i32" => <i32 as Val>::mk(seed).show(),
        "[u64;48]" => <[u64; 48] as Val>::mk(seed).show(),
        "Option<Box<char>>" => <Option<Box<char>> as Val>::mk(seed).show(),
        "u128" => <u128 as Val>::mk(seed).show(),
        "Result<f64,String>" => <Result<f64, String> as Val>::mk(seed).show(),
        "Tok" => format!("tok:{}", mix(seed)),
        "Deleg" => format!("deleg:{}", mix(seed) as i64),
        t => panic!("unknown payload type {t}"),
    }
}
pub fn deleg_value(seed: u64) -> i64 {
    mix(seed) as i64
}
