//! What every generated module imports.
#[cfg(feature = "c16")]
pub mod ends;
#[cfg(any(feature = "c30", feature = "c31", feature = "c40", feature = "c41"))]
pub mod nuscr;
#[cfg(any(feature = "c20", feature = "c21"))]
pub mod timed;
#[cfg(feature = "c04")]
pub mod types;
#[cfg(feature = "c05")]
pub mod att;
#[cfg(feature = "c03")]
pub mod sel;
#[cfg(any(feature = "c40", feature = "c41"))]
pub mod auto;
#[cfg(feature = "c50")]
pub mod wire;
pub mod pre {
    pub use crate::{run_bodies, run_body, run_here, Deleg};
    pub use either::Either;
    pub use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
    pub use mpstthree::role::broadcast::RoleBroadcast;
    pub use mpstthree::role::end::RoleEnd;
    pub use mpstthree::role::Role;
    pub use mpstthree::name::Name;
    pub use vlib::act::*;
    pub use vlib::val::{Tok, Val};
}

use pre::*;

pub fn run_body(r: Res, b: Body) -> Result<(), Box<dyn std::error::Error>> {
    run_bodies(vec![r], b)
}

/// Loops of a protocol are written as recursive functions: every participant has the room for deep ones.
#[inline(never)]
fn deep(n: usize) -> usize {
    let room = std::hint::black_box([n as u8; 4096]);
    if n == 0 {
        return room.len();
    }
    deep(n - 1) + std::hint::black_box(&room)[n % 4096] as usize % 2
}

pub fn run_bodies(rs: Vec<Res>, b: Body) -> Result<(), Box<dyn std::error::Error>> {
    static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 64 == 7 {
        std::hint::black_box(deep(4000));
    }
    run_here(rs, b)
}

/// On the caller's own thread.
pub fn run_here(rs: Vec<Res>, b: Body) -> Result<(), Box<dyn std::error::Error>> {
    let mut v = vec![];
    for r in rs {
        if let Step::Next(a) = r? {
            v.push(a);
        }
    }
    if v.is_empty() {
        return Ok(());
    }
    b(v)
}

/// A delegated session endpoint as a payload.
pub struct Deleg(pub Recv<i64, End>);
impl Val for Deleg {
    fn mk(seed: u64) -> Self {
        let (s, r) = <Send<i64, End> as Session>::new();
        let _ = mpstthree::binary::send::send(vlib::val::deleg_value(seed), s);
        Deleg(r)
    }
    fn show(self) -> String {
        match mpstthree::binary::recv::recv(self.0) {
            Ok((v, _)) => format!("deleg:{v}"),
            Err(e) => format!("deleg error: {e}"),
        }
    }
}
