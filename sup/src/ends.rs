//! C16: the close of several sessions at once, against peers that stop, stop late, or vanish.
use mpstthree::binary::struct_trait::{end::End, end::Signal, session::Session};
use mpstthree::name::Name;
use mpstthree::role::{end::RoleEnd, Role};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;
use vlib::report::Report;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Peer {
    /// has announced its stop
    Stopped,
    /// announces its stop while the close is waiting
    StopsLate,
    /// has vanished
    Gone,
    /// vanishes while the close is waiting
    Leaves,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// 0: the three-party function of the library, 3 to 5: the macro
    n: usize,
    peers: Vec<Peer>,
    order: Vec<u16>,
    /// the last late partner takes this long, in milliseconds
    #[serde(default)]
    pause: u64,
}

mpstthree::create_multiple_normal_name!(NameP, NameQ, NameS, NameT, NameU);
type Res = Result<(), Box<dyn std::error::Error>>;

fn nm<N: Name>() -> N {
    N::new().0
}
fn end() -> RoleEnd {
    RoleEnd::new().0
}

macro_rules! many {
    ($m:ident, $n:literal, $($name:ident: $($field:ident)+;)+) => {
        mod $m {
            use super::*;
            mpstthree::create_meshedchannels!(MC, $n);
            mpstthree::close_mpst_interleaved!(close_all, MC, $n);
            pub fn run(ends: &mut dyn Iterator<Item = End>) -> Res {
                close_all($(MC { $($field: ends.next().unwrap(),)+ stack: end(), name: nm::<$name>() }),+)
            }
        }
    };
}
many!(three, 3, NameP: session1 session2; NameQ: session1 session2; NameS: session1 session2;);
many!(four, 4, NameP: session1 session2 session3; NameQ: session1 session2 session3; NameS: session1 session2 session3; NameT: session1 session2 session3;);
many!(five, 5, NameP: session1 session2 session3 session4; NameQ: session1 session2 session3 session4; NameS: session1 session2 session3 session4; NameT: session1 session2 session3 session4; NameU: session1 session2 session3 session4;);

fn library(ends: &mut dyn Iterator<Item = End>) -> Res {
    use mpstthree::meshedchannels::MeshedChannels;
    use mpstthree::name::{a::NameA, b::NameB, c::NameC};
    macro_rules! mc {
        ($n:ty) => {
            MeshedChannels { session1: ends.next().unwrap(), session2: ends.next().unwrap(), stack: end(), name: nm::<$n>() }
        };
    }
    mpstthree::interleaved::close::close_mpst_interleaved(mc!(NameA), mc!(NameB), mc!(NameC))
}

fn links(n: usize) -> usize {
    match n {
        0 | 3 => 6,
        n => n * (n - 1),
    }
}

fn one(c: &Case) -> Result<&'static str, String> {
    let mut ours = vec![];
    let mut theirs: Vec<Option<End>> = vec![];
    let mut late = vec![];
    for (i, p) in c.peers.iter().enumerate() {
        let (a, b) = End::new();
        ours.push(a);
        match p {
            Peer::Stopped => b.sender.send(Signal::Stop).map_err(|e| format!("a fresh end is not connected: {e}"))?,
            Peer::StopsLate | Peer::Leaves => late.push(i),
            Peer::Gone => (),
        }
        theirs.push(if *p == Peer::Gone { None } else { Some(b) });
    }
    late.sort_by_key(|i| c.order.get(*i).copied().unwrap_or(0));
    let done = AtomicUsize::new(0);
    let total = late.len();
    let (res, seen, theirs) = std::thread::scope(|sc| {
        let done = &done;
        let h = sc.spawn(move || {
            for (k, i) in late.into_iter().enumerate() {
                std::thread::sleep(Duration::from_millis(if k + 1 == total { c.pause.max(2) } else { 2 }));
                done.fetch_add(1, Ordering::SeqCst);
                match c.peers[i] {
                    Peer::StopsLate => {
                        let _ = theirs[i].as_ref().unwrap().sender.send(Signal::Stop);
                    }
                    _ => theirs[i] = None,
                }
            }
            theirs
        });
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut it = ours.into_iter();
            match c.n {
                0 => library(&mut it),
                3 => three::run(&mut it),
                4 => four::run(&mut it),
                _ => five::run(&mut it),
            }
            .map_err(|e| e.to_string())
        }));
        let seen = done.load(Ordering::SeqCst);
        (res, seen, h.join().unwrap())
    });
    let res = res.map_err(|p| format!("the close panicked: {}", vlib::drive::panic_text(&p)))?;
    let lost = c.peers.iter().any(|p| matches!(p, Peer::Gone | Peer::Leaves));
    match (lost, res) {
        (true, Ok(())) => Err("the close succeeded although a partner vanished without closing".into()),
        (false, Err(e)) => Err(format!("the close failed although every partner closes: {e}")),
        (true, Err(_)) => Ok("a partner vanished"),
        (false, Ok(())) => {
            if seen != total {
                return Err(format!("the close returned when {seen} of {total} late partners had closed"));
            }
            for (i, t) in theirs.iter().enumerate() {
                match t.as_ref().unwrap().receiver.try_recv() {
                    Ok(Signal::Stop) => (),
                    other => return Err(format!("the partner on link {i} was not told: {other:?}")),
                }
            }
            Ok(if total > 0 { "waited for partners" } else { "everybody had closed" })
        }
    }
}

fn case() -> impl Strategy<Value = Case> {
    let whole = prop_oneof![1 => Just(Peer::Stopped), 1 => Just(Peer::StopsLate)];
    let broken = prop_oneof![12 => Just(Peer::Stopped), 4 => Just(Peer::StopsLate), 1 => Just(Peer::Gone), 2 => Just(Peer::Leaves)];
    proptest::sample::select(vec![0usize, 3, 4, 5]).prop_flat_map(move |n| {
        let l = links(n);
        (prop_oneof![vec(whole.clone(), l), vec(broken.clone(), l), vec(broken.clone(), l)], vec(any::<u16>(), l)).prop_map(move |(peers, order)| Case { n, peers, order, pause: 0 })
    })
}

pub fn check(rep: &mut Report, replay: Option<&Value>) {
    if let Some(v) = replay {
        let all = v["inputs"].as_array().cloned().unwrap_or(vec![v["input"].clone()]);
        let all: Vec<Case> = all.into_iter().map(|c| serde_json::from_value(c).unwrap()).collect();
        for c in (0..20).flat_map(|_| &all) {
            let one_case = serde_json::json!({"check": "closes", "input": c});
            vlib::watch::set_case(&one_case);
            rep.eval();
            if let Err(e) = one(c) {
                rep.violation(&e, one_case);
                return;
            }
        }
        return;
    }
    let n = rep.n(1600, 16000);
    vlib::pbt::check_par(rep, "closes", n, 300, case(), one, |c, class, rep| {
        rep.class(&format!("close of several sessions: {class}"));
        if c.peers.iter().any(|p| *p != Peer::Stopped) {
            rep.nontrivial(&format!("{c:?}"), || serde_json::json!({"close": c}));
        }
        Ok(())
    });
    // nothing depends on how long a partner takes; all at once, as they mostly sleep
    use proptest::strategy::ValueTree;
    let longest = if rep.thorough() { 66_000 } else { 13_000 };
    let ms = prop_oneof![8 => 1100u64..2600, 4 => 2600u64..6500, 1 => 10_400u64..longest];
    let strat = (case(), ms).prop_map(|(mut c, ms)| {
        if !c.peers.contains(&Peer::StopsLate) {
            c.peers[0] = Peer::StopsLate;
        }
        c.pause = ms;
        c
    });
    let mut run = vlib::pbt::runner(rep.seed, "C16/slow closes", 1, 0);
    let cases: Vec<Case> = (0..rep.n(120, 600)).map(|_| strat.new_tree(&mut run).expect("tree").current()).collect();
    vlib::watch::set_case(&serde_json::json!({"check": "closes", "inputs": cases}));
    let out: Vec<Result<&'static str, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = cases.iter().map(|c| sc.spawn(move || one(c))).collect();
        hs.into_iter()
            .map(|h| {
                let r = h.join().unwrap_or(Err("internal: panicked".into()));
                vlib::watch::tick();
                r
            })
            .collect()
    });
    for (c, r) in cases.iter().zip(out) {
        rep.eval();
        match r {
            Ok(class) => {
                rep.class(&format!("slow close of several sessions: {class}"));
                rep.nontrivial(&format!("{c:?}"), || serde_json::json!({"close": c}));
            }
            Err(e) => rep.violation(&e, serde_json::json!({"check": "closes", "input": c})),
        }
    }
}
