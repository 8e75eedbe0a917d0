//! C03: selection over receiving endpoints, against a model of what every endpoint holds.
use mpstthree::binary::select::{select, select_mut};
use mpstthree::binary::send::send;
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::error::Error;
use vlib::report::Report;

type T = (usize, u64);
type R3 = Recv<T, End>;
type R2 = Recv<T, R3>;
type R1 = Recv<T, R2>;
type S1 = <R1 as Session>::Dual;
type S2 = <R2 as Session>::Dual;
type S3 = <R3 as Session>::Dual;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// the sender of endpoint i sends its next value
    Send(u8),
    /// the sender of endpoint i vanishes
    Drop(u8),
    /// select in the list of endpoints at stage l; by value or in place
    Select(u8, bool),
    /// the sender of endpoint i acts (sends or vanishes) while the selection is already waiting
    SelectWaiting(u8, bool, u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    n: usize,
    ops: Vec<Op>,
    seed: u64,
    unit: bool,
}

pub enum Snd {
    A(S1),
    B(S2),
    C(S3),
    Gone,
}

fn value(seed: u64, id: usize, stage: usize) -> T {
    (id, vlib::report::h64(&(seed, id, stage)))
}

struct M {
    seed: u64,
    snd: Vec<Snd>,
    /// values sent so far by each endpoint's sender
    sent: Vec<usize>,
    /// values received so far
    got: Vec<usize>,
    /// stage list the endpoint is currently in (None: out of the game)
    at: Vec<Option<usize>>,
    l1: Vec<R1>,
    l2: Vec<R2>,
    l3: Vec<R3>,
    /// number of disconnected endpoints removed per list without knowing which: candidates stay in `at`
    removed_dead: [usize; 3],
    ends: usize,
    selects: usize,
    errs: usize,
    multi: usize,
}

impl M {
    fn len(&self, l: usize) -> usize {
        match l {
            0 => self.l1.len(),
            1 => self.l2.len(),
            _ => self.l3.len(),
        }
    }
    fn act(&mut self, i: usize, drop_it: bool) {
        let s = std::mem::replace(&mut self.snd[i], Snd::Gone);
        if drop_it {
            return;
        }
        let v = value(self.seed, i, self.sent[i]);
        self.snd[i] = match s {
            Snd::A(s) => Snd::B(send(v, s)),
            Snd::B(s) => Snd::C(send(v, s)),
            Snd::C(s) => {
                let _ = send(v, s);
                Snd::Gone
            }
            Snd::Gone => return,
        };
        self.sent[i] += 1;
    }
    fn ready_val(&self, l: usize) -> Vec<usize> {
        (0..self.at.len()).filter(|i| self.at[*i] == Some(l) && self.sent[*i] > self.got[*i]).collect()
    }
    fn dead(&self, l: usize) -> usize {
        (0..self.at.len())
            .filter(|i| self.at[*i] == Some(l) && self.sent[*i] == self.got[*i] && matches!(self.snd[*i], Snd::Gone))
            .count()
            - self.removed_dead[l]
    }
    /// Judges the outcome of one selection in list `l`.
    fn judge(&mut self, l: usize, res: Result<T, String>, before: usize) -> Result<Option<usize>, String> {
        self.selects += 1;
        let after = self.len(l);
        if before == 0 {
            return match res {
                Err(_) => Ok(None),
                Ok(v) => Err(format!("selecting over an empty list returned {v:?}")),
            };
        }
        if after + 1 != before {
            return Err(format!("a selection over {before} endpoints left {after}"));
        }
        let vals = self.ready_val(l);
        if vals.len() + self.dead(l) > 1 {
            self.multi += 1;
        }
        match res {
            Ok((id, v)) => {
                if !vals.contains(&id) {
                    return Err(format!("selection returned {:?}, no endpoint of the list held that message", (id, v)));
                }
                if (id, v) != value(self.seed, id, self.got[id]) {
                    return Err(format!("endpoint {id}: value {v} is not the next one sent"));
                }
                self.got[id] += 1;
                self.at[id] = if l < 2 { Some(l + 1) } else { None };
                Ok(Some(id))
            }
            Err(e) => {
                self.errs += 1;
                if self.dead(l) == 0 {
                    return Err(format!("selection failed ({e}) although no endpoint of the list was disconnected"));
                }
                self.removed_dead[l] += 1;
                Ok(None)
            }
        }
    }
    fn sel<A: std::marker::Send, B: Session>(v: &mut Vec<Recv<A, B>>, by_value: bool) -> Result<(A, B), Box<dyn Error>> {
        if by_value {
            let (r, rest) = select(std::mem::take(v));
            *v = rest;
            r
        } else {
            select_mut(v)
        }
    }
    fn select(&mut self, l: usize, by_value: bool) -> Result<(), String> {
        vlib::watch::tick();
        let before = self.len(l);
        let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match l {
            0 => M::sel(&mut self.l1, by_value).map(|(v, c)| {
                self.l2.push(c);
                v
            }),
            1 => M::sel(&mut self.l2, by_value).map(|(v, c)| {
                self.l3.push(c);
                v
            }),
            _ => M::sel(&mut self.l3, by_value).map(|(v, c)| {
                let _: End = c;
                self.ends += 1;
                v
            }),
        }))
        .map_err(|p| format!("selection panicked: {}", vlib::drive::panic_text(&p)))?;
        vlib::watch::tick();
        let res = run.map_err(|e| e.to_string());
        self.judge(l, res, before).map(|_| ())
    }
    fn can(&self, l: usize) -> bool {
        self.len(l) == 0 || !self.ready_val(l).is_empty() || self.dead(l) > 0
    }
}

pub fn run(c: &Case) -> Result<(usize, usize, usize), String> {
    let n = c.n;
    let mut m = M {
        seed: c.seed,
        snd: vec![],
        sent: vec![0; n],
        got: vec![0; n],
        at: vec![Some(0); n],
        l1: vec![],
        l2: vec![],
        l3: vec![],
        removed_dead: [0; 3],
        ends: 0,
        selects: 0,
        errs: 0,
        multi: 0,
    };
    for _ in 0..n {
        let (s, r) = S1::new();
        m.snd.push(Snd::A(s));
        m.l1.push(r);
    }
    for o in &c.ops {
        match o {
            Op::Send(i) if n > 0 => m.act(*i as usize % n, false),
            Op::Drop(i) if n > 0 => m.act(*i as usize % n, true),
            Op::Select(l, by) => {
                let l = *l as usize % 3;
                if m.can(l) {
                    m.select(l, *by)?;
                }
            }
            Op::SelectWaiting(l, by, i, dr) if n > 0 => {
                let l = *l as usize % 3;
                let i = *i as usize % n;
                if m.can(l) {
                    m.select(l, *by)?;
                } else if m.at[i] == Some(l) && !matches!(m.snd[i], Snd::Gone) {
                    // nothing is ready: the sender acts from another thread while we wait
                    let s = std::mem::replace(&mut m.snd[i], Snd::Gone);
                    let v = value(m.seed, i, m.sent[i]);
                    let dr = *dr;
                    let pause = (c.seed >> 7) % 300;
                    let h = std::thread::spawn(move || {
                        std::thread::sleep(std::time::Duration::from_micros(pause));
                        if dr {
                            return Snd::Gone;
                        }
                        match s {
                            Snd::A(s) => Snd::B(send(v, s)),
                            Snd::B(s) => Snd::C(send(v, s)),
                            Snd::C(s) => {
                                let _ = send(v, s);
                                Snd::Gone
                            }
                            Snd::Gone => Snd::Gone,
                        }
                    });
                    // the model sees the action as done: it is the only thing that can wake the selection
                    if !dr {
                        m.sent[i] += 1;
                    }
                    let r = m.select(l, *by);
                    m.snd[i] = h.join().map_err(|_| "sender panicked".to_string())?;
                    r?;
                }
            }
            _ => {}
        }
    }
    // every endpoint left must still be usable: finish all senders and drain
    for i in 0..n {
        while !matches!(m.snd[i], Snd::Gone) && m.at[i].is_some() {
            let last = m.sent[i] == 2 && c.unit;
            m.act(i, last);
        }
    }
    for l in 0..3 {
        while m.len(l) > 0 {
            if !m.can(l) {
                return Err(format!("{} endpoints left in list {l} but none of them should be", m.len(l)));
            }
            m.select(l, c.unit)?;
        }
    }
    for i in 0..n {
        if m.got[i] != m.sent[i] {
            return Err(format!("endpoint {i}: {} values sent, {} received", m.sent[i], m.got[i]));
        }
    }
    Ok((m.selects, m.errs, m.multi))
}

/// Concurrent senders, one drain: every value exactly once.
fn storm(n: usize, seed: u64, by: bool) -> Result<(), String> {
    let mut rs: Vec<R1> = vec![];
    let mut hs = vec![];
    for i in 0..n {
        let (s, r) = S1::new();
        rs.push(r);
        let k = (seed >> (i % 60)) & 3;
        hs.push(std::thread::spawn(move || {
            for _ in 0..(vlib::report::h64(&(seed, i)) % 300) {
                std::hint::spin_loop();
            }
            // k = 0..2: stop after k values, 3: all
            if k == 0 {
                return;
            }
            let s = send(value(seed, i, 0), s);
            std::thread::yield_now();
            if k == 1 {
                return;
            }
            let s = send(value(seed, i, 1), s);
            if k == 2 {
                return;
            }
            std::thread::yield_now();
            let _ = send(value(seed, i, 2), s);
        }));
    }
    let want = |i: usize| ((seed >> (i % 60)) & 3) as usize;
    let mut got = vec![0usize; n];
    let mut fails = 0;
    let mut l2 = vec![];
    while !rs.is_empty() {
        vlib::watch::tick();
        match M::sel(&mut rs, by) {
            Ok((v, c)) => {
                if v.0 >= n || v != value(seed, v.0, 0) || got[v.0] != 0 {
                    return Err(format!("unexpected value {v:?} at stage 0"));
                }
                got[v.0] = 1;
                l2.push(c);
            }
            Err(_) => fails += 1,
        }
    }
    let mut l3 = vec![];
    while !l2.is_empty() {
        vlib::watch::tick();
        match M::sel(&mut l2, by) {
            Ok((v, c)) => {
                if v.0 >= n || v != value(seed, v.0, 1) || got[v.0] != 1 {
                    return Err(format!("unexpected value {v:?} at stage 1"));
                }
                got[v.0] = 2;
                l3.push(c);
            }
            Err(_) => fails += 1,
        }
    }
    while !l3.is_empty() {
        vlib::watch::tick();
        match M::sel(&mut l3, by) {
            Ok((v, _)) => {
                if v.0 >= n || v != value(seed, v.0, 2) || got[v.0] != 2 {
                    return Err(format!("unexpected value {v:?} at stage 2"));
                }
                got[v.0] = 3;
            }
            Err(_) => fails += 1,
        }
    }
    for h in hs {
        h.join().map_err(|_| "sender panicked".to_string())?;
    }
    let mut short = 0;
    for i in 0..n {
        if got[i] != want(i) {
            return Err(format!("endpoint {i}: {} values sent, {} received", want(i), got[i]));
        }
        if want(i) < 3 {
            short += 1;
        }
    }
    if fails != short {
        return Err(format!("{short} endpoints were disconnected, {fails} selections failed"));
    }
    Ok(())
}

/// A selection over endpoints that all stay silent but one, which acts after `ms` milliseconds.
fn patient(n: usize, i: usize, ms: u64, vanishes: bool, by: bool, seed: u64) -> Result<(), String> {
    let (mut rs, mut ss): (Vec<R1>, Vec<Option<S1>>) = (0..n).map(|_| R1::new()).map(|(r, s)| (r, Some(s))).unzip();
    let s = ss[i].take().unwrap();
    let h = std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_millis(ms));
        (!vanishes).then(|| send(value(seed, i, 0), s))
    });
    let r = M::sel(&mut rs, by).map_err(|e| e.to_string());
    let kept = h.join().map_err(|_| "sender panicked".to_string())?;
    match (vanishes, r) {
        (true, Ok(_)) => return Err("a selection returned a value nobody sent".into()),
        (false, Err(e)) => return Err(format!("the selection failed ({e}) although no endpoint is disconnected")),
        (false, Ok((v, _))) if v != value(seed, i, 0) => return Err(format!("the selection returned {v:?}")),
        _ => {}
    }
    if rs.len() != n - 1 {
        return Err(format!("{} of {n} endpoints are left", rs.len()));
    }
    drop((kept, ss));
    Ok(())
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        4 => any::<u8>().prop_map(Op::Send),
        1 => any::<u8>().prop_map(Op::Drop),
        5 => (0u8..3, any::<bool>()).prop_map(|(a, b)| Op::Select(a, b)),
        1 => (0u8..3, any::<bool>(), any::<u8>(), any::<bool>()).prop_map(|(a, b, c, d)| Op::SelectWaiting(a, b, c, d)),
    ]
}

pub fn c03(replay: Option<serde_json::Value>) -> ! {
    let mut rep = Report::new("C03", "a history with at least one selection that had several ready endpoints to choose from");
    vlib::watch::start("C03", rep.seed, if rep.thorough() { 80 } else { 20 }, 150);
    if let Some(v) = replay {
        let c = &v["case"];
        let r = if c["check"] == "storm" {
            let (n, s, b): (usize, u64, bool) = serde_json::from_value(c["input"].clone()).unwrap();
            (0..2000).try_for_each(|_| storm(n, s, b))
        } else if c["check"] == "patient" {
            let (n, i, ms, v, b, s): (usize, usize, u64, bool, bool, u64) = serde_json::from_value(c["input"].clone()).unwrap();
            patient(n, i, ms, v, b, s)
        } else {
            run(&serde_json::from_value(c["input"].clone()).unwrap()).map(|_| ())
        };
        match r {
            Ok(()) => {
                println!("C03: replay passed");
                std::process::exit(0)
            }
            Err(e) => rep.violation(&e, c.clone()),
        }
    }
    for (label, lo, hi, ops, q) in [("few", 0usize, 3usize, 24usize, 6000u32), ("several", 2, 8, 60, 5000), ("many", 9, 70, 260, 500)] {
        let strat = (lo..=hi, vec(op(), 0..=ops), any::<u64>(), any::<bool>()).prop_map(|(n, ops, seed, unit)| Case { n, ops, seed, unit });
        let cases = rep.n(q, q * 20);
        vlib::pbt::check(&mut rep, label, cases, strat, |c, rep| {
            let (s, e, m) = run(c)?;
            rep.class(label);
            if e > 0 {
                rep.class("with failing selections");
            }
            if c.ops.iter().any(|o| matches!(o, Op::SelectWaiting(..))) {
                rep.class("with a selection that may wait");
            }
            if m > 0 {
                rep.nontrivial(&format!("{c:?}"), || serde_json::json!({"case": c, "selections": s, "failed": e, "with several candidates": m}));
            }
            Ok(())
        });
    }
    let cases = rep.n(400, 8000);
    vlib::pbt::check(&mut rep, "storm", cases, (1usize..24, any::<u64>(), any::<bool>()), |c, rep| {
        storm(c.0, c.1, c.2)?;
        rep.class("concurrent senders");
        if c.0 > 1 {
            rep.nontrivial(&format!("storm {c:?}"), || serde_json::json!({"storm": c}));
        }
        Ok(())
    });
    // however long it takes; all at once, as they mostly sleep
    use proptest::strategy::ValueTree;
    let longest = if rep.thorough() { 66_000 } else { 13_000 };
    let ms = prop_oneof![8 => 1100u64..2600, 4 => 2600u64..6500, 1 => 10_400u64..longest];
    let strat = (1usize..60, any::<proptest::sample::Index>(), ms, proptest::bool::weighted(0.3), any::<bool>(), any::<u64>());
    let mut run = vlib::pbt::runner(rep.seed, "C03/patient", 1, 0);
    let cases: Vec<_> = (0..rep.n(120, 600)).map(|_| strat.new_tree(&mut run).expect("tree").current()).map(|c| (c.0, c.1.index(c.0), c.2, c.3, c.4, c.5)).collect();
    vlib::watch::set_case(&serde_json::json!({"check": "patient"}));
    let out: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = cases.iter().map(|c| sc.spawn(move || patient(c.0, c.1, c.2, c.3, c.4, c.5))).collect();
        hs.into_iter()
            .map(|h| {
                let r = h.join().unwrap_or(Err("internal: panicked".into()));
                vlib::watch::tick();
                r
            })
            .collect()
    });
    for (c, r) in cases.iter().zip(out) {
        rep.eval();
        match r {
            Ok(()) => {
                rep.class("a selection that waits for seconds");
                if c.0 > 1 {
                    rep.nontrivial(&format!("patient {c:?}"), || serde_json::json!({"patient": c}));
                }
            }
            Err(e) => rep.violation(&e, serde_json::json!({"check": "patient", "input": c})),
        }
    }
    rep.finish()
}
