//! Protocol and script generators.
use crate::ir::*;
use proptest::collection::vec;
use proptest::prelude::*;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub fams: Vec<(&'static str, u32)>,
    pub n: (usize, usize),
    pub states: (usize, usize),
    pub branches: (usize, usize),
    pub msgs: (usize, usize),
}

const NAMES: &[&str] = &[
    "A", "B", "C", "D", "Alice", "Bob", "Server", "Client", "Auth", "Zed", "Node1", "Node2", "Logger", "Q", "Proxy",
    "Buyer", "Seller", "Worker", "K9", "Voter",
];

type RawMsg = (u8, u8, u8, u32);
type RawBranch = (Vec<RawMsg>, u8, u32);
type RawState = (u8, Vec<RawBranch>, u8, u8);
type Raw = (usize, Vec<u8>, Vec<RawMsg>, Vec<RawState>, u64, bool);

fn raw_msg() -> impl Strategy<Value = RawMsg> {
    (any::<u8>(), any::<u8>(), any::<u8>(), any::<u32>())
}
fn raw_branch(m: (usize, usize)) -> impl Strategy<Value = RawBranch> {
    (vec(raw_msg(), m.0..=m.1), any::<u8>(), any::<u32>())
}

/// Families whose programs run two protocols, one thread holding a participant of each.
pub fn paired(family: &str) -> bool {
    family.ends_with("inter")
}

pub fn prog(c: Cfg) -> impl Strategy<Value = Prog> {
    let fams = c.fams.clone();
    let tot: u32 = fams.iter().map(|f| f.1).sum();
    let (lo, hi) = c.n;
    let (m0, m1) = c.msgs;
    let (s0, s1) = c.states;
    let (b0, b1) = c.branches;
    let raw = move || {
        (
            lo..=hi,
            vec(any::<u8>(), 16),
            vec(raw_msg(), m0..=m1),
            vec((any::<u8>(), vec(raw_branch((m0, m1)), b0..=b1), any::<u8>(), any::<u8>()), s0..=s1),
            any::<u64>(),
            any::<bool>(),
        )
    };
    (0..tot, raw(), raw(), any::<(u8, u8)>())
        .prop_map(move |(f, raw, other, hold): (u32, Raw, Raw, (u8, u8))| {
            let mut f = f;
            let mut name = fams[0].0;
            for (x, w) in &fams {
                if f < *w {
                    name = x;
                    break;
                }
                f -= w;
            }
            let a = build(name, raw);
            if !paired(name) {
                return Prog::one(a);
            }
            let mut b = build(name, other);
            for i in 0..b.n() {
                while a.names.contains(&b.names[i]) || b.names[..i].contains(&b.names[i]) {
                    let j = NAMES.iter().position(|x| *x == b.names[i]).unwrap_or(NAMES.len() - 1);
                    b.names[i] = NAMES[(j + 1) % NAMES.len()].to_string();
                }
            }
            let hold = (hold.0 as usize % a.n(), hold.1 as usize % b.n());
            Prog { ps: vec![a, b], hold }
        })
}

fn build(family: &str, raw: Raw) -> Proto {
    let (n, nm, init, states, style, plain) = raw;
    let fam = crate::emit::fam(family);
    let n = if fam.three() { 3 } else if fam.binary() { 2 } else { n };
    let plain = plain || fam.abc();
    // left/right choices only, by the last participant
    let lr = family.ends_with("_lr");
    let forward_only = lr || !fam.enums();
    let mut names: Vec<String> = vec![];
    for i in 0..n {
        if plain {
            names.push(((b'A' + i as u8) as char).to_string());
        } else {
            let mut j = nm[i % nm.len()] as usize;
            while names.iter().any(|x| x == NAMES[j % NAMES.len()]) {
                j += 1;
            }
            names.push(NAMES[j % NAMES.len()].to_string());
        }
    }
    // the monitor takes no part in the protocol
    let m0 = (fam == crate::emit::Fam::Bcast) as usize;
    let timed = fam.timed();
    let wide = style >> 60 & 1 == 1;
    let time = |s: u32| timed.then(|| crate::tspec::TSpec::of(s, wide));
    // a window for each receiver of a choice; those on the same clock share it
    let each = |s: u32| -> Vec<crate::tspec::TSpec> {
        if !timed || s >> 30 == 0 {
            return vec![];
        }
        let mut ts: Vec<crate::tspec::TSpec> = vec![];
        for q in 0..n {
            let h = crate::report::h64(&(s, q));
            let mut t = crate::tspec::TSpec::of(if h & 1 == 0 { s } else { (h >> 8) as u32 }, wide);
            t.reset = crate::tspec::TSpec::of((h >> 20) as u32, wide).reset;
            if let Some(o) = ts.iter().find(|o| o.clock == t.clock) {
                t = crate::tspec::TSpec { reset: t.reset, ..o.clone() };
            }
            ts.push(t);
        }
        ts
    };
    let msg = |m: &RawMsg| {
        let w = n - m0;
        let from = m.0 as usize % w;
        let to = (from + 1 + m.1 as usize % (w - 1)) % w;
        let (from, to) = (from + m0, to + m0);
        Msg { from, to, ty: crate::val::TYPES[m.2 as usize % crate::val::TYPES.len()].to_string(), t: time(m.3) }
    };
    let mut states = states;
    if forward_only {
        states.truncate(3);
    }
    let ns = states.len();
    let sts: Vec<State> = states
        .iter()
        .enumerate()
        .map(|(k, (ch, brs, exit, link))| {
            let mut brs = brs.clone();
            if forward_only {
                while brs.len() < 2 {
                    brs.push((vec![], 0, 0));
                }
                brs.truncate(2);
            }
            let nb = brs.len();
            let forward = |x: u8| {
                let left = ns - k - 1;
                let j = x as usize % (left + 1);
                if j == left {
                    Next::End
                } else {
                    Next::State(k + 1 + j)
                }
            };
            let branches = brs
                .iter()
                .enumerate()
                .map(|(b, (ms, nx, tm))| {
                    let next = if b == *exit as usize % nb || forward_only {
                        forward(*nx)
                    } else {
                        let j = *nx as usize % (ns + 1);
                        if j == ns {
                            Next::End
                        } else {
                            Next::State(j)
                        }
                    };
                    let next = if k + 1 < ns && b == *link as usize % nb { Next::State(k + 1) } else { next };
                    Branch { msgs: ms.iter().map(msg).collect(), next, t: time(*tm), ct: each(*tm) }
                })
                .collect();
            State { chooser: if lr && !fam.three() && !fam.timed() { n - 1 } else { m0 + *ch as usize % (n - m0) }, branches }
        })
        .collect();
    let init = Branch { msgs: init.iter().map(msg).collect(), next: if ns == 0 { Next::End } else { Next::State(0) }, t: time((style >> 20) as u32), ct: each((style >> 20) as u32) };
    let style = if lr { style | 0xff } else { style };
    let mut p = Proto { family: family.into(), names, init, states: sts, style };
    tame(&mut p);
    // left/right choices have one window for all receivers
    let either: Vec<bool> = (0..p.states.len()).map(|k| crate::emit::Emit::new(&p).is_either(k)).collect();
    let shared = |b: &mut Branch| {
        if matches!(b.next, Next::State(k) if either[k]) {
            b.ct.clear();
        }
    };
    shared(&mut p.init);
    p.states.iter_mut().flat_map(|s| &mut s.branches).for_each(shared);
    p
}

/// States from which the protocol can come back to the same state.
pub fn cyclic(p: &Proto) -> Vec<bool> {
    let n = p.states.len();
    let mut reach = vec![vec![false; n]; n];
    for _ in 0..=n {
        for k in 0..n {
            for b in &p.states[k].branches {
                if let Next::State(j) = b.next {
                    reach[k][j] = true;
                    let rj = reach[j].clone();
                    for (x, y) in rj.iter().enumerate() {
                        if *y {
                            reach[k][x] = true;
                        }
                    }
                }
            }
        }
    }
    (0..n).map(|k| reach[k][k]).collect()
}

/// rustc gives up (E0275) proving recursive session types `Send` when, inside the loop, a link carrying
/// the choice has a send followed by further actions. No test or example has that shape; keep at most one
/// message on such a link, or receives only when the chooser of every loop is the same role.
fn tame(p: &mut Proto) {
    let cyc = cyclic(p);
    let choosers: std::collections::HashSet<usize> =
        p.states.iter().zip(&cyc).filter(|(_, c)| **c).map(|(s, _)| s.chooser).collect();
    let st: Vec<usize> = p.states.iter().map(|s| s.chooser).collect();
    for s in p.states.iter_mut() {
        for b in s.branches.iter_mut() {
            let Next::State(k) = b.next else { continue };
            if !cyc[k] {
                continue;
            }
            let c = st[k];
            let n = p.names.len();
            for q in 0..n {
                if q == c {
                    continue;
                }
                let mut seen_any = false;
                let mut seen_up = false;
                let single = choosers.len() > 1;
                b.msgs.retain(|m| {
                    if m.from == c && m.to == q {
                        // towards the receiver of the choice
                        if seen_up || (single && seen_any) {
                            return false;
                        }
                        seen_any = true;
                        true
                    } else if m.from == q && m.to == c {
                        if seen_up || (single && seen_any) {
                            return false;
                        }
                        seen_up = true;
                        seen_any = true;
                        true
                    } else {
                        true
                    }
                });
            }
        }
    }
}

/// Total number of steps of role `r` in the fault-free run.
pub fn script(n: usize, max_picks: usize, faults: (usize, usize), timed: bool) -> impl Strategy<Value = Script> {
    let late = if timed { 3 } else { 0 };
    (
        any::<u64>(),
        prop_oneof![60 => vec(any::<u8>(), 0..=max_picks), 3 => vec(240u8..=255, 20..=80), 1 => vec(240u8..=255, 258..=300)],
        vec(any::<u16>(), 1..48),
        vec(
            (0..n, 0usize..64, prop_oneof![1 => Just(FaultKind::Cancel), 1 => Just(FaultKind::ReturnErr), 1 => Just(FaultKind::ReturnOk), 1 => Just(FaultKind::Panic), 1 => Just(FaultKind::Unwind), late => Just(FaultKind::Late), late => Just(FaultKind::Stall)]),
            faults.0..=faults.1,
        ),
    )
        .prop_map(|(seed, picks, sched, faults)| Script {
            seed,
            picks,
            sched,
            slow: None,
            hurry: None,
            faults: faults.into_iter().map(|(role, step, kind)| Fault { role, step, kind }).collect(),
        })
}

/// Places faults inside the run: step is taken modulo the number of actions of that role.
pub fn place(g: &Prog, s: &Script) -> Script {
    let mut s = s.clone();
    if let Some((r, k, ms)) = s.slow {
        let (i, l) = g.at(r % g.n());
        let v = g.view(&Script { slow: None, ..s.clone() }, i);
        let t = &g.ps[i].traces(v.seed, &v.picks)[l];
        let mut k = k % t.len().max(1);
        if ms % 3 != 0 {
            // before an action somebody waits for
            k = (0..t.len()).map(|d| (k + d) % t.len()).find(|x| matches!(t[*x], Ev::Sent(..) | Ev::Chose(_))).unwrap_or(k);
        }
        s.slow = Some((r % g.n(), k, ms));
    }
    if g.ps.len() > 1 {
        s.faults.clear();
        return s;
    }
    let p = &g.ps[0];
    let t = p.traces(s.seed, &s.picks);
    if p.monitored() {
        s.faults.truncate(1);
        s.slow = s.slow.map(|x| (x.0.max(1), x.1, x.2));
    }
    let mut hurry = None;
    for f in &mut s.faults {
        if p.monitored() {
            f.role = 1 + f.role % (p.n() - 1);
            if f.kind != FaultKind::Unwind {
                f.kind = FaultKind::Cancel;
            }
        }
        f.step %= t[f.role].len().max(1);
        if f.kind == FaultKind::ReturnOk && !crate::emit::fam(&p.family).binary() {
            f.kind = FaultKind::ReturnErr;
        }
        if f.kind == FaultKind::Stall {
            // before a message, whose receiver gets there in a hurry
            let own = &t[f.role];
            let k = (0..own.len()).map(|d| (f.step + d) % own.len()).find(|x| matches!(own[*x], Ev::Sent(..)));
            match (k, crate::emit::fam(&p.family).timed()) {
                (Some(k), true) => {
                    f.step = k;
                    if let Ev::Sent(to, _) = &own[k] {
                        let j = own[..k].iter().filter(|e| matches!(e, Ev::Sent(x, _) if x == to) || matches!(e, Ev::Chose(_))).count();
                        let from = |e: &Ev| matches!(e, Ev::Got(x, _) | Ev::Offered(x, _) if *x == f.role);
                        hurry = (0..t[*to].len()).filter(|i| from(&t[*to][*i])).nth(j).map(|i| (*to, i));
                    }
                }
                _ => f.kind = FaultKind::ReturnErr,
            }
        }
        if f.kind == FaultKind::Late && !crate::emit::fam(&p.family).timed() {
            f.kind = FaultKind::ReturnErr;
        }
    }
    s.hurry = hurry;
    s
}

/// Every window of a timed protocol stays open for minutes (or the protocol is not timed).
pub fn wide(g: &Prog) -> bool {
    g.ps.iter().all(wide_one)
}

fn wide_one(p: &Proto) -> bool {
    let ok = |t: &Option<crate::tspec::TSpec>| t.as_ref().map_or(true, |t| t.admitted().1 - t.admitted().0 >= 150);
    let br = |b: &Branch| ok(&b.t) && b.ct.iter().all(|t| ok(&Some(t.clone()))) && b.msgs.iter().all(|m| ok(&m.t));
    br(&p.init) && p.states.iter().all(|s| s.branches.iter().all(br))
}
