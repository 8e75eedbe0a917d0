//! C20 and C21: timed binary actions over generated windows and clock states.
use either::Either;
use mpstthree::binary::struct_trait::{end::End, session::Session};
use mpstthree::binary_atmp::choose::{choose_left, choose_right, ChooseTimed};
use mpstthree::binary_atmp::offer::offer_either;
use mpstthree::binary_atmp::recv::recv;
use mpstthree::binary_atmp::send::{send, send_without_reset};
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use vlib::report::Report;
use vlib::tspec::TSpec;

type Clocks = HashMap<char, Instant>;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Peer {
    /// acted before: the message is there (receiving side); alive and listening (sending side)
    Ready,
    /// gone before the action
    Gone,
    /// alive but never acts
    Silent,
    /// acts this many milliseconds after the call
    Late(u16),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum What {
    Send,
    SendNoReset,
    Recv,
    ChooseLeft,
    ChooseRight,
    ChooseMacroLeft,
    ChooseMacroRight,
    OfferLeft,
    OfferRight,
    OfferMacro,
}

pub struct Outcome {
    pub ok: bool,
    /// when a late peer was about to send
    pub sent: Option<Instant>,
    pub how: String,
    /// the peer got exactly this (sending side) / the action returned this (receiving side)
    pub got: Option<u64>,
    /// continuation endpoints are connected
    pub cont: Result<(), String>,
    pub t0: Instant,
    pub t1: Instant,
}

pub struct Entry {
    pub spec: &'static str,
    pub run: fn(What, Peer, u64, &mut Clocks) -> Outcome,
}

fn done<T>(r: std::thread::Result<Result<T, Box<dyn std::error::Error>>>) -> Result<T, String> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {}", vlib::drive::panic_text(&p))),
    }
}

type Sn = SendTimed<u64, 'z', 0, true, 3600, true, ' ', End>;
type Rc = <Sn as Session>::Dual;

/// After the action both sides go on: one more timed message each in its own wide window.
fn connected(a: Sn, b: Rc, v: u64) -> Result<(), String> {
    let mut cl = Clocks::new();
    cl.insert('z', Instant::now());
    let e = done(catch_unwind(AssertUnwindSafe(|| send(v, &mut cl, a)))).map_err(|e| format!("sending on the continuation: {e}"))?;
    let (w, f) = done(catch_unwind(AssertUnwindSafe(|| recv(&mut cl, b)))).map_err(|e| format!("receiving on the continuation: {e}"))?;
    if w != v {
        return Err(format!("continuation delivered {w} for {v}"));
    }
    let h = std::thread::spawn(move || mpstthree::binary::close::close(e).is_ok());
    let r = mpstthree::binary::close::close(f).is_ok();
    if !h.join().unwrap_or(false) || !r {
        return Err("closing the continuation failed".into());
    }
    Ok(())
}

pub fn run<const C: char, const A: i128, const AI: bool, const B: i128, const BI: bool, const R: char>(
    what: What,
    peer: Peer,
    val: u64,
    clocks: &mut Clocks,
) -> Outcome {
    let t0;
    let t1;
    let mut sent = None;
    match what {
        What::Send | What::SendNoReset => {
            let (s, r) = SendTimed::<u64, C, A, AI, B, BI, R, Sn>::new();
            let mut r = Some(r);
            if peer == Peer::Gone {
                r = None;
            }
            t0 = Instant::now();
            let res = catch_unwind(AssertUnwindSafe(|| {
                if what == What::Send {
                    send(val, clocks, s)
                } else {
                    send_without_reset(val, clocks, s)
                }
            }));
            t1 = Instant::now();
            let res = done(res);
            let got = r.as_ref().and_then(|r| r.channel.try_recv().ok());
            let (ok, how) = match &res {
                Ok(_) => (true, String::new()),
                Err(e) => (false, e.clone()),
            };
            let (got, cont) = match (res, got) {
                (Ok(a), Some((v, b))) => (Some(v), connected(a, b, val ^ 5)),
                (Ok(_), None) => (None, Err("nothing was delivered".into())),
                (Err(_), g) => (g.map(|g| g.0), Ok(())),
            };
            Outcome { ok, sent, how, got, cont, t0, t1 }
        }
        What::Recv => {
            let (r, s) = RecvTimed::<u64, C, A, AI, B, BI, R, Sn>::new();
            let (here, there) = <Sn as Session>::new();
            let mut keep = None;
            let mut late = None;
            match peer {
                Peer::Ready => {
                    let _ = s.channel.send((val, here));
                }
                Peer::Gone => drop(s),
                Peer::Silent => keep = Some(s),
                Peer::Late(ms) => {
                    late = Some(std::thread::spawn(move || {
                        std::thread::sleep(Duration::from_millis(ms as u64));
                        let now = Instant::now();
                        let _ = s.channel.send((val, here));
                        now
                    }));
                }
            }
            t0 = Instant::now();
            let res = catch_unwind(AssertUnwindSafe(|| recv(clocks, r)));
            t1 = Instant::now();
            drop(keep);
            if let Some(h) = late {
                sent = h.join().ok();
            }
            let res = done(res);
            let (ok, how, got, cont) = match res {
                Ok((v, c)) => (true, String::new(), Some(v), connected(c, there, val ^ 5)),
                Err(e) => (false, e, None, Ok(())),
            };
            Outcome { ok, sent, how, got, cont, t0, t1 }
        }
        What::ChooseLeft | What::ChooseRight | What::ChooseMacroLeft | What::ChooseMacroRight => {
            // left continues with a timed send, right with a timed receive
            let (s, r) = ChooseTimed::<Sn, Rc, C, A, AI, B, BI, R>::new();
            let mut r = Some(r);
            if peer == Peer::Gone {
                r = None;
            }
            let left = matches!(what, What::ChooseLeft | What::ChooseMacroLeft);
            let whole = matches!(what, What::ChooseMacroLeft | What::ChooseMacroRight);
            t0 = Instant::now();
            let res = catch_unwind(AssertUnwindSafe(|| {
                if whole && left {
                    Ok(Either::Left(mpstthree::choose_atmp!(Either::Left, clocks, s)))
                } else if whole {
                    Ok(Either::Right(mpstthree::choose_atmp!(Either::Right, clocks, s)))
                } else if left {
                    choose_left::<Sn, Rc, C, A, AI, B, BI, R>(clocks, s).map(Either::Left)
                } else {
                    choose_right::<Sn, Rc, C, A, AI, B, BI, R>(clocks, s).map(Either::Right)
                }
            }));
            t1 = Instant::now();
            let res = done(res);
            let got = r.as_ref().and_then(|r| r.channel.try_recv().ok());
            let (ok, how) = match &res {
                Ok(_) => (true, String::new()),
                Err(e) => (false, e.clone()),
            };
            let side = |e: &Either<Rc, Sn>| if e.is_left() { 0 } else { 1 };
            let (got, cont) = match (res, got) {
                (Ok(a), Some((b, _))) => {
                    let g = side(&b);
                    let c = match (a, b) {
                        (Either::Left(a), Either::Left(b)) => connected(a, b, val),
                        (Either::Right(b), Either::Right(a)) => connected(a, b, val),
                        _ => Err("the two sides took different branches".into()),
                    };
                    (Some(g), c)
                }
                (Ok(_), None) => (None, Err("nothing was delivered".into())),
                (Err(_), g) => (g.map(|g| side(&g.0)), Ok(())),
            };
            Outcome { ok, sent, how, got, cont, t0, t1 }
        }
        What::OfferLeft | What::OfferRight | What::OfferMacro => {
            let (s, r) = ChooseTimed::<Sn, Rc, C, A, AI, B, BI, R>::new();
            let left = what == What::OfferLeft || (what == What::OfferMacro && val % 2 == 0);
            let (ls, lr) = <Sn as Session>::new();
            let (rs, rr) = <Rc as Session>::new();
            let (e1, _e2) = End::new();
            let payload: Either<Rc, Sn> = if left { Either::Left(lr) } else { Either::Right(rr) };
            let mut keep = None;
            let mut late = None;
            match peer {
                Peer::Ready => {
                    let _ = s.channel.send((payload, e1));
                }
                Peer::Gone => drop(s),
                Peer::Silent => keep = Some(s),
                Peer::Late(ms) => {
                    late = Some(std::thread::spawn(move || {
                        std::thread::sleep(Duration::from_millis(ms as u64));
                        let now = Instant::now();
                        let _ = s.channel.send((payload, e1));
                        now
                    }));
                }
            }
            t0 = Instant::now();
            let res = catch_unwind(AssertUnwindSafe(|| -> Result<Either<Rc, Sn>, Box<dyn std::error::Error>> {
                if what == What::OfferMacro {
                    mpstthree::offer_atmp!(clocks, r, {
                        Either::Left(x) => Ok(Either::Left(x)),
                        Either::Right(x) => Ok(Either::Right(x)),
                    })
                } else {
                    offer_either(clocks, r, |_: &mut Clocks, x: Rc| Ok(Either::Left(x)), |_: &mut Clocks, x: Sn| Ok(Either::Right(x)))
                }
            }));
            t1 = Instant::now();
            drop(keep);
            if let Some(h) = late {
                sent = h.join().ok();
            }
            let (ok, how, got, cont) = match done(res) {
                Ok(Either::Left(b)) => (true, String::new(), Some(0), if left { connected(ls, b, val) } else { Err("entered the other branch".into()) }),
                Ok(Either::Right(a)) => (true, String::new(), Some(1), if left { Err("entered the other branch".into()) } else { connected(a, rs, val) }),
                Err(e) => (false, e, None, Ok(())),
            };
            Outcome { ok, sent, how, got, cont, t0, t1 }
        }
    }
}

/// One evaluation of an action: which entry, what, peer, clock ages.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub spec: TSpec,
    pub what: What,
    pub peer: Peer,
    pub val: u64,
    /// ages in milliseconds of the clocks that exist
    pub ages: Vec<(char, u64)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    Accept,
    Refuse,
    Malformed,
    /// well-formed window with a lower bound and no upper bound
    OpenEnded,
    /// neither bound exists and their order is meaningless: both outcomes are fine
    Any,
}

fn window(s: &TSpec, secs: Option<u64>) -> Verdict {
    if s.start < 0 && s.end < 0 {
        if s.incs || s.ince {
            return Verdict::Malformed;
        }
        if s.start > s.end {
            return Verdict::Any;
        }
        return Verdict::Accept;
    }
    if s.start >= 0 && s.end >= 0 && s.start > s.end {
        return Verdict::Malformed;
    }
    let Some(e) = secs else { return Verdict::Refuse };
    let e = e as i128;
    let lo = s.start < 0 || if s.incs { s.start <= e } else { s.start < e };
    let hi = s.end < 0 || if s.ince { e <= s.end } else { e < s.end };
    if !(lo && hi) {
        Verdict::Refuse
    } else if s.end < 0 {
        Verdict::OpenEnded
    } else {
        Verdict::Accept
    }
}

pub enum Bad {
    Wrong(String),
    Known(&'static str),
}

fn sending(w: What) -> bool {
    matches!(w, What::Send | What::SendNoReset | What::ChooseLeft | What::ChooseRight | What::ChooseMacroLeft | What::ChooseMacroRight)
}

pub const SIG_SEND: &str = "open-ended window refused by send";
pub const SIG_RECV: &str = "open-ended window refused by receive";

/// `c21`: judge the clocks, otherwise the window, the delivery and the waiting.
pub fn one(e: &Entry, c: &Case, c21: bool) -> Result<&'static str, Bad> {
    let wrong = |s: String| Err(Bad::Wrong(s));
    let now = Instant::now();
    let mut clocks = Clocks::new();
    for (k, ms) in &c.ages {
        if let Some(t) = now.checked_sub(Duration::from_millis(*ms)) {
            clocks.insert(*k, t);
        }
    }
    let before = clocks.clone();
    let o = (e.run)(c.what, c.peer, c.val, &mut clocks);
    let s = &c.spec;
    let age = |t: Instant| before.get(&s.clock).map(|b| t.duration_since(*b));
    let (v0, v1) = (window(s, age(o.t0).map(|d| d.as_secs())), window(s, age(o.t1).map(|d| d.as_secs())));
    let reset_missing = s.reset != ' ' && c.what != What::SendNoReset && !before.contains_key(&s.reset);
    let tag = format!("{:?} window {} clock ages {:?} (ms), peer {:?}", c.what, s.show(), c.ages, c.peer);
    if c21 {
        // exactly the declared clock moves, and only on success
        let mut want = before.clone();
        if o.ok && s.reset != ' ' && c.what != What::SendNoReset {
            match clocks.get(&s.reset) {
                Some(t) if *t >= o.sent.unwrap_or(o.t0) && *t >= o.t0 && *t <= o.t1 && before.contains_key(&s.reset) => {
                    want.insert(s.reset, *t);
                }
                Some(_) => return wrong(format!("{tag}: succeeded but the clock {:?} was not set to the present", s.reset)),
                None => return wrong(format!("{tag}: succeeded but the clock {:?} does not exist", s.reset)),
            }
        }
        if o.ok && s.clock != ' ' && !before.contains_key(&s.clock) && !(s.start < 0 && s.end < 0) {
            return wrong(format!("{tag}: succeeded although its clock does not exist"));
        }
        if clocks != want {
            let diff: Vec<char> = want.keys().chain(clocks.keys()).copied().filter(|k| want.get(k) != clocks.get(k)).collect();
            return wrong(format!("{tag}: {} and changed the clocks {diff:?}", if o.ok { "succeeded" } else { "failed" }));
        }
        return Ok(match (o.ok, s.reset != ' ') {
            (true, true) => "succeeded with reset",
            (true, false) => "succeeded without reset",
            (false, true) => "failed, reset declared",
            (false, false) => "failed",
        });
    }
    if o.ok {
        let fine = |v| matches!(v, Verdict::Accept | Verdict::OpenEnded | Verdict::Any);
        if !fine(v0) && !fine(v1) {
            // a receive that waited is judged by the moment it started
            return wrong(format!("{tag}: succeeded outside its window ({:?})", v0));
        }
        match o.got {
            Some(v) => {
                let want = match c.what {
                    What::Send | What::SendNoReset | What::Recv => c.val,
                    What::ChooseLeft | What::ChooseMacroLeft | What::OfferLeft => 0,
                    What::ChooseRight | What::ChooseMacroRight | What::OfferRight => 1,
                    What::OfferMacro => c.val % 2,
                };
                if v != want {
                    return wrong(format!("{tag}: delivered {v}, expected {want}"));
                }
            }
            None => return wrong(format!("{tag}: succeeded but delivered nothing")),
        }
        if let Err(w) = &o.cont {
            return wrong(format!("{tag}: {w}"));
        }
        match (sending(c.what), c.peer) {
            (true, Peer::Gone) => return wrong(format!("{tag}: sending to a vanished peer succeeded")),
            (false, Peer::Gone | Peer::Silent) => return wrong(format!("{tag}: received from a peer that sent nothing")),
            _ => {}
        }
        return Ok("inside the window");
    }
    // it failed
    if sending(c.what) && o.got.is_some() && !reset_missing {
        return wrong(format!("{tag}: failed ({}) but delivered {:?}", o.how, o.got));
    }
    let waited = o.t1.duration_since(o.t0);
    let limit = if s.end >= 0 && s.end < 1_000_000 { age(o.t0).map(|a| Duration::from_secs(s.end as u64 + 1).saturating_sub(a)) } else { None };
    let must_succeed = v0 == v1 && (v0 == Verdict::Accept || v0 == Verdict::OpenEnded) && !reset_missing;
    match c.peer {
        Peer::Ready if must_succeed => {
            if v0 == Verdict::OpenEnded {
                return Err(Bad::Known(if sending(c.what) { SIG_SEND } else { SIG_RECV }));
            }
            return wrong(format!("{tag}: failed inside its window: {}", o.how));
        }
        Peer::Late(ms) if v0 == Verdict::Accept && !sending(c.what) && !reset_missing => {
            // the message arrived well before the window closed
            let left = age(o.t0).map(|a| Duration::from_secs(s.end.clamp(0, 1_000_000) as u64).saturating_sub(a));
            if let Some(left) = left {
                if s.end >= 0 && left > Duration::from_millis(ms as u64 + 250) && waited < left {
                    return wrong(format!("{tag}: gave up ({}) after {waited:?}, {left:?} before the window closes", o.how));
                }
            }
        }
        _ => {}
    }
    if !sending(c.what) {
        if let Some(l) = limit {
            if waited > l + Duration::from_millis(400) {
                return wrong(format!("{tag}: waited {waited:?}, the window closed after at most {l:?}"));
            }
        }
    }
    Ok(match v0 {
        Verdict::Malformed => "malformed bounds refused",
        _ if !before.contains_key(&s.clock) && !(s.start < 0 && s.end < 0) => "missing clock refused",
        _ if c.peer == Peer::Silent || matches!(c.peer, Peer::Late(_)) => "waited until the window closed",
        _ if c.peer == Peer::Gone => "peer gone",
        _ => "outside the window",
    })
}

fn ages(spec: &TSpec) -> impl Strategy<Value = Vec<(char, u64)>> {
    // ages cluster around the bounds of the window
    let mut pts: Vec<i128> = vec![0];
    for b in [spec.start, spec.end] {
        if (0..=200_000).contains(&b) {
            pts.extend([b - 1, b, b, b + 1]);
        }
    }
    pts.push(spec.start.max(0).min(200_000) / 2 + spec.end.max(0).min(200_000) / 2);
    let pts: Vec<u64> = pts.into_iter().filter(|x| *x >= 0).map(|x| x as u64).collect();
    let k = spec.clock;
    let rs = spec.reset;
    let age = (proptest::sample::select(pts), prop_oneof![Just(30u64), Just(300), Just(500), Just(700), 0u64..960]).prop_map(|(s, f)| s * 1000 + f);
    (prop_oneof![9 => Just((true, true)), 1 => Just((false, true)), 1 => Just((true, false))], age, 0u64..9000, vec((proptest::sample::select(vec!['a', 'b', 'c', 'd']), 0u64..9000), 0..4)).prop_map(
        move |((has, has_reset), a, ra, others)| {
            let mut v: Vec<(char, u64)> = vec![];
            if has && k != ' ' {
                v.push((k, a));
            }
            if has_reset && rs != ' ' && rs != k {
                v.push((rs, ra));
            }
            for (c, a) in others {
                if c != k && c != rs && !v.iter().any(|x| x.0 == c) {
                    v.push((c, a));
                }
            }
            v
        },
    )
}

fn case(spec: &TSpec, quick_only: bool) -> impl Strategy<Value = Case> {
    let sp = spec.clone();
    let what = proptest::sample::select(vec![
        What::Send,
        What::Send,
        What::Recv,
        What::Recv,
        What::SendNoReset,
        What::ChooseLeft,
        What::ChooseRight,
        What::ChooseMacroLeft,
        What::ChooseMacroRight,
        What::OfferLeft,
        What::OfferRight,
        What::OfferMacro,
    ]);
    let peer = if quick_only {
        prop_oneof![6 => Just(Peer::Ready), 1 => Just(Peer::Gone)].boxed()
    } else {
        prop_oneof![Just(Peer::Silent), (20u16..500).prop_map(Peer::Late)].boxed()
    };
    (what, peer, any::<u64>(), ages(spec)).prop_map(move |(what, peer, val, ages)| Case { spec: sp.clone(), what, peer, val, ages })
}

/// Cases that wait: a receive whose window closes soon.
fn waiting(spec: &TSpec) -> impl Strategy<Value = Case> {
    let sp = spec.clone();
    let what = proptest::sample::select(vec![What::Recv, What::Recv, What::OfferLeft, What::OfferRight, What::OfferMacro]);
    let peer = prop_oneof![Just(Peer::Silent), (20u16..600).prop_map(Peer::Late)];
    (what, peer, any::<u64>(), 60u64..950, any::<bool>()).prop_map(move |(what, peer, val, left, second)| {
        let left = if second { left + 400 } else { left };
        let age = (sp.end.max(0) as u64 * 1000).saturating_sub(left);
        Case { spec: sp.clone(), what, peer, val, ages: vec![(sp.clock, age), ('d', 4000), ('e', 10)] }
    })
}

pub fn main(id: &'static str, entries: Vec<Entry>) -> ! {
    vlib::suite::quiet_panics();
    let c21 = id == "C21";
    let mut rep = Report::new(
        id,
        if c21 {
            "an action over at least two existing clocks, or with a declared reset; distinct by window, clock ages, action and peer"
        } else {
            "an action whose window was evaluated against an existing clock; distinct by window, clock ages, action and peer"
        },
    );
    vlib::watch::start(id, rep.seed, 30, 150);
    let es: Vec<(TSpec, Entry)> = entries.into_iter().map(|e| (serde_json::from_str(e.spec).unwrap(), e)).collect();
    if let Ok(f) = std::env::var("VERIF_REPLAY") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).unwrap();
        let c: Case = serde_json::from_value(v["case"]["input"].clone()).unwrap();
        for _ in 0..3 {
            rep.eval();
            if let Err(Bad::Wrong(w)) = one(&es[0].1, &c, c21) {
                rep.violation(&w, v["case"].clone());
            }
        }
        println!("{id}: replay passed");
        std::process::exit(0);
    }
    let nontrivial = move |c: &Case| {
        if c21 {
            c.ages.len() > 1 || c.spec.reset != ' '
        } else {
            c.ages.iter().any(|a| a.0 == c.spec.clock)
        }
    };
    let per = rep.n(240, 1600);
    for (i, (sp, e)) in es.iter().enumerate() {
        vlib::pbt::check(&mut rep, &format!("w{i}"), per, case(sp, true), |c, rep| {
            // a verdict that depends on the machine stalling would not repeat
            let mut last = String::new();
            for _ in 0..3 {
                match one(e, c, c21) {
                    Ok(class) => {
                        rep.class(class);
                        rep.class(&format!("{:?}", c.what));
                        if nontrivial(c) {
                            rep.nontrivial(&format!("{c:?}"), || serde_json::json!(c));
                        }
                        return Ok(());
                    }
                    Err(Bad::Known(sig)) => {
                        if rep.known(sig) {
                            rep.class("known finding");
                            return Ok(());
                        }
                        return Err(format!("{sig}: {c:?}"));
                    }
                    Err(Bad::Wrong(w)) => last = w,
                }
            }
            Err(last)
        });
    }
    // waits, many at a time
    let total = rep.n(1200, 12000) as usize;
    let able: Vec<usize> = (0..es.len()).filter(|i| {
        let s = &es[*i].0;
        s.end > 0 && s.end < 100_000 && (s.start < 0 || s.start < s.end - 1) && s.clock != 'd' && s.clock != 'e'
    }).collect();
    let mut cases: Vec<(usize, Case)> = vec![];
    if !able.is_empty() {
        use proptest::strategy::ValueTree;
        let mut run = vlib::pbt::runner(rep.seed, &format!("{id}/waits"), 1, 0);
        for k in 0..total {
            let i = able[k % able.len()];
            cases.push((i, waiting(&es[i].0).new_tree(&mut run).unwrap().current()));
        }
    }
    for chunk in cases.chunks(150) {
        vlib::watch::tick();
        let out: Vec<Result<&'static str, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = chunk
                .iter()
                .map(|(i, c)| {
                    let e = &es[*i].1;
                    sc.spawn(move || {
                        let mut last = String::new();
                        for _ in 0..4 {
                            match one(e, c, c21) {
                                Ok(x) => return Ok(x),
                                Err(Bad::Known(s)) => return Err(s.to_string()),
                                Err(Bad::Wrong(w)) => last = w,
                            }
                        }
                        Err(last)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Err("internal: panicked".into()))).collect()
        });
        for ((_, c), r) in chunk.iter().zip(out) {
            rep.eval();
            match r {
                Ok(class) => {
                    rep.class(&format!("receive with open outcome: {class}"));
                    if nontrivial(c) {
                        rep.nontrivial(&format!("{c:?}"), || serde_json::json!(c));
                    }
                }
                Err(w) => rep.violation(&w, serde_json::json!({"check": "waits", "input": c})),
            }
        }
    }
    rep.extra.insert("windows".into(), serde_json::json!(es.len()));
    rep.finish()
}
