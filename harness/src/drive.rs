//! Runs a generated program against the reference semantics of its protocol.
use crate::act::*;
use crate::ir::*;
use crate::tspec::TSpec;
use std::collections::{HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

/// How a family reports failures.
#[derive(Clone, Copy, Debug)]
pub struct Sem {
    /// sending to a participant that is gone fails (otherwise it succeeds silently)
    pub send_aware: bool,
    /// a failing receive/offer panics instead of returning an error
    pub recv_panics: bool,
    /// a failing close may panic instead of returning an error
    pub close_panics: bool,
    /// participant 0 spreads the cancellations of the others
    pub monitored: bool,
}

/// Moves the clocks of a timed action into their windows, as waiting would, and makes the clocks it resets exist.
fn set_clocks(ts: &[TSpec], env: &mut Env) {
    for t in ts {
        if t.reset != ' ' {
            env.clocks.entry(t.reset).or_insert_with(Instant::now);
        }
    }
    for t in ts {
        let now = Instant::now();
        let (lo, hi) = t.admitted();
        let age = env.clocks.get(&t.clock).map(|c| c.elapsed());
        let margin = Duration::from_millis(if hi - lo >= 150 { 60_000 } else { 400 });
        // keep a clock already well inside the window
        let keep = age.is_some_and(|a| a.as_secs() as i128 >= lo && (a + margin).as_secs() as i128 <= hi);
        if !keep {
            let extra = Duration::from_millis(20 + (lo as u64 * 37 + hi as u64 % 13 * 41) % 500);
            env.clocks.insert(t.clock, now - Duration::from_secs(lo as u64) - extra);
        }
    }
}

/// Moves the clock of a timed action out of its window, where `h` says. Returns false when it cannot be missed.
fn miss(t: &TSpec, h: u64, env: &mut Env) -> bool {
    if t.open() {
        return false;
    }
    let now = Instant::now();
    let (lo, hi) = t.admitted();
    if h % 4 == 0 || (hi == i128::MAX && lo == 0) {
        env.clocks.remove(&t.clock);
    } else if hi == i128::MAX || (h % 4 == 1 && lo > 0) {
        env.clocks.insert(t.clock, now - Duration::from_secs(lo as u64 - 1));
    } else {
        let extra = Duration::from_millis(h % 2500);
        env.clocks.insert(t.clock, now - Duration::from_secs(hi as u64 + 1) - extra);
    }
    true
}

/// Leaves little time before the window closes.
fn hasten(t: &TSpec, env: &mut Env) {
    let (_, hi) = t.admitted();
    if hi < i128::MAX {
        env.clocks.insert(t.clock, Instant::now() - Duration::from_secs(hi as u64) - Duration::from_millis(400));
    }
}

fn met(ts: &[TSpec], clocks: &HashMap<char, Instant>) -> bool {
    ts.iter().all(|t| {
        let (lo, hi) = t.admitted();
        clocks.get(&t.clock).is_some_and(|c| {
            let a = c.elapsed().as_secs() as i128;
            lo <= a && a <= hi
        })
    })
}

/// After a successful timed action: exactly the declared clocks were set to the present.
fn clocks_after(ts: &[TSpec], before: &HashMap<char, Instant>, t0: Instant, env: &Env) -> Result<(), String> {
    let t1 = Instant::now();
    for c in ['a', 'b', 'c'] {
        let (b, a) = (before.get(&c), env.clocks.get(&c));
        if ts.iter().any(|t| t.reset == c) {
            if !a.is_some_and(|a| *a >= t0 && *a <= t1) {
                return Err(format!("clock {c:?} was not reset"));
            }
        } else if a != b {
            return Err(format!("clock {c:?} was changed"));
        }
    }
    Ok(())
}

enum Item {
    Val(String),
    Pick(usize),
    /// the choice failed while it was being announced
    Maybe(usize),
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub steps: usize,
    pub choices: usize,
    pub max_pending: usize,
    pub switches: usize,
    pub faulted: usize,
    pub failed: usize,
    pub in_flight_at_fault: usize,
    pub late: usize,
    pub resets: usize,
}

/// The monitor of a program, on a thread of its own.
struct Monitor {
    h: std::cell::RefCell<Option<std::thread::JoinHandle<Result<(), String>>>>,
    tid: u32,
}

impl Monitor {
    fn start(a: Act) -> Monitor {
        let (tx, rx) = mpsc::channel();
        let h = std::thread::spawn(move || {
            let tid = crate::watch::spinner();
            let _ = tx.send(tid);
            let r = run(a, Cmd::Run { val: 0, pick: 0 }, &mut Env::default());
            crate::watch::spun(tid);
            match r {
                Ok(Ok(_)) => Ok(()),
                Ok(Err(e)) | Err(e) => Err(e),
            }
        });
        Monitor { h: std::cell::RefCell::new(Some(h)), tid: rx.recv().unwrap_or(0) }
    }
    fn done(&self) -> bool {
        self.h.borrow().as_ref().is_some_and(|h| h.is_finished())
    }
    /// Lets the monitor look at every session many times.
    fn settle(&self) {
        let t0 = crate::watch::cpu(self.tid);
        let w0 = Instant::now();
        while !self.done() && crate::watch::cpu(self.tid).saturating_sub(t0) < 3_000_000 && w0.elapsed().as_secs() < 20 {
            std::thread::yield_now();
        }
    }
    fn join(&self) -> Result<(), String> {
        let h = self.h.borrow_mut().take();
        let r = h.expect("joined once").join().unwrap_or_else(|p| Err(panic_text(&p)));
        crate::watch::tick();
        r
    }
}

fn run(a: Act, c: Cmd, env: &mut Env) -> Result<Result<Step, String>, String> {
    // Outer Err = panicked, inner Err = returned an error
    match catch_unwind(AssertUnwindSafe(|| (a.go)(c, env).map_err(|e| e.to_string()))) {
        Ok(r) => Ok(r),
        Err(p) => Err(panic_text(&p)),
    }
}

/// Cancels the session of a participant when the thread unwinds.
struct Guard<'a>(Option<Act>, &'a mut Env);
impl Drop for Guard<'_> {
    fn drop(&mut self) {
        if let Some(a) = self.0.take() {
            let _ = run(a, Cmd::Cancel, self.1);
        }
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

pub fn collect(g: &Prog, start: Start) -> Result<Vec<Act>, String> {
    let (tx, rx) = mpsc::channel();
    let threads = g.threads();
    let bodies: Vec<Body> = (0..threads.len())
        .map(|t| {
            let tx = tx.clone();
            Box::new(move |a: Vec<Act>| -> Result<(), Box<dyn std::error::Error>> {
                tx.send((t, a)).unwrap();
                Ok(())
            }) as Body
        })
        .collect();
    drop(tx);
    let hs = start(bodies);
    if hs.len() != threads.len() {
        return Err(format!("forking {} threads gave {} handles", threads.len(), hs.len()));
    }
    for (t, h) in hs.into_iter().enumerate() {
        if h.join().is_err() {
            return Err(format!("thread {t} returned Ok but did not join Ok"));
        }
    }
    let mut acts: Vec<Option<Act>> = (0..g.n()).map(|_| None).collect();
    while let Ok((t, a)) = rx.try_recv() {
        for (r, x) in threads[t].iter().zip(a) {
            acts[*r] = Some(x);
        }
    }
    acts.into_iter()
        .enumerate()
        .map(|(r, a)| a.ok_or_else(|| format!("participant {r} was never run")))
        .collect()
}

fn tokens() -> (i64, i64) {
    let g = |x: &std::sync::atomic::AtomicI64| x.load(std::sync::atomic::Ordering::SeqCst);
    (g(&crate::val::TOK_MADE), g(&crate::val::TOK_DROPPED))
}

fn balanced(before: (i64, i64)) -> Result<(), String> {
    let now = tokens();
    let (made, dropped) = (now.0 - before.0, now.1 - before.1);
    if made != dropped {
        return Err(format!("{made} tracked payloads were created but {dropped} were dropped"));
    }
    Ok(())
}

/// One run under a schedule fully owned by the harness.
pub fn solo(g: &Prog, e: &Entry, s: &Script, sem: Sem) -> Result<Stats, String> {
    let before = tokens();
    let acts = collect(g, e.start)?;
    let st = play(g, acts, s, sem, e.close)?;
    balanced(before)?;
    Ok(st)
}

/// As `solo`, inside the only thread of the program.
pub fn inside(g: &Prog, e: &Entry, s: &Script, sem: Sem) -> Result<Stats, String> {
    let before = tokens();
    let out: Arc<Mutex<Option<Result<Stats, String>>>> = Arc::new(Mutex::new(None));
    let (o, gg, ss, close) = (out.clone(), g.clone(), s.clone(), e.close);
    let fails = s.seed % 3 == 0;
    let body: Body = Box::new(move |a: Vec<Act>| {
        *o.lock().unwrap() = Some(play(&gg, a, &ss, sem, close));
        if fails {
            Err("injected".into())
        } else {
            Ok(())
        }
    });
    let ok: Vec<bool> = (e.start)(vec![body]).into_iter().map(|h| h.join().is_ok()).collect();
    if ok != [!fails] {
        return Err(format!("the body returned {} but the fork reported {ok:?}", if fails { "an error" } else { "Ok" }));
    }
    let r = out.lock().unwrap().take();
    let st = r.ok_or("the body was never run")??;
    balanced(before)?;
    Ok(st)
}

fn play(g: &Prog, acts: Vec<Act>, s: &Script, sem: Sem, close: Option<CloseAll>) -> Result<Stats, String> {
    let n = g.n();
    let mut st = Stats::default();
    let mut acts: Vec<Option<Act>> = acts.into_iter().map(Some).collect();
    let mut env: Vec<Env> = (0..n).map(|_| Env::default()).collect();
    let mut pos = vec![Pos { seg: None, idx: 0 }; n];
    let mut alive = vec![true; n];
    let mut nchoice = vec![0usize; n];
    let mut nstep = vec![0usize; n];
    let mut q: Vec<Vec<VecDeque<Item>>> = (0..n).map(|_| (0..n).map(|_| VecDeque::new()).collect()).collect();
    let views: Vec<Script> = (0..g.ps.len()).map(|i| g.view(s, i)).collect();
    // next action of a participant, with participants numbered over the whole program
    let action = |r: usize, pos: &Pos| -> (Kind, usize) {
        let (i, l) = g.at(r);
        let b = g.base(i);
        let (k, m) = g.ps[i].action(l, pos);
        let k = match k {
            Kind::Send { to, ty } => Kind::Send { to: to + b, ty },
            Kind::Recv { from, ty } => Kind::Recv { from: from + b, ty },
            Kind::Offer { state, from } => Kind::Offer { state, from: from + b },
            k => k,
        };
        (k, m)
    };
    let mates = |r: usize| -> Vec<usize> { (0..n).filter(|o| *o != r && g.at(*o).0 == g.at(r).0).collect() };
    let mut monitor = if sem.monitored { Some(Monitor::start(acts[0].take().expect("monitor"))) } else { None };
    // who cancelled, when in terms of choices; the monitor has stopped; its announcement reached everybody
    let mut cancelled: Option<(usize, usize)> = None;
    let mut stopped = false;
    // nobody was between two branches when the cancellation was sent
    let mut settled = false;
    let mut spread = false;
    let mut last = usize::MAX;
    let mut t = 0usize;
    loop {
        if let (Some((who, cn)), true) = (cancelled, monitor.is_some()) {
            // the session over which the cancellation travels is handed over with the choice
            let rest: Vec<usize> = (1..n).filter(|r| alive[*r]).collect();
            if rest.iter().all(|r| nchoice[*r] >= cn) {
                let m = monitor.take().unwrap();
                m.settle();
                spread = settled;
                if m.join().is_ok() {
                    return Err(format!("the monitor completed successfully although {} cancelled", g.name(who)));
                }
                alive[0] = false;
                stopped = true;
            }
        }
        let mut en = vec![];
        for r in 0..n {
            if !alive[r] {
                continue;
            }
            let (k, _) = action(r, &pos[r]);
            let fault_here = s.faults.iter().any(|f| f.role == r && f.step == nstep[r]);
            let ok = fault_here
                || match k {
                    Kind::Send { .. } | Kind::Choose { .. } => true,
                    Kind::Recv { from, .. } | Kind::Offer { from, .. } => !q[from][r].is_empty() || !alive[from],
                    Kind::Close => false,
                };
            if ok {
                en.push(r);
            }
        }
        if en.is_empty() {
            break;
        }
        let r = en[*s.sched.get(t % s.sched.len().max(1)).unwrap_or(&0) as usize % en.len()];
        if r != last {
            st.switches += 1;
        }
        last = r;
        t += 1;
        st.steps += 1;
        crate::watch::tick();
        let (pi, l) = g.at(r);
        let p = &g.ps[pi];
        let view = &views[pi];
        let (kind, mi) = action(r, &pos[r]);
        let a = acts[r].take().expect("act");
        if let Some(f) = s.faults.iter().find(|f| f.role == r && f.step == nstep[r]) {
            st.faulted += 1;
            st.in_flight_at_fault += q.iter().flatten().map(|x| x.len()).sum::<usize>();
            match f.kind {
                FaultKind::Cancel | FaultKind::Unwind => {
                    if let Some(m) = &monitor {
                        m.settle();
                        if m.done() {
                            return Err(format!("the monitor stopped before anybody cancelled or closed: {:?}", m.join()));
                        }
                    }
                    if f.kind == FaultKind::Unwind {
                        let e = &mut env[r];
                        let _ = catch_unwind(AssertUnwindSafe(move || {
                            let _hold = Guard(Some(a), e);
                            panic!("injected")
                        }));
                    } else if let Ok(Ok(_)) = run(a, Cmd::Cancel, &mut env[r]) {
                        return Err(format!("internal: cancel of role {r} continued"));
                    }
                    let told = (1..n).any(|r| alive[r] && q.iter().any(|q| q[r].iter().any(|i| !matches!(i, Item::Val(_)))));
                    settled = !told && (1..n).all(|o| nchoice[o] == nchoice[r]);
                    cancelled = Some((r, nchoice[r]));
                }
                FaultKind::Late => {
                    let ts = p.timing(l, pos[r].seg, mi);
                    let h = crate::report::h64(&(s.seed, r, nstep[r]));
                    let victim = (h >> 8) as usize % ts.len().max(1);
                    set_clocks(&ts, &mut env[r]);
                    if ts.is_empty() || !miss(&ts[victim], h, &mut env[r]) {
                        drop(a);
                    } else {
                        let before = env[r].clocks.clone();
                        let pick = if let Kind::Choose { state } = &kind { p.pick(&view.picks, nchoice[r], *state) } else { 0 };
                        if let Ok(Ok(_)) = run(a, Cmd::Run { val: 1, pick }, &mut env[r]) {
                            if !met(&ts, &before) {
                                return Err(format!("{}: action outside its window {} succeeded", g.name(r), ts[victim].show()));
                            }
                            // it slipped into the window: nothing can be said about this run any more
                            return Ok(st);
                        }
                        if env[r].clocks != before {
                            return Err(format!("{}: action outside its window changed the clocks", g.name(r)));
                        }
                        st.late += 1;
                        if ts[0].clock != ts[victim].clock {
                            // some receivers of the choice were told before it failed
                            return Ok(st);
                        }
                    }
                }
                FaultKind::ReturnErr | FaultKind::ReturnOk | FaultKind::Stall => drop(a),
                FaultKind::Panic => {
                    let _ = catch_unwind(AssertUnwindSafe(move || {
                        let _hold = a;
                        panic!("injected")
                    }));
                }
            }
            alive[r] = false;
            continue;
        }
        nstep[r] += 1;
        env[r].got = None;
        env[r].pick = None;
        let who = format!("{} at step {}", g.name(r), nstep[r]);
        let mut step_to = None;
        let timing = p.timing(l, pos[r].seg, mi);
        set_clocks(&timing, &mut env[r]);
        let t0 = Instant::now();
        let before = env[r].clocks.clone();
        // the machine stalled past the window: nothing can be said about this run any more
        let stalled = || !met(&timing, &before);
        match kind {
            Kind::Send { to, ty } => {
                let seed = Proto::val_seed(view.seed, nchoice[r], mi);
                let res = run(a, Cmd::Run { val: seed, pick: 0 }, &mut env[r]);
                let must_fail = (!alive[to] && sem.send_aware) || spread;
                match res {
                    Ok(Ok(x)) => {
                        if must_fail {
                            return Err(if alive[to] {
                                format!("{who}: send to {} succeeded although the monitor had announced the cancellation", g.name(to))
                            } else {
                                format!("{who}: send to vanished {} reported success", g.name(to))
                            });
                        }
                        if alive[to] {
                            q[r][to].push_back(Item::Val(crate::val::expect(&ty, seed)));
                        }
                        step_to = Some(x);
                        pos[r].idx = mi + 1;
                    }
                    Ok(Err(e)) | Err(e) => {
                        if !must_fail && cancelled.is_none() {
                            if stalled() {
                                return Ok(st);
                            }
                            return Err(format!("{who}: send to {} failed: {e}", g.name(to)));
                        }
                        st.failed += 1;
                        alive[r] = false;
                    }
                }
            }
            Kind::Choose { state } => {
                let b = p.pick(&view.picks, nchoice[r], state);
                match run(a, Cmd::Run { val: 0, pick: b }, &mut env[r]) {
                    Ok(Ok(_)) if stopped => return Err(format!("{who}: choosing branch {b} succeeded after the monitor had stopped")),
                    Ok(Ok(x)) => {
                        for o in mates(r) {
                            if alive[o] {
                                q[r][o].push_back(Item::Pick(b));
                            }
                        }
                        st.choices += 1;
                        step_to = Some(x);
                        pos[r] = Pos { seg: Some((state, b)), idx: 0 };
                        nchoice[r] += 1;
                    }
                    Ok(Err(e)) | Err(e) => {
                        let gone = mates(r).iter().any(|o| !alive[*o]);
                        if !(gone && sem.send_aware) {
                            if stalled() {
                                return Ok(st);
                            }
                            return Err(format!("{who}: choosing branch {b} failed: {e}"));
                        }
                        if cancelled.is_some() {
                            for o in mates(r) {
                                q[r][o].push_back(Item::Maybe(b));
                            }
                            st.failed += 1;
                            alive[r] = false;
                            continue;
                        }
                        // how many of the others learned the branch before the failure is not specified
                        st.failed += 1;
                        return Ok(st);
                    }
                }
            }
            Kind::Recv { from, .. } | Kind::Offer { from, .. } => {
                let item = q[from][r].pop_front();
                let told = match item {
                    Some(Item::Pick(b) | Item::Maybe(b)) => b,
                    _ => 0,
                };
                let res = run(a, Cmd::Run { val: 0, pick: told }, &mut env[r]);
                let may_fail = matches!(item, Some(Item::Maybe(_))) || (cancelled.is_some() && matches!(kind, Kind::Offer { .. }));
                if stopped && matches!(kind, Kind::Offer { .. }) || may_fail && !matches!(res, Ok(Ok(_))) {
                    if let Ok(Ok(_)) = res {
                        return Err(format!("{who}: entered a branch after the monitor had stopped"));
                    }
                    st.failed += 1;
                    alive[r] = false;
                    continue;
                }
                match (item, res) {
                    (Some(it), Ok(Ok(x))) => {
                        match it {
                            Item::Val(v) => {
                                if env[r].got.as_deref() != Some(v.as_str()) {
                                    return Err(format!(
                                        "{who}: expected {v:?} from {}, received {:?}",
                                        g.name(from), env[r].got
                                    ));
                                }
                                pos[r].idx = mi + 1;
                            }
                            Item::Pick(b) | Item::Maybe(b) => {
                                if env[r].pick != Some(b) {
                                    return Err(format!(
                                        "{who}: {} chose branch {b}, this participant entered {:?}",
                                        g.name(from), env[r].pick
                                    ));
                                }
                                let k = match kind {
                                    Kind::Offer { state, .. } => state,
                                    _ => return Err("internal: pick for recv".into()),
                                };
                                pos[r] = Pos { seg: Some((k, b)), idx: 0 };
                                nchoice[r] += 1;
                            }
                        }
                        step_to = Some(x);
                    }
                    (Some(_), Ok(Err(e))) | (Some(_), Err(e)) => {
                        if stalled() {
                            return Ok(st);
                        }
                        return Err(format!(
                            "{who}: receiving a message {} already sent failed: {e}",
                            g.name(from)
                        ))
                    }
                    (None, Ok(Ok(_))) => {
                        return Err(format!(
                            "{who}: received {:?}/{:?} from {} which vanished without sending it",
                            env[r].got, env[r].pick, g.name(from)
                        ))
                    }
                    (None, Ok(Err(_))) => {
                        st.failed += 1;
                        alive[r] = false;
                    }
                    (None, Err(e)) => {
                        if !sem.recv_panics {
                            return Err(format!("{who}: receive from vanished {} panicked ({e}) instead of returning an error", g.name(from)));
                        }
                        st.failed += 1;
                        alive[r] = false;
                    }
                }
            }
            Kind::Close => unreachable!(),
        }
        if alive[r] && !timing.is_empty() {
            clocks_after(&timing, &before, t0, &env[r]).map_err(|e| format!("{who}: {e}"))?;
            st.resets += timing.iter().any(|t| t.reset != ' ') as usize;
        }
        let pending = q.iter().flatten().map(|x| x.len()).sum::<usize>();
        st.max_pending = st.max_pending.max(pending);
        if alive[r] {
            match step_to {
                Some(Step::Next(a)) => acts[r] = Some(a),
                Some(Step::Done) => return Err(format!("internal: role {r} finished early")),
                None => return Err("internal: no step".into()),
            }
        }
    }
    // Everyone still alive is about to close.
    if let Some(m) = monitor.as_ref().filter(|_| cancelled.is_none()) {
        if m.done() {
            return Err(format!("the monitor stopped before anybody cancelled or closed: {:?}", m.join()));
        }
    }
    for r in 0..n {
        if alive[r] && action(r, &pos[r]).0 != Kind::Close {
            return Err(format!("internal: model deadlock at role {r}"));
        }
    }
    if let Some(close) = close {
        let whole = alive.iter().all(|a| *a);
        let mut ends = vec![];
        for r in 0..n {
            if let Some(a) = acts[r].take() {
                match run(a, Cmd::Run { val: 0, pick: 0 }, &mut env[r]) {
                    Ok(Ok(Step::Done)) => ends.extend(env[r].end.take()),
                    _ => return Err(format!("internal: role {r} is not at its end")),
                }
            }
        }
        if whole {
            return match catch_unwind(AssertUnwindSafe(|| close(ends).map_err(|e| e.to_string()))) {
                Ok(Ok(())) => Ok(st),
                Ok(Err(e)) => Err(format!("closing all participants together failed in a complete run: {e}")),
                Err(p) => Err(format!("closing all participants together panicked: {}", panic_text(&p))),
            };
        }
        return Ok(st);
    }
    let outs: Vec<Option<(bool, String)>> = {
        let mut outs: Vec<Option<(bool, String)>> = vec![None; n];
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for r in 0..n {
                if let Some(a) = acts[r].take() {
                    hs.push((
                        r,
                        sc.spawn(move || {
                            let mut env = Env::default();
                            match run(a, Cmd::Run { val: 0, pick: 0 }, &mut env) {
                                Ok(Ok(Step::Done)) => (true, String::new()),
                                Ok(Ok(_)) => (true, "internal: close continued".to_string()),
                                Ok(Err(e)) => (false, e),
                                Err(e) => (false, format!("panic: {e}")),
                            }
                        }),
                    ));
                }
            }
            for (r, h) in hs {
                outs[r] = Some(h.join().unwrap_or((false, "thread".into())));
            }
        });
        outs
    };
    crate::watch::tick();
    let ended = monitor.map(|m| m.join());
    if let (Some(Ok(())), Some((r, _))) = (&ended, cancelled) {
        return Err(format!("the monitor completed successfully although {} cancelled", g.name(r)));
    }
    if let (Some(Err(e)), None) = (ended, cancelled) {
        return Err(format!("everybody closed and nobody cancelled, but the monitor failed: {e}"));
    }
    for r in 0..n {
        let gone = (0..n).any(|o| g.at(o).0 == g.at(r).0 && !alive[o]);
        if let Some((ok, e)) = &outs[r] {
            if *ok && gone {
                return Err(format!("{} closed successfully although another participant had stopped", g.name(r)));
            }
            if !*ok && !gone {
                return Err(format!("{}: close failed in a complete run: {e}", g.name(r)));
            }
            if !*ok && e.starts_with("panic:") && !sem.close_panics {
                return Err(format!("{}: close panicked: {e}", g.name(r)));
            }
        }
    }
    Ok(st)
}

/// One run on the family's own threads.
pub fn threaded(g: &Prog, e: &Entry, s: &Script, sem: Sem) -> Result<Stats, String> {
    let tok = tokens();
    let st = free(g, e, s, sem)?;
    balanced(tok)?;
    Ok(st)
}

/// Many runs at once, each with a participant that takes its time.
pub fn slow(cases: Vec<(&Prog, Start, Script, Sem)>) -> Vec<Result<Stats, String>> {
    let tok = tokens();
    let mut out: Vec<Result<Stats, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = cases
            .into_iter()
            .map(|(g, start, s, sem)| {
                sc.spawn(move || free(g, &Entry { id: "", proto: "", start, close: None }, &s, sem))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|p| Err(panic_text(&p)))).collect()
    });
    if out.iter().all(|r| r.is_ok()) {
        if let (Err(e), Some(x)) = (balanced(tok), out.last_mut()) {
            *x = Err(e);
        }
    }
    out
}

fn free(g: &Prog, e: &Entry, s: &Script, sem: Sem) -> Result<Stats, String> {
    let n = g.n();
    let logs: Vec<Arc<Mutex<Vec<Ev>>>> = (0..n).map(|_| Arc::new(Mutex::new(vec![]))).collect();
    let threads = g.threads();
    let bodies: Vec<Body> = threads
        .iter()
        .map(|rs| {
            let mut players: Vec<Player> = rs
                .iter()
                .map(|r| {
                    let (i, l) = g.at(*r);
                    Player {
                        r: l,
                        env: Env::default(),
                        pos: Pos { seg: None, idx: 0 },
                        nchoice: 0,
                        nstep: 0,
                        log: logs[*r].clone(),
                        p: g.ps[i].clone(),
                        s: g.view(s, i),
                    }
                })
                .collect();
            let sched = s.sched.clone();
            Box::new(move |a: Vec<Act>| {
                let mut a: Vec<Option<Act>> = a.into_iter().map(Some).collect();
                let mut t = 0;
                while let Some(live) = Some((0..a.len()).filter(|i| a[*i].is_some()).collect::<Vec<_>>()).filter(|l| !l.is_empty()) {
                    let i = live[sched.get(t % sched.len().max(1)).copied().unwrap_or(0) as usize / 3 % live.len()];
                    t += 1;
                    let act = a[i].take().unwrap();
                    a[i] = players[i].step(act)?;
                }
                Ok(())
            }) as Body
        })
        .collect();
    let hs = (e.start)(bodies);
    if hs.len() != threads.len() {
        return Err(format!("forking {} threads gave {} handles", threads.len(), hs.len()));
    }
    let mut joined = vec![false; n];
    for (t, h) in hs.into_iter().enumerate() {
        let ok = h.join().is_ok();
        for r in &threads[t] {
            joined[*r] = ok;
        }
        crate::watch::tick();
    }
    let logs: Vec<Vec<Ev>> = logs.iter().map(|l| l.lock().unwrap_or_else(|e| e.into_inner()).clone()).collect();
    let mut st = Stats::default();
    for (i, p) in g.ps.iter().enumerate() {
        let b = g.base(i);
        let x = judge(p, &g.view(s, i), sem, &logs[b..b + p.n()], &joined[b..b + p.n()])?;
        st.steps += x.steps;
        st.choices += x.choices;
        st.faulted += x.faulted;
        st.failed += x.failed;
    }
    Ok(st)
}

fn jitter(s: &Script, r: usize, i: usize) {
    let x = *s.sched.get((r * 7 + i) % s.sched.len().max(1)).unwrap_or(&0) as usize;
    match x % 5 {
        0 | 1 => {}
        2 => std::thread::yield_now(),
        3 => {
            for _ in 0..(x % 400) {
                std::hint::spin_loop();
            }
        }
        _ => {
            for _ in 0..3 {
                std::thread::yield_now();
            }
        }
    }
}

struct Player {
    r: usize,
    env: Env,
    pos: Pos,
    nchoice: usize,
    nstep: usize,
    log: Arc<Mutex<Vec<Ev>>>,
    p: Proto,
    s: Script,
}

impl Player {
    fn push(&self, e: Ev) {
        self.log.lock().unwrap().push(e)
    }
    /// Performs one action; None when the participant has closed.
    fn step(&mut self, a: Act) -> Result<Option<Act>, Box<dyn std::error::Error>> {
        let r = self.r;
        let (kind, mi) = self.p.action(r, &self.pos);
        if let Some((_, _, ms)) = self.s.slow.filter(|x| (x.0, x.1) == (r, self.nstep)) {
            let until = Instant::now() + Duration::from_millis(ms);
            while let Some(left) = until.checked_duration_since(Instant::now()).filter(|d| !d.is_zero()) {
                crate::watch::tick();
                std::thread::sleep(left.min(Duration::from_secs(5)));
            }
        }
        let timing = self.p.timing(r, self.pos.seg, mi);
        if let Some(f) = self.s.faults.iter().find(|f| f.role == r && f.step == self.nstep) {
            self.push(Ev::Faulted);
            match f.kind {
                FaultKind::Cancel => {
                    return match (a.go)(Cmd::Cancel, &mut self.env) {
                        Ok(_) => Err("internal: cancel continued".into()),
                        Err(e) => Err(e),
                    };
                }
                FaultKind::Unwind => {
                    let _hold = Guard(Some(a), &mut self.env);
                    panic!("injected")
                }
                FaultKind::Stall => {
                    if self.s.hurry.is_some() {
                        std::thread::sleep(Duration::from_secs(3));
                    }
                    return Err("injected".into());
                }
                FaultKind::ReturnErr => return Err("injected".into()),
                FaultKind::ReturnOk => return Ok(None),
                FaultKind::Panic => panic!("injected"),
                FaultKind::Late => {
                    let h = crate::report::h64(&(self.s.seed, r, self.nstep)) | 2;
                    set_clocks(&timing, &mut self.env);
                    match timing.first() {
                        Some(t) if t.admitted().1 < i128::MAX && miss(t, h, &mut self.env) => {
                            (a.go)(Cmd::Run { val: 1, pick: 0 }, &mut self.env)?;
                            self.push(Ev::Sent(r, format!("an action outside its window {} succeeded", t.show())));
                            return Err("injected".into());
                        }
                        _ => return Err("injected".into()),
                    }
                }
            }
        }
        jitter(&self.s, r, self.nstep);
        self.nstep += 1;
        crate::watch::tick();
        self.env.got = None;
        self.env.pick = None;
        let cmd = match &kind {
            Kind::Send { .. } => Cmd::Run { val: Proto::val_seed(self.s.seed, self.nchoice, mi), pick: 0 },
            Kind::Choose { state } | Kind::Offer { state, .. } => {
                Cmd::Run { val: 0, pick: self.p.pick(&self.s.picks, self.nchoice, *state) }
            }
            _ => Cmd::Run { val: 0, pick: 0 },
        };
        set_clocks(&timing, &mut self.env);
        if let (true, Some(t)) = (self.s.hurry == Some((r, self.nstep - 1)), timing.first()) {
            hasten(t, &mut self.env);
        }
        let before = self.env.clocks.clone();
        let t0 = Instant::now();
        let spin = (r == 0 && self.p.monitored()).then(crate::watch::spinner);
        // errors and panics go on as they are, as in a program
        let out = catch_unwind(AssertUnwindSafe(|| (a.go)(cmd, &mut self.env)));
        if let Some(t) = spin {
            crate::watch::spun(t);
        }
        let res = match out {
            Ok(Ok(x)) => {
                if let (false, Err(e)) = (timing.is_empty(), clocks_after(&timing, &before, t0, &self.env)) {
                    self.push(Ev::Sent(r, e.clone()));
                    return Err(e.into());
                }
                x
            }
            Ok(Err(e)) => {
                self.push(Ev::Failed(e.to_string()));
                return Err(e);
            }
            Err(p) => {
                self.push(Ev::Failed(format!("panic: {}", panic_text(&p))));
                std::panic::resume_unwind(p);
            }
        };
        match kind {
            Kind::Send { to, ty } => {
                self.push(Ev::Sent(to, crate::val::expect(&ty, Proto::val_seed(self.s.seed, self.nchoice, mi))));
                self.pos.idx = mi + 1;
            }
            Kind::Recv { from, .. } => {
                self.push(Ev::Got(from, self.env.got.clone().unwrap_or_else(|| "?".into())));
                self.pos.idx = mi + 1;
            }
            Kind::Choose { state } => {
                let b = self.p.pick(&self.s.picks, self.nchoice, state);
                self.push(Ev::Chose(b));
                self.pos = Pos { seg: Some((state, b)), idx: 0 };
                self.nchoice += 1;
            }
            Kind::Offer { state, from } => {
                let b = self.env.pick.unwrap_or(99);
                self.push(Ev::Offered(from, b));
                if b >= self.p.states[state].branches.len() {
                    return Err("bad branch".into());
                }
                self.pos = Pos { seg: Some((state, b)), idx: 0 };
                self.nchoice += 1;
            }
            Kind::Close => {
                self.push(Ev::Closed);
                return Ok(None);
            }
        }
        match res {
            Step::Next(x) => Ok(Some(x)),
            Step::Done => Err("internal: finished early".into()),
        }
    }
}

/// Validity of an observed run (any schedule) against the protocol.
pub fn judge(p: &Proto, s: &Script, sem: Sem, logs: &[Vec<Ev>], joined: &[bool]) -> Result<Stats, String> {
    let n = p.n();
    let exp = p.traces(s.seed, &s.picks);
    let mut st = Stats::default();
    if joined.len() != n {
        return Err(format!("{} participants gave {} join handles", n, joined.len()));
    }
    let stopped = |r: usize| matches!(logs[r].last(), Some(Ev::Failed(_)) | Some(Ev::Faulted));
    let faulted = (0..n).any(|r| matches!(logs[r].last(), Some(Ev::Faulted)));
    // items p -> q successfully sent, from the sender's log
    let sent = |a: usize, b: usize| {
        logs[a].iter().filter(|e| matches!(e, Ev::Sent(t, _) if *t == b) || matches!(e, Ev::Chose(_))).count()
    };
    for r in 0..n {
        let l = &logs[r];
        let who = &p.names[r];
        st.steps += l.len();
        st.choices += l.iter().filter(|e| matches!(e, Ev::Chose(_))).count();
        let body = match l.last() {
            Some(Ev::Failed(_)) | Some(Ev::Faulted) => &l[..l.len() - 1],
            _ => &l[..],
        };
        if body.len() > exp[r].len() {
            return Err(format!("{who} performed {} events, the protocol has {}", body.len(), exp[r].len()));
        }
        for (i, e) in body.iter().enumerate() {
            if *e != exp[r][i] {
                return Err(format!("{who}: event {i} is {e:?}, the protocol prescribes {:?}", exp[r][i]));
            }
        }
        let complete = body.len() == exp[r].len();
        let quiet_stop = matches!(l.last(), Some(Ev::Faulted))
            && s.faults.iter().find(|f| f.role == r && f.step == body.len()).is_some_and(|f| f.kind == FaultKind::ReturnOk);
        if joined[r] != (complete || quiet_stop) {
            return Err(format!(
                "{who}: thread joined {} but the participant {}",
                if joined[r] { "Ok" } else { "Err" },
                if complete { "completed" } else { "stopped early" }
            ));
        }
        if !complete && !stopped(r) {
            return Err(format!("{who}: neither completed nor failed"));
        }
        if complete && faulted {
            return Err(format!("{who} completed although another participant stopped before completing"));
        }
        if let Some(Ev::Failed(e)) = l.last() {
            st.failed += 1;
            if !faulted {
                return Err(format!("{who}: failed in a fault-free run at event {}: {e}", body.len()));
            }
            match &exp[r][body.len()] {
                Ev::Got(f, _) | Ev::Offered(f, _) => {
                    let k = body
                        .iter()
                        .filter(|e| matches!(e, Ev::Got(t, _) | Ev::Offered(t, _) if t == f))
                        .count();
                    // a choice is only entered once the monitor took the new session
                    let handover = sem.monitored && matches!(exp[r][body.len()], Ev::Offered(..));
                    if sent(*f, r) > k && !handover {
                        return Err(format!("{who}: lost message {k} from {}: {e}", p.names[*f]));
                    }
                    if e.starts_with("panic:") && !sem.recv_panics {
                        return Err(format!("{who}: receive panicked instead of returning an error: {e}"));
                    }
                }
                Ev::Sent(t, _) => {
                    if !sem.monitored && (!sem.send_aware || !stopped(*t)) {
                        return Err(format!("{who}: send to {} failed: {e}", p.names[*t]));
                    }
                }
                Ev::Chose(_) => {
                    if !sem.send_aware {
                        return Err(format!("{who}: choosing failed: {e}"));
                    }
                }
                _ => {}
            }
        }
        if let Some(Ev::Faulted) = l.last() {
            st.faulted += 1;
        }
    }
    Ok(st)
}
