//! Hang handling. A hang is reported as a violation only when it is a proven deadlock: no progress,
//! and over a long window every other thread of the process is asleep without being scheduled once,
//! while nothing in the case under test waits on a timer. Anything else is an error exit.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

static TICK: AtomicU64 = AtomicU64::new(0);
static CASE: Mutex<String> = Mutex::new(String::new());
/// What a thread that runs its own case is at.
static OWN: Mutex<Vec<(u32, String)>> = Mutex::new(vec![]);

/// Processor time one thread may spend on a case; the slowest of them need less than a second.
const ENDLESS: u64 = 60_000_000_000;

/// Threads that poll without ever blocking, and the processor time they had when the last tick was seen.
static SPIN: Mutex<Vec<u32>> = Mutex::new(vec![]);

/// The calling thread polls from here on.
pub fn spinner() -> u32 {
    let tid = me().parse().unwrap_or(0);
    SPIN.lock().unwrap_or_else(|e| e.into_inner()).push(tid);
    tid
}

pub fn spun(tid: u32) {
    SPIN.lock().unwrap_or_else(|e| e.into_inner()).retain(|t| *t != tid);
}

/// Processor time of a thread, in nanoseconds.
pub fn cpu(tid: u32) -> u64 {
    let f = |n: &str| std::fs::read_to_string(format!("/proc/self/task/{tid}/{n}")).unwrap_or_default();
    if let Some(ns) = f("schedstat").split_whitespace().next().and_then(|x| x.parse().ok()) {
        return ns;
    }
    let st = f("stat");
    let v: Vec<&str> = st.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let g = |i: usize| v.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (g(11) + g(12)) * 10_000_000
}

fn me() -> String {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
        .unwrap_or_default()
}

fn spinning() -> Vec<(u32, u64)> {
    let t = SPIN.lock().unwrap_or_else(|e| e.into_inner()).clone();
    t.into_iter().map(|t| (t, cpu(t))).collect()
}

pub fn tick() {
    TICK.fetch_add(1, Ordering::Relaxed);
}

pub fn set_case(v: &serde_json::Value) {
    tick();
    let mut case = CASE.lock().unwrap();
    *case = v.to_string();
    // for the process that watches over this one
    static FILE: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
    if let Some(f) = FILE.get_or_init(|| std::env::var("VERIF_LAST").ok().and_then(|p| std::fs::File::create(p).ok())) {
        use std::os::unix::fs::FileExt;
        let _ = f.write_all_at(case.as_bytes(), 0);
        let _ = f.set_len(case.len() as u64);
    }
}

/// The calling thread works on this case alone.
pub fn set_own(v: &serde_json::Value) {
    tick();
    let tid: u32 = me().parse().unwrap_or(0);
    let mut own = OWN.lock().unwrap_or_else(|e| e.into_inner());
    own.retain(|o| o.0 != tid);
    own.push((tid, v.to_string()));
}

fn times(me: &str) -> Vec<(u32, u64)> {
    let Ok(rd) = std::fs::read_dir("/proc/self/task") else { return vec![] };
    let skip = SPIN.lock().unwrap_or_else(|e| e.into_inner()).clone();
    rd.flatten()
        .filter_map(|e| e.file_name().to_string_lossy().parse().ok())
        .filter(|t: &u32| t.to_string() != me && !skip.contains(t))
        .map(|t| (t, cpu(t)))
        .collect()
}

/// A thread that computed for very long since the last sign of progress.
fn endless(before: &[(u32, u64)], me: &str) -> Option<u32> {
    let old = |t: u32| before.iter().find(|b| b.0 == t).map_or(0, |b| b.1);
    times(me).into_iter().find(|(t, c)| c.saturating_sub(old(*t)) > ENDLESS).map(|x| x.0)
}

fn verdict(property: &str, seed: u64, what: &str, tid: Option<u32>) -> ! {
    let own = OWN.lock().unwrap_or_else(|e| e.into_inner()).iter().find(|o| Some(o.0) == tid).map(|o| o.1.clone());
    let text = own.or_else(|| CASE.lock().ok().map(|c| c.clone())).unwrap_or_default();
    let case = serde_json::from_str(&text).unwrap_or(serde_json::Value::Null);
    let path = crate::report::write_replay(property, seed, what, &case);
    println!("{property}: {what}");
    println!("VIOLATION property={property} replay={path}");
    crate::report::flush();
    std::process::exit(1)
}

const LOOPS: &str = "a thread computed for a minute of processor time on one case without coming to an end";

/// For cases that are plain calls: reports one that computes without end.
pub fn calls(property: &str, seed: u64) {
    let property = property.to_string();
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(move || {
            let me = me();
            let mut last = TICK.load(Ordering::Relaxed);
            let mut before = times(&me);
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let t = TICK.load(Ordering::Relaxed);
                if t != last {
                    last = t;
                    before = times(&me);
                } else if let Some(tid) = endless(&before, &me) {
                    verdict(&property, seed, LOOPS, Some(tid));
                }
            }
        })
        .unwrap();
}

fn threads(me: &str) -> Vec<(String, char, String)> {
    let mut out = vec![];
    if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
        for e in rd.flatten() {
            let tid = e.file_name().to_string_lossy().into_owned();
            if tid == me {
                continue;
            }
            let st = std::fs::read_to_string(e.path().join("status")).unwrap_or_default();
            let mut state = '?';
            let mut sw = String::new();
            for l in st.lines() {
                if let Some(r) = l.strip_prefix("State:") {
                    state = r.trim().chars().next().unwrap_or('?');
                }
                if l.contains("ctxt_switches") {
                    sw.push_str(l);
                }
            }
            out.push((tid, state, sw));
        }
    }
    out.sort();
    out
}

/// `quiet_secs`: how long nothing may move before a deadlock is declared (must exceed every timer a
/// case can be waiting on). `give_up_secs`: error exit when stuck but not provably deadlocked.
pub fn start(property: &str, seed: u64, quiet_secs: u64, give_up_secs: u64) {
    let property = property.to_string();
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(move || {
            let me = me();
            let mut last = TICK.load(Ordering::Relaxed);
            let mut stuck = 0u64;
            let mut quiet = 0u64;
            let mut snap = threads(&me);
            let mut spin = spinning();
            let mut before = times(&me);
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let t = TICK.load(Ordering::Relaxed);
                if t != last {
                    last = t;
                    stuck = 0;
                    quiet = 0;
                    snap = threads(&me);
                    spin = spinning();
                    before = times(&me);
                    continue;
                }
                stuck += 1;
                if let Some(tid) = endless(&before, &me) {
                    verdict(&property, seed, LOOPS, Some(tid));
                }
                let mut now = threads(&me);
                now.retain(|t| !spin.iter().any(|s| s.0.to_string() == t.0));
                snap.retain(|t| !spin.iter().any(|s| s.0.to_string() == t.0));
                if now == snap && now.iter().all(|x| x.1 == 'S') {
                    quiet += 1;
                } else {
                    quiet = 0;
                    spin = spinning();
                }
                snap = now;
                // those who poll had plenty of time to notice anything there was to notice
                let after = spinning();
                let polled = spin.iter().all(|s| after.iter().any(|a| a.0 == s.0 && a.1 > s.1 + 1_000_000_000));
                if quiet >= quiet_secs && polled {
                    let what = format!(
                        "deadlock: every thread of the process stayed blocked for {quiet_secs}s on an operation whose partner has already acted"
                    );
                    verdict(&property, seed, &what, None);
                }
                if stuck >= give_up_secs {
                    eprintln!("{property}: no progress for {give_up_secs}s, inconclusive");
                    std::process::exit(4);
                }
            }
        })
        .unwrap();
}
