//! Thin deterministic wrapper over proptest's runner.
use crate::report::{h64, Report};
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::Serialize;
use std::cell::RefCell;

pub fn runner(seed: u64, label: &str, cases: u32, shrink: u32) -> TestRunner {
    let mut b = [0u8; 32];
    let a = h64(&(seed, label, 1u8));
    let c = h64(&(seed, label, 2u8));
    b[..8].copy_from_slice(&a.to_le_bytes());
    b[8..16].copy_from_slice(&c.to_le_bytes());
    b[16..24].copy_from_slice(&seed.to_le_bytes());
    TestRunner::new_with_rng(
        Config { cases, failure_persistence: None, max_shrink_iters: shrink, verbose: 0, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &b),
    )
}

/// Run `cases` generated cases of one sub-check; a failing case is shrunk and reported.
pub fn check<S, F>(rep: &mut Report, label: &str, cases: u32, strat: S, f: F)
where
    S: Strategy,
    S::Value: Serialize + Clone + std::fmt::Debug,
    F: Fn(&S::Value, &mut Report) -> Result<(), String>,
{
    check_with(rep, label, cases, 3000, strat, f)
}

pub fn check_with<S, F>(rep: &mut Report, label: &str, cases: u32, shrink: u32, strat: S, f: F)
where
    S: Strategy,
    S::Value: Serialize + Clone + std::fmt::Debug,
    F: Fn(&S::Value, &mut Report) -> Result<(), String>,
{
    let mut run = runner(rep.seed, &format!("{}/{}", rep.property, label), cases, shrink);
    let cell = RefCell::new(rep);
    let failed = std::cell::Cell::new(false);
    let r = run.run(&strat, |v| {
        let mut rep = cell.borrow_mut();
        crate::watch::set_case(&serde_json::json!({"check": label, "input": v}));
        if !failed.get() {
            rep.eval();
        }
        let rr: &mut Report = &mut rep;
        match f(&v, rr) {
            Ok(()) => Ok(()),
            Err(e) => {
                failed.set(true);
                Err(TestCaseError::fail(e))
            }
        }
    });
    let rep = cell.into_inner();
    match r {
        Ok(()) => {}
        Err(TestError::Fail(why, v)) => {
            rep.violation(&format!("[{label}] {why}"), serde_json::json!({"check": label, "input": v}))
        }
        Err(TestError::Abort(why)) => {
            eprintln!("{}: generator aborted in {label}: {why}", rep.property);
            std::process::exit(3)
        }
    }
}

/// Like `check` for a pure (and slow) `f`, evaluated on all cores; `done` looks at the results in order.
pub fn check_par<S, T, F, D>(rep: &mut Report, label: &str, cases: u32, shrink: u32, strat: S, f: F, mut done: D)
where
    S: Strategy,
    S::Value: Serialize + Clone + std::fmt::Debug + Send + Sync,
    T: Send,
    F: Fn(&S::Value) -> Result<T, String> + Sync,
    D: FnMut(&S::Value, T, &mut Report) -> Result<(), String>,
{
    use proptest::strategy::ValueTree;
    let mut run = runner(rep.seed, &format!("{}/{label}", rep.property), cases, shrink);
    let mut left = cases as usize;
    while left > 0 {
        let k = left.min(256);
        left -= k;
        let trees: Vec<_> = (0..k).map(|_| strat.new_tree(&mut run).unwrap_or_else(|e| panic!("generator of {label}: {e}"))).collect();
        let vals: Vec<S::Value> = trees.iter().map(|t| t.current()).collect();
        crate::watch::set_case(&serde_json::json!({"check": label, "inputs": vals}));
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out: Vec<std::sync::Mutex<Option<Result<T, String>>>> = (0..k).map(|_| std::sync::Mutex::new(None)).collect();
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= k {
                        break;
                    }
                    crate::watch::set_own(&serde_json::json!({"check": label, "input": vals[i]}));
                    *out[i].lock().unwrap() = Some(f(&vals[i]));
                });
            }
        });
        for ((v, mut tree), r) in vals.into_iter().zip(trees).zip(out) {
            rep.eval();
            let r = r.into_inner().unwrap().unwrap().and_then(|t| done(&v, t, rep));
            let Err(mut why) = r else { continue };
            let mut best = v;
            let mut tries = 0;
            let mut go = tree.simplify();
            while go && tries < shrink {
                tries += 1;
                let v = tree.current();
                crate::watch::set_own(&serde_json::json!({"check": label, "input": v}));
                match f(&v).and_then(|t| done(&v, t, rep)) {
                    Err(e) => {
                        why = e;
                        best = v;
                        go = tree.simplify();
                    }
                    Ok(()) => go = tree.complicate(),
                }
            }
            rep.violation(&format!("[{label}] {why}"), serde_json::json!({"check": label, "input": best}))
        }
    }
}
