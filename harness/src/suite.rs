//! Runs the generated programs of one property and reports.
use crate::act::Entry;
use crate::drive::{inside, slow, solo, threaded, Sem, Stats};
use crate::ir::*;
use crate::report::Report;
use serde_json::{json, Value};

#[derive(Clone, Copy)]
pub struct Plan {
    pub solo: u32,
    pub threaded: u32,
    pub picks: usize,
    /// smallest and largest number of injected faults
    pub faults: (usize, usize),
}

pub fn quiet_panics() {
    if std::env::var("VERIF_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

pub fn sem_of(g: &Prog) -> Sem {
    crate::emit::fam(&g.ps[0].family).sem()
}

fn note(rep: &mut Report, g: &Prog, s: &Script, st: &Stats, mode: &str) {
    rep.class(&format!("family {}", g.ps[0].family));
    rep.class(&format!("mode {mode}"));
    rep.class(&format!("participants {}", g.n()));
    if st.choices > 0 {
        rep.class("with choices");
    }
    if st.choices > 1 {
        rep.class("with several choices");
    }
    if st.max_pending > 1 {
        rep.class("with messages pending on several links or queued");
    }
    if st.faulted > 0 {
        rep.class("fault reached");
        for f in &place(g, s).faults {
            rep.class(&format!("fault {:?}", f.kind));
        }
    }
    if st.failed > 0 {
        rep.class("failure propagated");
    }
    if st.late > 0 {
        rep.class("window missed");
    }
    if st.resets > 0 {
        rep.class("with clock resets");
    }
    if st.in_flight_at_fault > 0 {
        rep.class("messages in flight at fault");
    }
}

pub fn one(g: &Prog, e: &Entry, s: &Script, mode: &str) -> Result<Stats, String> {
    let s = if mode == "slow" { place(g, s) } else { Script { hurry: None, ..place(g, s) } };
    match mode {
        "solo" => solo(g, e, &s, sem_of(g)),
        "inside" => inside(g, e, &s, sem_of(g)),
        "slow" => slow(vec![(g, e.start, s, sem_of(g))]).remove(0),
        _ => threaded(g, e, &s, sem_of(g)),
    }
}

use crate::gen::place;

pub fn main(property: &str, rule: &str, plan_of: fn(&str, bool) -> Plan, entries: Vec<Entry>, more: Option<fn(&mut Report, Option<&Value>)>) -> ! {
    quiet_panics();
    let mut rep = Report::new(property, rule);
    let replay = std::env::var("VERIF_REPLAY").ok();
    crate::watch::start(property, rep.seed, if rep.thorough() { 80 } else { 25 }, 150);
    let mut es: Vec<(Prog, Entry)> =
        entries.into_iter().map(|e| (serde_json::from_str::<Prog>(e.proto).expect("program"), e)).collect();
    es.sort_by_key(|(p, _)| e_size(p));
    if let Some(f) = replay {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).unwrap();
        let c = &v["case"]["input"];
        if let (Some(more), true) = (more, c.get("script").is_none()) {
            more(&mut rep, Some(&v["case"]));
            println!("{property}: replay passed");
            std::process::exit(0);
        }
        let s: Script = serde_json::from_value(c["script"].clone()).unwrap();
        let mode = c["mode"].as_str().unwrap_or("solo");
        let (p, e) = &es[0];
        let times = match mode {
            "solo" => 1,
            "slow" => 2,
            _ => 2000,
        };
        for _ in 0..times {
            rep.eval();
            crate::watch::set_case(&v["case"]);
            if let Err(why) = one(p, e, &s, mode) {
                rep.violation(&why, v["case"].clone());
            }
        }
        println!("{property}: replay passed");
        std::process::exit(0);
    }
    let plan = plan_of(property, rep.thorough());
    for (p, e) in &es {
        for (mode, cases) in [("solo", plan.solo), (if p.solo() { "inside" } else { "threaded" }, plan.threaded)] {
            if mode == "threaded" && !crate::gen::wide(p) {
                continue;
            }
            let strat = crate::gen::script(p.n(), plan.picks, plan.faults, crate::emit::fam(&p.ps[0].family).timed());
            let mut run = crate::pbt::runner(rep.seed, &format!("{property}/{}/{mode}", e.id), cases, 400);
            let cell = std::cell::RefCell::new(&mut rep);
            let failed = std::cell::Cell::new(false);
            let r = run.run(&strat, |s| {
                let case = json!({"check": e.id, "input": {"program": p, "script": s, "mode": mode}});
                crate::watch::set_case(&case);
                let mut rep = cell.borrow_mut();
                if !failed.get() {
                    rep.eval();
                }
                match one(p, e, &s, mode) {
                    Ok(st) => {
                        if !failed.get() {
                            note(&mut rep, p, &s, &st, mode);
                            if nontrivial(plan, &st) {
                                let pl = place(p, &s);
                                rep.nontrivial(&(e.id, mode, format!("{pl:?}")), || json!({"protocol": show(p), "script": pl, "mode": mode}));
                            }
                        }
                        Ok(())
                    }
                    Err(why) => {
                        failed.set(true);
                        Err(proptest::test_runner::TestCaseError::fail(why))
                    }
                }
            });
            drop(cell);
            if let Err(err) = r {
                match err {
                    proptest::test_runner::TestError::Fail(why, s) => rep.violation(
                        &format!("[{} {mode}] {why}", p.ps[0].family),
                        json!({"check": e.id, "input": {"program": p, "script": s, "mode": mode}}),
                    ),
                    proptest::test_runner::TestError::Abort(w) => {
                        eprintln!("generator aborted: {w}");
                        std::process::exit(3)
                    }
                }
            }
        }
    }
    slow_batch(property, plan, &es, &mut rep);
    if let Some(more) = more {
        more(&mut rep, None);
    }
    rep.extra.insert("programs".into(), json!(es.len()));
    rep.extra.insert("programs_the_compiler_gave_up_on".into(), json!(std::env::var("VERIF_EXCLUDED").unwrap_or_default()));
    rep.extra.insert(
        "program_shapes".into(),
        json!(es.iter().step_by((es.len() / 6).max(1)).map(|(p, _)| show(p)).collect::<Vec<_>>()),
    );
    rep.finish()
}

/// Runs with participants that pause for seconds; all at once, as they mostly sleep.
fn slow_batch(property: &str, plan: Plan, es: &[(Prog, Entry)], rep: &mut Report) {
    use proptest::strategy::{Strategy, ValueTree};
    let mut cases: Vec<(&Prog, &Entry, Script)> = vec![];
    let longest = if rep.thorough() { 66_000 } else { 13_000 };
    for (p, e) in es.iter().filter(|(p, _)| !p.solo() && crate::gen::wide(p)) {
        let strat = (
            crate::gen::script(p.n(), plan.picks, plan.faults, crate::emit::fam(&p.ps[0].family).timed()),
            0..p.n(),
            0usize..64,
            proptest::prelude::any::<bool>(),
            proptest::prop_oneof![8 => 1100u64..2600, 4 => 2600u64..6500, 1 => 10_400u64..longest],
        )
            .prop_map(|(s, r, k, stall, ms)| {
                if stall && crate::emit::fam(&p.ps[0].family).timed() && plan.faults.1 > 0 {
                    Script { faults: vec![Fault { role: r, step: k, kind: FaultKind::Stall }], ..s }
                } else {
                    Script { slow: Some((r, k, ms)), ..s }
                }
            });
        let mut run = crate::pbt::runner(rep.seed, &format!("{property}/{}/slow", e.id), 1, 0);
        // monitors poll without pause: only a few of them at a time
        let each = if p.ps[0].monitored() { (cases.len() < 12) as usize } else { (240 / es.len().max(1)).clamp(2, 6) };
        for _ in 0..each {
            cases.push((p, e, strat.new_tree(&mut run).expect("tree").current()));
        }
    }
    let case = |c: &(&Prog, &Entry, Script)| json!({"check": c.1.id, "input": {"program": c.0, "script": c.2, "mode": "slow"}});
    for chunk in cases.chunks(300) {
        crate::watch::set_case(&json!({"check": "slow", "batch": chunk.len()}));
        let rs = slow(chunk.iter().map(|(p, e, s)| (*p, e.start, place(p, s), sem_of(p))).collect());
        for (c, r) in chunk.iter().zip(rs) {
            rep.eval();
            match r {
                Ok(st) => {
                    note(rep, c.0, &c.2, &st, "slow participant");
                    if nontrivial(plan, &st) {
                        let pl = place(c.0, &c.2);
                        rep.nontrivial(&(c.1.id, "slow", format!("{pl:?}")), || json!({"protocol": show(c.0), "script": pl, "mode": "slow"}));
                    }
                }
                Err(why) => rep.violation(&format!("[{} slow participant] {why}", c.0.ps[0].family), case(c)),
            }
        }
    }
}

fn nontrivial(plan: Plan, st: &Stats) -> bool {
    if plan.faults.0 > 0 {
        st.faulted > 0
    } else {
        st.steps >= 3
    }
}

fn e_size(g: &Prog) -> usize {
    g.ps.iter().map(p_size).sum()
}

fn p_size(p: &Proto) -> usize {
    p.n() * 10 + p.init.msgs.len() + p.states.iter().map(|s| 3 + s.branches.iter().map(|b| 1 + b.msgs.len()).sum::<usize>()).sum::<usize>()
}

fn tshow(t: &Option<crate::tspec::TSpec>) -> String {
    t.as_ref().map(|t| format!(" {}", t.show())).unwrap_or_default()
}

pub fn show(g: &Prog) -> String {
    if g.ps.len() == 1 {
        return show_one(&g.ps[0]);
    }
    let held: Vec<&str> = (0..g.ps.len()).map(|i| g.ps[i].names[if i == 0 { g.hold.0 } else { g.hold.1 }].as_str()).collect();
    format!("one thread plays {}: {}", held.join(" and "), g.ps.iter().map(show_one).collect::<Vec<_>>().join(" || "))
}

fn show_one(p: &Proto) -> String {
    let br = |b: &Branch| -> String {
        let ms: Vec<String> = b.msgs.iter().map(|m| format!("{}->{}:{}{}", p.names[m.from], p.names[m.to], m.ty, tshow(&m.t))).collect();
        let nx = match b.next {
            Next::End => "end".to_string(),
            Next::State(k) => format!("X{k}"),
        };
        let each: Vec<String> = b.ct.iter().zip(&p.names).map(|(t, n)| format!("{n} {}", t.show())).collect();
        let ts = if each.is_empty() { tshow(&b.t) } else { format!(" ({})", each.join(", ")) };
        format!("{} {nx}{ts}", ms.join("; ")).trim().to_string()
    };
    let mut o = format!("{}({}) {}", p.family, p.names.join(","), br(&p.init));
    for (k, s) in p.states.iter().enumerate() {
        o.push_str(&format!(
            " | X{k}={}: {}",
            p.names[s.chooser],
            s.branches.iter().map(|b| format!("{{{}}}", br(b))).collect::<Vec<_>>().join(" + ")
        ));
    }
    o
}
