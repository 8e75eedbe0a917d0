//! deviate C13 <tier> [replay-file]: programs that deviate from their protocol in one place must not compile.
use proptest::strategy::{Strategy, ValueTree};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use vlib::deviate::{all, Case};
use vlib::emit::deviating;
use vlib::gen::Cfg;
use vlib::ir::Prog;
use vlib::report::{h64, Report};
use vlib::ws::Ws;

fn main() {
    let id = std::env::args().nth(1).expect("id");
    let replay = std::env::args().nth(3);
    let mut rep = Report::new(
        &id,
        "a deviating program whose text differs from the accepted program, distinct by program and deviation, rejected with an error inside it",
    );
    // (program, deviations)
    let mut jobs: Vec<(Prog, Vec<(String, usize, vlib::emit::Dev)>)> = vec![];
    if let Some(f) = &replay {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).unwrap();
        let c: Case = serde_json::from_value(v["case"]["input"].clone()).expect("case");
        jobs.push((c.program, vec![("replayed".into(), c.dev.0, c.dev.1)]));
    } else {
        let gen: Vec<(&'static str, u32)> = vec![("basic", 1), ("recursive", 1), ("cancel", 1), ("rec_and_cancel", 2)];
        let tool: Vec<(&'static str, u32)> = vec![("multi", 2), ("multi_cancel", 2), ("solo", 1), ("solo_cancel", 1)];
        let rest = vec![("binary", 2), ("binary_cancel", 1), ("atmp", 3)];
        let three = vec![("three", 3), ("simple", 2), ("solo3", 1)];
        let lr = vec![("multi_lr", 1), ("three_lr", 1), ("simple_lr", 1), ("atmp_lr", 1)];
        let bcast = vec![("bcast", 1)];
        let inter = vec![("inter", 1), ("atmp_inter", 1)];
        let mut seen: HashMap<String, usize> = HashMap::new();
        let plans: Vec<(u32, Vec<(&'static str, u32)>, (usize, usize), (usize, usize))> = vec![
            (26, gen, (2, 4), (0, 2)),
            (22, tool, (2, 4), (0, 2)),
            (18, rest, (2, 3), (0, 2)),
            (20, three, (3, 3), (0, 2)),
            (10, lr, (2, 3), (1, 1)),
            (8, inter, (2, 3), (0, 1)),
            (12, bcast, (3, 5), (0, 2)),
        ];
        for (i, (count, fams, n, states)) in plans.into_iter().enumerate() {
            let strat = vlib::gen::prog(Cfg { fams, n, states, branches: (1, 3), msgs: (1, 4) });
            let mut run = vlib::pbt::runner(rep.seed, &format!("{id}/programs/{i}"), 1, 0);
            for _ in 0..rep.n(count, count * 4) {
                let g = strat.new_tree(&mut run).expect("tree").current();
                let base = deviating(&g, true, None);
                let salt = h64(&(rep.seed, &base)) as usize % 1000;
                let mut devs: Vec<(String, usize, vlib::emit::Dev)> = (0..g.ps.len())
                    .flat_map(|w| all(&g, w, salt).into_iter().map(move |(c, d)| (c, w, d)))
                    .collect();
                // the rarest classes first, in a pseudo-random order within a class
                let keep = if rep.thorough() { 16 } else { 9 };
                let mut chosen = vec![];
                devs.sort_by_key(|(c, w, d)| h64(&(salt, c, w, format!("{d:?}"))));
                while chosen.len() < keep && !devs.is_empty() {
                    let fam = &g.ps[0].family;
                    let at = (0..devs.len())
                        .min_by_key(|i| (seen.get(&devs[*i].0).copied().unwrap_or(0) / 4, seen.get(&format!("{fam}/{}", devs[*i].0)).copied().unwrap_or(0)))
                        .unwrap();
                    let (c, w, d) = devs.remove(at);
                    if deviating(&g, true, Some((w, &d))) == base {
                        continue;
                    }
                    *seen.entry(c.clone()).or_insert(0) += 1;
                    *seen.entry(format!("{fam}/{c}")).or_insert(0) += 1;
                    chosen.push((c, w, d));
                }
                jobs.push((g, chosen));
            }
        }
    }
    // module 2k.. : the program itself followed by its deviations
    let mut mods = vec![];
    let mut what: Vec<(usize, Option<usize>)> = vec![];
    for (j, (g, devs)) in jobs.iter().enumerate() {
        mods.push(deviating(g, true, None));
        what.push((j, None));
        for (k, (_, w, d)) in devs.iter().enumerate() {
            mods.push(deviating(g, true, Some((*w, d))));
            what.push((j, Some(k)));
        }
    }
    let n = mods.len();
    let ws = Ws { id: id.clone(), mods, entry_ty: "u8".into(), entries: vec!["0".into(); n], main: String::new(), shards: 8 };
    let mut bad: BTreeMap<usize, String> = BTreeMap::new();
    loop {
        // errors found early (name resolution, exhaustiveness) hide later ones: repeat until nothing new is found
        let skip: Vec<usize> = bad.keys().copied().collect();
        match ws.check(&skip) {
            Ok(b) if b.is_empty() => break,
            Ok(b) => bad.extend(b),
            Err(e) => {
                eprintln!("{e}");
                eprintln!("{id}: inconclusive, errors outside the generated programs");
                std::process::exit(3);
            }
        }
        if bad.len() == n {
            break;
        }
    }
    let gave_up = |m: &str| m.contains("error[E0275]");
    let mut excluded = 0;
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| ws.mods[*i].len());
    for i in order {
        let (j, dev) = what[i];
        let (g, devs) = &jobs[j];
        let base = what.iter().position(|w| *w == (j, None)).unwrap();
        rep.eval();
        match (dev, bad.get(&i)) {
            (None, Some(m)) if gave_up(m) => excluded += 1,
            (None, Some(m)) => {
                eprintln!("{m}");
                rep.violation(
                    &format!("a program that follows its protocol is rejected: {}", m.lines().next().unwrap_or("")),
                    json!({"check": "deviate", "input": Case { program: g.clone(), dev: (0, devs[0].2.clone()) }, "error": m}),
                )
            }
            (None, None) => rep.class("program accepted"),
            (Some(_), _) if bad.get(&base).is_some_and(|m| gave_up(m)) => {}
            (Some(k), None) => {
                let (c, w, d) = &devs[k];
                rep.violation(
                    &format!("[{}] accepted by the compiler: {c} ({} in segment {:?}, action {})", g.ps[0].family, g.ps[*w].names[d.role], d.seg, d.at),
                    json!({"check": "deviate", "input": Case { program: g.clone(), dev: (*w, d.clone()) }, "protocol": vlib::suite::show(g)}),
                )
            }
            (Some(k), Some(m)) => {
                let (c, w, d) = &devs[k];
                if gave_up(m) {
                    rep.class("deviation on which the compiler gave up (not counted)");
                    continue;
                }
                rep.class(&format!("rejected: {c}"));
                rep.class(&format!("family {}", g.ps[0].family));
                let code: String = m.lines().next().unwrap_or("").chars().take(11).collect();
                rep.class(&format!("diagnostic {code}"));
                rep.nontrivial(&format!("{g:?}{w}{d:?}"), || {
                    json!({"protocol": vlib::suite::show(g), "deviation": c, "participant": g.ps[*w].names[d.role], "segment": d.seg, "action": d.at, "diagnostic": m.lines().next()})
                });
            }
        }
    }
    rep.extra.insert("programs".into(), json!(jobs.len()));
    rep.extra.insert("programs_the_compiler_gave_up_on".into(), json!(excluded));
    ws.remove();
    rep.finish()
}
