//! gent <ID> <tier> [replay-file]: checks over generated types.
use proptest::strategy::{Strategy, ValueTree};
use serde_json::Value;
use std::process::Command;
use vlib::report::Report;
use vlib::tspec::{tspec, TSpec};
use vlib::types::World;
use vlib::ws::Ws;

fn main() {
    let id = std::env::args().nth(1).expect("id");
    let tier = std::env::args().nth(2).unwrap_or("quick".into());
    let replay = std::env::args().nth(3);
    let rep = Report::new(&id, "");
    let case: Option<Value> =
        replay.as_ref().map(|f| serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("replay"));
    let mut worlds: Vec<World> = vec![];
    let (mods, entry_ty, entries, main) = match id.as_str() {
        "C20" | "C21" => {
            let mut specs: Vec<TSpec> = vec![];
            if let Some(v) = &case {
                specs.push(serde_json::from_value(v["case"]["input"]["spec"].clone()).expect("spec"));
            } else {
                let mut run = vlib::pbt::runner(rep.seed, "timed/windows", 1, 0);
                let n = rep.n(160, 600) as usize;
                while specs.len() < n {
                    let s = tspec().new_tree(&mut run).unwrap().current();
                    if !specs.contains(&s) {
                        specs.push(s);
                    }
                }
            }
            let mods = specs
                .iter()
                .map(|s| {
                    format!(
                        "pub const SPEC: &str = {:?};\npub fn run(w: sup::timed::What, p: sup::timed::Peer, v: u64, c: &mut std::collections::HashMap<char, std::time::Instant>) -> sup::timed::Outcome {{\n    sup::timed::run::<{}>(w, p, v, c)\n}}\n",
                        serde_json::to_string(s).unwrap(),
                        s.rust()
                    )
                })
                .collect::<Vec<_>>();
            let entries = (0..specs.len()).map(|i| format!("sup::timed::Entry {{ spec: m{i}::SPEC, run: m{i}::run }}")).collect();
            (mods, "sup::timed::Entry", entries, format!("    sup::timed::main({id:?}, v)"))
        }
        "C04" => {
            if let Some(v) = &case {
                worlds.push(serde_json::from_value(v["case"]["input"].clone()).expect("world"));
            } else {
                for (kind, count) in [(0u8, 8), (1, 14), (2, 10), (3, 8)] {
                    let mut run = vlib::pbt::runner(rep.seed, &format!("types/{kind}"), 1, 0);
                    let strat = vlib::types::world(kind, 14);
                    for _ in 0..rep.n(count, count * 8) {
                        worlds.push(strat.new_tree(&mut run).unwrap().current());
                    }
                }
            }
            let mods: Vec<String> = worlds.iter().map(|w| w.module()).collect();
            let entries = (0..worlds.len()).map(|i| format!("sup::types::Entry {{ world: m{i}::WORLD, checks: m{i}::CHECKS }}")).collect();
            (mods, "sup::types::Entry", entries, "    sup::types::main(v)".to_string())
        }
        _ => panic!("unknown property {id}"),
    };
    let ws = Ws { id: id.clone(), mods, entry_ty: entry_ty.into(), entries, main, shards: 8 };
    let bin = match ws.build(&[]) {
        Ok(b) => b,
        Err(e) => {
            for (i, m) in e.bad.iter().take(3) {
                eprintln!("module {i}: {m}");
            }
            if let (Some((i, m)), Some(w)) = (e.bad.first(), worlds.get(e.bad.first().map_or(0, |b| b.0))) {
                let mut rep = rep;
                rep.eval();
                rep.violation(
                    &format!("module {i}: types the library should accept are rejected: {}", m.lines().next().unwrap_or("")),
                    serde_json::json!({"check": "types", "input": w, "error": m}),
                );
            }
            eprintln!("{}", e.stderr);
            eprintln!("{id}: generated modules did not build");
            std::process::exit(3);
        }
    };
    let mut c = Command::new(bin);
    c.arg(&id).arg(&tier);
    if let Some(f) = replay {
        c.env("VERIF_REPLAY", f);
    }
    let code = vlib::guard::run(&id, c);
    ws.remove();
    std::process::exit(code)
}
