//! gen <ID> <tier> [replay-file]: generate programs, build them against /repo, run them.
use proptest::strategy::{Strategy, ValueTree};
use serde_json::{json, Value};
use std::process::Command;
use vlib::ir::Prog;
use vlib::report::Report;
use vlib::ws::Ws;

fn main() {
    let id = std::env::args().nth(1).expect("id");
    let tier = std::env::args().nth(2).unwrap_or("quick".into());
    let replay = std::env::args().nth(3);
    let thorough = tier == "thorough";
    let mut rep = Report::new(&id, vlib::specs::rule(&id));
    let mut protos: Vec<Prog> = vec![];
    if let Some(f) = &replay {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).unwrap();
        match &v["case"]["input"]["program"] {
            // a case that is not about a program
            Value::Null => {
                let (_, cfg) = vlib::specs::programs(&id, false).remove(0);
                let mut run = vlib::pbt::runner(rep.seed, "any", 1, 0);
                protos.push(vlib::gen::prog(cfg).new_tree(&mut run).expect("tree").current());
            }
            p => protos.push(serde_json::from_value(p.clone()).expect("program")),
        }
    } else {
        for (i, (count, cfg)) in vlib::specs::programs(&id, thorough).into_iter().enumerate() {
            let strat = vlib::gen::prog(cfg);
            let mut run = vlib::pbt::runner(rep.seed, &format!("{id}/programs/{i}"), 1, 0);
            for _ in 0..rep.n(count, count) {
                protos.push(strat.new_tree(&mut run).expect("tree").current());
            }
        }
    }
    let ws = Ws {
        id: id.clone(),
        mods: protos.iter().map(vlib::emit::program).collect(),
        entry_ty: "vlib::act::Entry".into(),
        entries: protos
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let close = if p.solo() { format!("Some(m{i}::close_all)") } else { "None".to_string() };
                format!("vlib::act::Entry {{ id: \"m{i}\", proto: {:?}, start: m{i}::start, close: {close} }}", serde_json::to_string(p).unwrap())
            })
            .collect(),
        main: format!("    vlib::suite::main({id:?}, vlib::specs::rule({id:?}), vlib::specs::plan, v, {})", if id == "C16" { "Some(sup::ends::check)" } else { "None" }),
        shards: 8,
    };
    let mut skip: Vec<usize> = vec![];
    let bin = loop {
        match ws.build(&skip) {
            Ok(b) => break b,
            Err(e) => {
                // the compiler running into its recursion limit decides nothing about the program
                let (gave_up, wrong): (Vec<_>, Vec<_>) = e.bad.iter().partition(|(_, m)| m.contains("error[E0275]"));
                if let Some((i, msg)) = wrong.first() {
                    rep.eval();
                    eprintln!("{msg}");
                    rep.violation(
                        &format!("a program written in the documented notation is rejected by the compiler: {}", msg.lines().next().unwrap_or("")),
                        json!({"check": "compile", "input": {"program": protos[*i], "script": {"seed":0,"picks":[],"sched":[0],"faults":[]}, "mode": "solo"}, "error": msg}),
                    );
                }
                if gave_up.is_empty() || skip.len() + gave_up.len() > protos.len() / 4 {
                    eprintln!("{}", e.stderr);
                    eprintln!("{id}: generated programs did not build");
                    std::process::exit(3);
                }
                skip.extend(gave_up.iter().map(|(i, _)| *i));
                eprintln!("{id}: {} programs excluded, the compiler gave up on them (E0275)", gave_up.len());
            }
        }
    };
    let mut c = Command::new(bin);
    c.arg(&id).arg(&tier);
    c.env("VERIF_EXCLUDED", skip.len().to_string());
    if let Some(f) = replay {
        c.env("VERIF_REPLAY", f);
    }
    let code = vlib::guard::run(&id, c);
    ws.remove();
    std::process::exit(code)
}
