//! What is generated for each property decided by generated programs.
use crate::gen::Cfg;
use crate::suite::Plan;

pub fn rule(id: &str) -> &'static str {
    match id {
        "C10" => "a run with at least three communication steps, distinct by program, schedule and payload seed",
        "C17" => "a run with at least three steps besides the monitor's, with a cancellation at a generated point or none, distinct by program, point and schedule",
        "C11" => "a run with at least three steps in a program with choices, distinct by program, picks and schedule",
        "C02" | "C12" => "a run in which the injected fault was reached, distinct by program, fault point and schedule",
        _ => "a run with at least three communication steps",
    }
}

pub fn plan(id: &str, thorough: bool) -> Plan {
    let f = if thorough { 6 } else { 1 };
    match id {
        "C11" => Plan { solo: 60 * f, threaded: 25 * f, picks: 8, faults: (0, 0) },
        "C22" => Plan { solo: 120 * f, threaded: 60 * f, picks: 5, faults: (0, 1) },
        "C17" => Plan { solo: 60 * f, threaded: 60 * f, picks: 5, faults: (0, 1) },
        "C14" | "C15" | "C16" => Plan { solo: 80 * f, threaded: 40 * f, picks: 5, faults: (0, 1) },
        "C02" | "C12" => Plan { solo: 120 * f, threaded: 60 * f, picks: 4, faults: (1, 2) },
        _ => Plan { solo: 60 * f, threaded: 40 * f, picks: 5, faults: (0, 0) },
    }
}

/// (how many programs, generator settings)
pub fn programs(id: &str, thorough: bool) -> Vec<(u32, Cfg)> {
    let f = if thorough { 5 } else { 1 };
    let gen: Vec<(&'static str, u32)> = vec![("basic", 2), ("recursive", 3), ("cancel", 2), ("rec_and_cancel", 4)];
    match id {
        "C10" => vec![
            (40 * f, Cfg { fams: gen.clone(), n: (2, 5), states: (0, 2), branches: (1, 3), msgs: (0, 7) }),
            (6 * f, Cfg { fams: gen.clone(), n: (6, 9), states: (0, 1), branches: (2, 2), msgs: (2, 9) }),
            (f, Cfg { fams: vec![("cancel", 1), ("rec_and_cancel", 1)], n: (10, 12), states: (0, 1), branches: (2, 2), msgs: (4, 12) }),
        ],
        "C11" => vec![
            (32 * f, Cfg { fams: gen.clone(), n: (2, 5), states: (1, 4), branches: (1, 5), msgs: (0, 4) }),
            (5 * f, Cfg { fams: gen.clone(), n: (6, 8), states: (1, 2), branches: (2, 3), msgs: (0, 3) }),
            (3 * f, Cfg { fams: gen.clone(), n: (2, 4), states: (1, 2), branches: (10, 14), msgs: (0, 2) }),
            (f, Cfg { fams: vec![("recursive", 1), ("rec_and_cancel", 1)], n: (10, 11), states: (1, 1), branches: (2, 2), msgs: (0, 4) }),
        ],
        "C12" => vec![
            (36 * f, Cfg { fams: gen.clone(), n: (2, 5), states: (0, 3), branches: (1, 3), msgs: (1, 6) }),
            (4 * f, Cfg { fams: gen.clone(), n: (6, 7), states: (0, 1), branches: (2, 2), msgs: (2, 6) }),
        ],
        "C14" => {
            let m: Vec<(&'static str, u32)> = vec![("multi", 3), ("multi_cancel", 3)];
            vec![
                (24 * f, Cfg { fams: m.clone(), n: (2, 5), states: (0, 3), branches: (1, 4), msgs: (0, 6) }),
                (8 * f, Cfg { fams: vec![("simple", 1)], n: (3, 3), states: (0, 3), branches: (1, 4), msgs: (0, 6) }),
                (8 * f, Cfg { fams: vec![("simple_lr", 1)], n: (3, 3), states: (1, 3), branches: (2, 2), msgs: (0, 4) }),
                (10 * f, Cfg { fams: vec![("multi_lr", 1), ("multi_cancel_lr", 1)], n: (2, 5), states: (1, 3), branches: (2, 2), msgs: (0, 4) }),
                (4 * f, Cfg { fams: m.clone(), n: (6, 8), states: (0, 1), branches: (2, 2), msgs: (2, 6) }),
                (2 * f, Cfg { fams: m.clone(), n: (2, 4), states: (1, 2), branches: (10, 12), msgs: (0, 2) }),
                (f, Cfg { fams: m.clone(), n: (10, 11), states: (0, 1), branches: (2, 2), msgs: (2, 8) }),
            ]
        }
        "C01" => vec![
            (30 * f, Cfg { fams: vec![("binary", 2), ("binary_cancel", 1)], n: (2, 2), states: (0, 4), branches: (1, 5), msgs: (0, 7) }),
            (10 * f, Cfg { fams: vec![("binary", 2), ("binary_cancel", 1)], n: (2, 2), states: (1, 5), branches: (2, 2), msgs: (0, 3) }),
            (4 * f, Cfg { fams: vec![("binary", 2), ("binary_cancel", 1)], n: (2, 2), states: (0, 1), branches: (1, 2), msgs: (10, 30) }),
            (3 * f, Cfg { fams: vec![("binary", 2), ("binary_cancel", 1)], n: (2, 2), states: (1, 2), branches: (10, 16), msgs: (0, 3) }),
        ],
        "C02" => vec![
            (40 * f, Cfg { fams: vec![("binary", 1), ("binary_cancel", 1)], n: (2, 2), states: (0, 4), branches: (1, 4), msgs: (1, 7) }),
            (4 * f, Cfg { fams: vec![("binary", 1), ("binary_cancel", 1)], n: (2, 2), states: (0, 1), branches: (1, 2), msgs: (10, 20) }),
        ],
        "C15" => vec![
            (26 * f, Cfg { fams: vec![("three", 1)], n: (3, 3), states: (0, 4), branches: (1, 4), msgs: (0, 6) }),
            (2 * f, Cfg { fams: vec![("three", 1)], n: (3, 3), states: (1, 2), branches: (10, 12), msgs: (0, 2) }),
            (16 * f, Cfg { fams: vec![("three_lr", 1)], n: (3, 3), states: (1, 3), branches: (2, 2), msgs: (0, 4) }),
        ],
        "C16" => vec![
            (12 * f, Cfg { fams: vec![("solo", 1), ("solo_cancel", 1)], n: (2, 5), states: (0, 3), branches: (1, 3), msgs: (0, 6) }),
            (8 * f, Cfg { fams: vec![("solo3", 1)], n: (3, 3), states: (0, 3), branches: (1, 3), msgs: (0, 6) }),
            (6 * f, Cfg { fams: vec![("solo_lr", 1), ("solo_cancel_lr", 1), ("solo3_lr", 1)], n: (2, 4), states: (1, 3), branches: (2, 2), msgs: (0, 4) }),
            (14 * f, Cfg { fams: vec![("inter", 3), ("atmp_inter", 2)], n: (2, 4), states: (0, 2), branches: (1, 3), msgs: (0, 6) }),
        ],
        "C17" => vec![
            (30 * f, Cfg { fams: vec![("bcast", 1)], n: (3, 5), states: (0, 3), branches: (1, 4), msgs: (0, 6) }),
            (8 * f, Cfg { fams: vec![("bcast", 1)], n: (3, 5), states: (0, 0), branches: (1, 1), msgs: (3, 9) }),
            (4 * f, Cfg { fams: vec![("bcast", 1)], n: (6, 7), states: (0, 1), branches: (2, 2), msgs: (2, 6) }),
            (2 * f, Cfg { fams: vec![("bcast", 1)], n: (3, 4), states: (1, 1), branches: (10, 12), msgs: (0, 2) }),
            (f, Cfg { fams: vec![("bcast", 1)], n: (10, 10), states: (0, 1), branches: (2, 2), msgs: (2, 6) }),
        ],
        "C22" => vec![
            (24 * f, Cfg { fams: vec![("atmp", 1)], n: (2, 4), states: (0, 3), branches: (1, 3), msgs: (0, 5) }),
            (10 * f, Cfg { fams: vec![("atmp_lr", 1)], n: (2, 4), states: (1, 3), branches: (2, 2), msgs: (0, 4) }),
            (3 * f, Cfg { fams: vec![("atmp", 1)], n: (5, 6), states: (0, 1), branches: (2, 2), msgs: (1, 4) }),
            (2 * f, Cfg { fams: vec![("atmp", 1)], n: (2, 3), states: (1, 1), branches: (10, 12), msgs: (0, 2) }),
            (f, Cfg { fams: vec![("atmp", 1)], n: (10, 10), states: (0, 1), branches: (2, 2), msgs: (1, 4) }),
        ],
        _ => panic!("no generated programs for {id}"),
    }
}
