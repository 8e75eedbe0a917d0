//! A check runs in a child process, so that a library that takes its whole process down is reported with the case
//! that was running instead of ending the check without an answer.
use crate::report::{verif_dir, Report};
use std::os::unix::process::ExitStatusExt;
use std::process::Command;

pub fn supervised() -> bool {
    std::env::var("VERIF_LAST").is_ok()
}

/// Runs the check in `c`; the exit code of the whole.
pub fn run(id: &str, mut c: Command) -> i32 {
    let dir = verif_dir().join("target");
    let _ = std::fs::create_dir_all(&dir);
    let last = dir.join(format!("last-{id}-{}.json", std::process::id()));
    let st = c.env("VERIF_LAST", &last).status().expect("run");
    let text = std::fs::read_to_string(&last).unwrap_or_default();
    let _ = std::fs::remove_file(&last);
    if let Some(code) = st.code() {
        return code;
    }
    let sig = st.signal().unwrap_or(0);
    let case: Option<serde_json::Value> = serde_json::from_str(&text).ok();
    // aborted (a panic that cannot unwind, an overflowing stack) or an invalid access; anything else came from outside
    if let (4 | 6 | 7 | 8 | 11, Some(case)) = (sig, case) {
        let mut rep = Report::new(id, crate::specs::rule(id));
        rep.eval();
        rep.violation(&format!("the whole process was taken down by signal {sig} while this case ran"), case);
    }
    eprintln!("{id}: the check was ended by signal {sig}");
    5
}
