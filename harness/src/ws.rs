//! Builds a throw-away cargo workspace of generated modules against /repo.
use crate::report::verif_dir;
use serde_json::Value;
use std::path::PathBuf;
use std::process::Command;

pub struct Ws {
    pub id: String,
    /// body of each generated module; every module provides the function named by `entry`
    pub mods: Vec<String>,
    /// type of the registry entries and the expression building entry `i` (uses `m{i}` for the module)
    pub entry_ty: String,
    pub entries: Vec<String>,
    /// body of main, with the registry in `v`
    pub main: String,
    pub shards: usize,
}

pub struct CompileError {
    /// generated modules with errors and their first message
    pub bad: Vec<(usize, String)>,
    pub stderr: String,
}

pub fn root() -> PathBuf {
    std::env::var("VERIF_TARGET").map(PathBuf::from).unwrap_or(verif_dir().join("target"))
}

impl Ws {
    pub fn dir(&self) -> PathBuf {
        root().join("gen").join(&self.id)
    }
    fn pkg(&self) -> String {
        format!("gen-{}", self.id.to_lowercase().replace('_', "-"))
    }
    pub fn remove(&self) {
        if std::env::var("VERIF_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(self.dir());
        }
    }
    fn write(&self, skip: &[usize]) {
        self.write_in(skip, self.shards)
    }
    fn write_in(&self, skip: &[usize], shards: usize) {
        let ws = self.dir();
        let _ = std::fs::remove_dir_all(&ws);
        let live: Vec<usize> = (0..self.mods.len()).filter(|i| !skip.contains(i)).collect();
        let shards = shards.min(live.len()).max(1);
        // spread over shards by estimated size
        let mut load = vec![0usize; shards];
        let mut order = live.clone();
        order.sort_by_key(|i| std::cmp::Reverse(self.mods[*i].len()));
        let mut of: Vec<Vec<usize>> = vec![vec![]; shards];
        for i in order {
            let s = (0..shards).min_by_key(|s| load[*s]).unwrap();
            load[s] += self.mods[i].len() + 2000;
            of[s].push(i);
        }
        let hv = verif_dir();
        let deps = format!(
            "sup = {{ path = \"{0}/sup\", features = [\"{1}\"] }}\nharness = {{ path = \"{0}/harness\" }}\nmpstthree = {{ path = \"/repo\", features = [\"full\", \"top_down_nuscr\", \"baking_atmp_interleaved\", \"baking_interleaved\"] }}\nmpst-seq-proc = {{ path = \"/repo/mpst_seq_proc\" }}\ncrossbeam-channel = \"0.5\"\neither = \"1\"\n",
            hv.display(),
            self.feature()
        );
        let mut members = vec!["\"main\"".to_string()];
        let mut main = String::from("#![allow(warnings)]\nfn main() {\n    let mut v = vec![];\n");
        let mut main_deps = deps.clone();
        for (s, ids) in of.iter().enumerate() {
            let d = ws.join(format!("s{s}"));
            std::fs::create_dir_all(d.join("src")).unwrap();
            members.push(format!("\"s{s}\""));
            main_deps.push_str(&format!("s{s} = {{ path = \"../s{s}\" }}\n"));
            main.push_str(&format!("    v.extend(s{s}::entries());\n"));
            std::fs::write(
                d.join("Cargo.toml"),
                format!("[package]\nname = \"s{s}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[lib]\ntest = false\ndoctest = false\n[dependencies]\n{deps}"),
            )
            .unwrap();
            let mut ids = ids.clone();
            ids.sort();
            let mut l = String::from("#![allow(warnings)]\n#![recursion_limit = \"512\"]\npub use sup::pre;\n");
            let mut ent = format!("pub fn entries() -> Vec<{}> {{\n    vec![\n", self.entry_ty);
            for i in ids {
                l.push_str(&format!("mod m{i};\n"));
                std::fs::write(d.join("src").join(format!("m{i}.rs")), &self.mods[i]).unwrap();
                ent.push_str(&format!("        {},\n", self.entries[i]));
            }
            ent.push_str("    ]\n}\n");
            std::fs::write(d.join("src/lib.rs"), l + &ent).unwrap();
        }
        main.push_str(&self.main);
        main.push_str("\n}\n");
        std::fs::create_dir_all(ws.join("main/src")).unwrap();
        std::fs::write(ws.join("main/src/main.rs"), main).unwrap();
        std::fs::write(
            ws.join("main/Cargo.toml"),
            format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\n{main_deps}", self.pkg()),
        )
        .unwrap();
        std::fs::write(
            ws.join("Cargo.toml"),
            format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n[profile.dev]\ndebug = 0\nincremental = false\n[profile.dev.package.regex-automata]\nopt-level = 2\n[profile.dev.package.regex-syntax]\nopt-level = 2\n", members.join(", ")),
        )
        .unwrap();
        std::fs::copy(hv.join("gen.lock"), ws.join("Cargo.lock")).unwrap();
    }
    fn cargo_within(&self, seconds: u32, args: &[&str]) -> std::process::Output {
        // a macro that expands without end must not leave the check without an answer
        let mut c = Command::new("bash");
        c.args(["-c", "ulimit -St \"$0\"; exec cargo \"$@\""]).arg(seconds.to_string());
        c.args(args).current_dir(self.dir()).env("CARGO_TARGET_DIR", root().join("gt"));
        c.output().expect("cargo")
    }
    fn cargo(&self, args: &[&str]) -> std::process::Output {
        // a whole check of this kind needs about a minute of it
        self.cargo_within(if self.mods.len() > 120 { 900 } else { 150 }, args)
    }
    /// The compiler came to no end or crashed: the modules it does that on.
    fn crashed(&self, stderr: &[u8], how: &str, skip: &[usize]) -> Vec<(usize, String)> {
        let text = String::from_utf8_lossy(stderr).into_owned();
        let sig = |t: &str| ["signal: 24", "signal: 11", "signal: 6", "signal: 7"].into_iter().find(|s| t.contains(s));
        if sig(&text).is_none() {
            return vec![];
        }
        // every module on its own, until one shows it
        self.write_in(skip, self.mods.len());
        let out = self.cargo_within(25, &[how, "--offline"]);
        let alone = String::from_utf8_lossy(&out.stderr).into_owned();
        let (of, what) = if sig(&alone).is_some() { (&alone, &alone) } else { (&text, &text) };
        let shard = of.split("could not compile `s").nth(1).and_then(|r| r.split('`').next());
        let lib = shard.and_then(|s| std::fs::read_to_string(self.dir().join(format!("s{s}/src/lib.rs"))).ok());
        let i = lib.and_then(|l| l.split("mod m").nth(1).and_then(|r| r.split(';').next().and_then(|n| n.parse().ok())));
        let signal = sig(what).unwrap_or("a signal");
        vec![(i.unwrap_or(0), format!("the compiler was ended by {signal} on this program\n{what}"))]
    }
    fn feature(&self) -> String {
        match self.id.to_lowercase().as_str() {
            f @ ("c04" | "c16" | "c20" | "c21" | "c30" | "c31" | "c40" | "c41") => f.into(),
            _ => "default".into(),
        }
    }
    /// The library must build, or there is nothing to decide. The fixed programs over its interface must then too.
    fn lib(&self, how: &str) {
        let sup = self.cargo(&[how, "--offline", "--message-format=json", "-p", "sup"]);
        if sup.status.success() {
            return;
        }
        if let Some(m) = fixed_program(&sup.stdout) {
            if self.cargo(&[how, "--offline", "-p", "mpstthree"]).status.success() {
                eprintln!("{m}");
                crate::report::Report::new(&self.id, "").violation(
                    &format!("a program that uses the library's interface is rejected by the compiler: {}", m.lines().next().unwrap_or("")),
                    serde_json::json!({"check": "support", "error": m}),
                );
            }
        }
        eprintln!("{}", String::from_utf8_lossy(&sup.stderr));
        eprintln!("{}: the library does not build", self.id);
        std::process::exit(3);
    }
    /// Builds everything and returns the binary.
    pub fn build(&self, skip: &[usize]) -> Result<PathBuf, CompileError> {
        self.write(skip);
        self.lib("build");
        let out = self.cargo(&["build", "--offline", "--keep-going", "--message-format=json"]);
        if out.status.success() {
            return Ok(root().join("gt/debug").join(self.pkg()));
        }
        let mut b = bad(&out.stdout);
        if b.is_empty() {
            b = self.crashed(&out.stderr, "build", skip);
        }
        Err(CompileError { bad: b, stderr: String::from_utf8_lossy(&out.stderr).into_owned() })
    }
    /// Type-checks every module but the skipped ones and returns the ones with errors.
    pub fn check(&self, skip: &[usize]) -> Result<Vec<(usize, String)>, String> {
        self.write(skip);
        self.lib("check");
        let out = self.cargo(&["check", "--offline", "--keep-going", "--message-format=json"]);
        let mut b = bad(&out.stdout);
        if !out.status.success() && b.is_empty() {
            b = self.crashed(&out.stderr, "check", skip);
        }
        if !out.status.success() && b.is_empty() {
            return Err(String::from_utf8_lossy(&out.stderr).into_owned());
        }
        Ok(b)
    }
}

/// The first error in the support crate.
fn fixed_program(stdout: &[u8]) -> Option<String> {
    String::from_utf8_lossy(stdout).lines().find_map(|l| {
        let v: Value = serde_json::from_str(l).ok()?;
        let own = v["reason"] == "compiler-message" && v["message"]["level"] == "error" && v["target"]["name"] == "sup";
        own.then(|| v["message"]["rendered"].as_str().unwrap_or("").to_string())
    })
}

fn bad(stdout: &[u8]) -> Vec<(usize, String)> {
    let mut bad: Vec<(usize, String)> = vec![];
    for l in String::from_utf8_lossy(stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["reason"] == "compiler-message" && v["message"]["level"] == "error" {
            let pkg = v["target"]["name"].as_str().unwrap_or("");
            if !(pkg.starts_with('s') && pkg[1..].parse::<u32>().is_ok()) {
                continue;
            }
            let file = v["message"]["spans"]
                .as_array()
                .and_then(|a| a.iter().find(|s| s["is_primary"] == true).or(a.first()))
                .and_then(root_file)
                .unwrap_or_default();
            let i = file
                .rsplit('/')
                .next()
                .and_then(|f| f.strip_prefix('m'))
                .and_then(|f| f.strip_suffix(".rs"))
                .and_then(|n| n.parse::<usize>().ok());
            if let Some(i) = i {
                let msg = v["message"]["rendered"].as_str().unwrap_or("").to_string();
                match bad.iter_mut().find(|(j, _)| *j == i) {
                    // prefer a message that is not the compiler giving up
                    Some((_, m)) if m.contains("E0275") && !msg.contains("E0275") => *m = msg,
                    Some(_) => {}
                    None => bad.push((i, msg)),
                }
            }
        }
    }
    bad
}

/// The outermost source file an error span comes from (macro expansions point into the library).
fn root_file(s: &Value) -> Option<String> {
    let mut s = s;
    loop {
        let f = s["file_name"].as_str()?;
        if f.rsplit('/').next().map(|x| x.starts_with('m') && x.len() > 4 && x[1..x.len() - 3].parse::<u32>().is_ok()).unwrap_or(false) {
            return Some(f.to_string());
        }
        if s["expansion"].is_object() {
            s = &s["expansion"]["span"];
        } else {
            return Some(f.to_string());
        }
    }
}
