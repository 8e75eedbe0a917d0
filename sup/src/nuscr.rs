//! C30 and C31: the translation of timed global protocol files.
use mpstthree::top_down_nuscr::generator::generator;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use vlib::report::Report;

// ---------------------------------------------------------------- model

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Msg {
    from: usize,
    to: usize,
    label: usize,
    clock: usize,
    lo: i128,
    lo_in: bool,
    hi: i128,
    hi_in: bool,
    reset: Option<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Item {
    M(Msg),
    Rec,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Branch {
    msgs: Vec<Msg>,
    /// which loop to continue with
    cont: Option<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Proto {
    name: String,
    roles: Vec<String>,
    /// label, payload (0: none)
    labels: Vec<(String, usize)>,
    pre: Vec<Item>,
    choice: Option<(usize, Vec<Branch>)>,
    style: u64,
}
impl Proto {
    fn loops(&self) -> usize {
        self.pre.iter().filter(|i| **i == Item::Rec).count()
    }
    /// the items replayed by `continue` with loop `l`
    fn since(&self, l: usize) -> &[Item] {
        let mut k = 0;
        for (i, it) in self.pre.iter().enumerate() {
            if *it == Item::Rec {
                if k == l {
                    return &self.pre[i..];
                }
                k += 1;
            }
        }
        &[]
    }
    fn msgs_since(&self, l: usize) -> Vec<&Msg> {
        self.since(l).iter().filter_map(|i| if let Item::M(m) = i { Some(m) } else { None }).collect()
    }
}
const CLOCKS: &[&str] = &["a", "b", "c", "x", "Z"];
const PAYLOADS: &[(&str, &str)] = &[("", ""), ("payload", "Payload"), ("int", "Int"), ("stri", "Stri"), ("some_data", "SomeData"), ("Price", "Price"), ("BigNumber", "BigNumber")];
const LABELS: &[(&str, &str)] = &[
    ("Test1", "Test1"), ("Ask", "Ask"), ("quote", "Quote"), ("new_offer", "NewOffer"), ("GetMode", "GetMode"), ("Ok2", "Ok2"), ("done", "Done"), ("helloWorld", "HelloWorld"), ("Up", "Up"),
];
const ROLES: &[&str] = &["A", "B", "C", "D", "Client", "Server", "Z", "Auth", "S", "Ab", "Relay", "Q", "P1", "P10", "Node_2", "broker"];
const LOOPS: &[&str] = &["Loop", "Fib", "L", "Loop2", "X", "loop_1", "Retry10"];

fn title(label: &str) -> String {
    LABELS.iter().find(|l| l.0 == label).map(|l| l.1.to_string()).unwrap_or(label.into())
}

// ---------------------------------------------------------------- text

struct R(u64);
impl R {
    fn n(&mut self, k: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % k
    }
    fn sp(&mut self) -> &'static str {
        if self.n(12) == 0 { "   " } else { " " }
    }
    fn opt(&mut self) -> &'static str {
        match self.n(10) {
            0 => " ",
            1 => "  ",
            _ => "",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    None,
    UnknownSender(usize),
    UnknownReceiver(usize),
    SelfMessage(usize),
    UnknownChooser,
    MissingClose,
    ExtraClose,
    ExtraOpen(usize),
    UnknownLoop,
    Nested,
    NoHeader,
    Untimed,
    SecondHeader,
    Huge(usize, bool),
    Garbage(usize, u8),
    Cut(usize, u8),
    StrayOr(usize),
    Empty,
    Missing,
}

fn message(p: &Proto, m: &Msg, r: &mut R) -> String {
    let (l, pay) = &p.labels[m.label];
    let reset = m.reset.map(|c| CLOCKS[c]).unwrap_or("");
    format!(
        "{l}({}){}from{}{}{}to{}{}{}within{}{}{}{}{};{}{}{}{}{}using{}{}{}and{}resetting{}({reset}){};",
        PAYLOADS[*pay].0,
        r.sp(), r.sp(), p.roles[m.from], r.sp(), r.sp(), p.roles[m.to], r.sp(), r.sp(),
        if m.lo_in { "[" } else { "]" }, r.opt(), m.lo, r.opt(), r.opt(), m.hi, r.opt(),
        if m.hi_in { "]" } else { "[" }, r.sp(), r.sp(), CLOCKS[m.clock], r.sp(), r.sp(), r.sp(), r.opt(),
    )
}

/// the lines of the file; the plain lines of the untimed protocol beside them
pub fn lines(p: &Proto) -> Vec<(String, String)> {
    lines_n(p, p.roles.len())
}
/// only the first `shown` participants are declared
fn lines_n(p: &Proto, shown: usize) -> Vec<(String, String)> {
    let mut r = R(p.style);
    let mut v: Vec<(String, String)> = vec![];
    let mut ind = 1usize;
    let tidy = p.style % 3 == 0;
    let pad = |ind: usize| "    ".repeat(ind);
    let roles: Vec<String> = p.roles[..shown].iter().map(|x| format!("role{}{x}", r.sp())).collect();
    let open = if !tidy && r.n(4) == 0 { "" } else { " {" };
    let hdr = format!("global{}protocol{}{}({})", r.sp(), r.sp(), p.name, roles.join(", "));
    v.push((format!("timed {hdr}{open}"), format!("{hdr}{open}")));
    let mut push = |s: String| v.push((s.clone(), s));
    if open.is_empty() {
        push("{".into());
    }
    let plain = |m: &Msg| {
        let (l, pay) = &p.labels[m.label];
        format!("{l}({}) from {} to {};", PAYLOADS[*pay].0, p.roles[m.from], p.roles[m.to])
    };
    let mut out: Vec<(String, String)> = vec![];
    let mut k = 0;
    for it in &p.pre {
        match it {
            Item::M(m) => out.push((format!("{}{}", pad(ind), message(p, m, &mut r)), plain(m))),
            Item::Rec => {
                let l = LOOPS[k];
                k += 1;
                if !tidy && r.n(4) == 0 {
                    out.push((format!("{}rec {l}", pad(ind)), format!("rec {l}")));
                    out.push((format!("{}{{", pad(ind)), "{".into()));
                } else {
                    out.push((format!("{}rec{}{l} {{", pad(ind), r.sp()), format!("rec {l} {{")));
                }
                ind += 1;
            }
        }
        if !tidy && r.n(15) == 0 {
            let l = ["", "   ", "    // a note"][r.n(3) as usize];
            out.push((l.into(), l.into()));
        }
    }
    if let Some((c, bs)) = &p.choice {
        if tidy || r.n(2) == 0 {
            out.push((format!("{}choice at {}", pad(ind), p.roles[*c]), format!("choice at {}", p.roles[*c])));
            out.push((format!("{}{{", pad(ind)), "{".into()));
        } else {
            out.push((format!("{}choice{}at{}{} {{", pad(ind), r.sp(), r.sp(), p.roles[*c]), format!("choice at {} {{", p.roles[*c])));
        }
        for (i, b) in bs.iter().enumerate() {
            if i > 0 {
                out.push((format!("{}}}{}or{}{{", pad(ind), r.sp(), r.sp()), "} or {".into()));
            }
            for m in &b.msgs {
                out.push((format!("{}{}", pad(ind + 1), message(p, m, &mut r)), plain(m)));
            }
            if !tidy && r.n(8) == 0 {
                out.push((String::new(), String::new()));
            }
            if let Some(l) = b.cont {
                out.push((format!("{}continue{}{}{};", pad(ind + 1), r.sp(), LOOPS[l], r.opt()), format!("continue {};", LOOPS[l])));
            }
        }
        out.push((format!("{}}}", pad(ind)), "}".into()));
    }
    while ind > 0 {
        ind -= 1;
        out.push((format!("{}}}", pad(ind)), "}".into()));
    }
    v.extend(out);
    v
}

pub fn text(p: &Proto, f: &Fault) -> Option<String> {
    let mut q = p.clone();
    let mut all: Vec<&mut Msg> = vec![];
    for i in q.pre.iter_mut() {
        if let Item::M(m) = i {
            all.push(m);
        }
    }
    if let Some((_, bs)) = q.choice.as_mut() {
        for b in bs {
            all.extend(b.msgs.iter_mut());
        }
    }
    let n = all.len();
    let at = |k: usize| if n == 0 { 0 } else { k % n };
    let bogus = p.roles.len();
    match f {
        Fault::UnknownSender(_) | Fault::UnknownReceiver(_) | Fault::SelfMessage(_) | Fault::Huge(..) if n == 0 => return None,
        Fault::UnknownSender(k) => all[at(*k)].from = bogus,
        Fault::UnknownReceiver(k) => all[at(*k)].to = bogus,
        Fault::SelfMessage(k) => {
            let m = &mut all[at(*k)];
            m.to = m.from
        }
        Fault::Huge(k, both) => {
            let m = &mut all[at(*k)];
            m.hi = i64::MAX as i128 + 1 + *k as i128;
            if *both {
                m.lo = m.hi - 1;
            }
        }
        Fault::UnknownChooser => match q.choice.as_mut() {
            Some(c) => c.0 = bogus,
            None => return None,
        },
        _ => {}
    }
    q.roles.push("Nobody".into());
    let mut ls: Vec<String> = lines_n(&q, bogus).into_iter().map(|l| l.0).collect();
    let body = 1 + usize::from(!ls[0].ends_with('{'));
    match f {
        Fault::MissingClose => {
            ls.pop();
        }
        Fault::ExtraClose => ls.push("}".into()),
        Fault::ExtraOpen(k) => {
            let i = body + k % (ls.len() - body);
            ls.insert(i, "{".into())
        }
        Fault::UnknownLoop => {
            let i = ls.iter().rposition(|l| l.contains("continue"))?;
            ls[i] = "continue Nowhere;".into();
        }
        Fault::Nested => {
            let i = ls.iter().position(|l| l.contains("choice"))?;
            let j = i + 1 + usize::from(!ls[i].ends_with('{'));
            let r = p.roles[p.style as usize % p.roles.len()].clone();
            ls.insert(j, format!("choice at {r} {{"));
            ls.insert(j + 1, "} or {".into());
            ls.insert(j + 2, "}".into());
        }
        Fault::NoHeader => {
            ls.remove(0);
            if body == 2 {
                ls.remove(0);
            }
            ls.pop();
            if ls.is_empty() {
                return None;
            }
        }
        Fault::Untimed => ls[0] = ls[0].replacen("timed ", "", 1),
        Fault::SecondHeader => ls.insert(body, lines(p)[0].0.replace('{', "")),
        Fault::Garbage(k, g) => {
            // in front of a line of the protocol's own block
            let i = body + k % (ls.len() - body);
            let r = &p.roles;
            let g = match g % 8 {
                0 => "choise at A".to_string(),
                1 => format!("Test1() from {} to {};", r[0], r[1 % r.len()]),
                2 => format!("Test1() from {} to {} within [0;1] using a and resetting ()", r[0], r[1 % r.len()]),
                3 => format!("Test1() from {} to {} within [0,1] using a and resetting ();", r[0], r[1 % r.len()]),
                4 => format!("Test1() from {} to {} within (0;1) using a and resetting ();", r[0], r[1 % r.len()]),
                5 => "continue".into(),
                6 => "foo bar;".into(),
                _ => format!("Test1() from {} to {} within [-1;1] using a and resetting ();", r[0], r[1 % r.len()]),
            };
            ls.insert(i, g);
        }
        Fault::Cut(k, g) => {
            // one message line loses one of its clauses
            let ms: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].contains(" from") && ls[*i].contains("within")).collect();
            if ms.is_empty() {
                return None;
            }
            let i = ms[k % ms.len()];
            let l = ls[i].clone();
            let cut = |a: &str, b: &str| -> Option<String> {
                let (x, y) = (l.find(a)?, l.find(b)?);
                Some(format!("{}{}", &l[..x], &l[y..]))
            };
            ls[i] = match g % 5 {
                0 => cut("within", "using")?,
                1 => cut("using", "and ").or_else(|| cut("using", "and"))?,
                2 => l.replacen("from", "form", 1),
                3 => l.trim_end().trim_end_matches(';').to_string(),
                _ => cut("and", ";\u{0}").unwrap_or_else(|| l[..l.find("and").unwrap_or(l.len())].to_string() + ";"),
            };
        }
        Fault::StrayOr(k) => {
            if p.choice.is_some() {
                return None;
            }
            let i = body + k % (ls.len() - body);
            ls.insert(i, "} or {".into());
            // not where the protocol has already ended
            if i + 1 == ls.len() - p.loops() - 1 + 1 && p.loops() == 0 && i + 1 != ls.len() - 1 {
                return None;
            }
        }
        Fault::Empty => return Some(String::new()),
        _ => {}
    }
    Some(ls.join("\n") + "\n")
}

// ---------------------------------------------------------------- reference verdict

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject(String),
    /// the statement does not decide (integer and dense time disagree)
    Open,
}

pub fn verdict(p: &Proto) -> Verdict {
    // last right bound per role and clock
    type St = BTreeMap<(usize, usize), (i128, bool)>;
    let mut open = false;
    let mut step = |st: &mut St, m: &Msg| -> Result<(), String> {
        if m.lo > m.hi || (m.lo == m.hi && !(m.lo_in && m.hi_in)) {
            return Err(format!("empty window {m:?}"));
        }
        if m.hi - m.lo == 1 && !m.lo_in && !m.hi_in {
            open = true;
        }
        for r in [m.from, m.to] {
            if let Some((h, i)) = st.get(&(r, m.clock)) {
                let whole = m.hi + i128::from(m.hi_in) < h + i128::from(*i);
                let dense = (m.hi, m.hi_in) < (*h, *i);
                if whole {
                    return Err(format!("{m:?} ends before the previous window of its clock"));
                }
                if dense {
                    open = true;
                }
            }
        }
        for r in [m.from, m.to] {
            st.insert((r, m.clock), (m.hi, m.hi_in));
            if let Some(c) = m.reset {
                st.remove(&(r, c));
            }
        }
        Ok(())
    };
    let mut st = St::new();
    let r = (|| {
        for it in &p.pre {
            if let Item::M(m) = it {
                step(&mut st, m)?;
            }
        }
        if let Some((_, bs)) = &p.choice {
            for b in bs {
                let mut s = st.clone();
                for m in &b.msgs {
                    step(&mut s, m)?;
                }
                if let Some(l) = b.cont {
                    for m in p.msgs_since(l) {
                        step(&mut s, m)?;
                    }
                }
            }
        }
        Ok(())
    })();
    match r {
        _ if open => Verdict::Open,
        Ok(()) => Verdict::Accept,
        Err(e) => Verdict::Reject(e),
    }
}

/// Widens windows and inserts resets until the file is acceptable.
fn repair(p: &mut Proto) {
    type St = BTreeMap<(usize, usize), (i128, bool)>;
    fn fix(st: &mut St, m: &mut Msg) {
        if m.lo > m.hi {
            std::mem::swap(&mut m.lo, &mut m.hi);
        }
        for r in [m.from, m.to] {
            if let Some((h, i)) = st.get(&(r, m.clock)) {
                if (m.hi, m.hi_in) < (*h, *i) {
                    (m.hi, m.hi_in) = (*h, *i);
                }
            }
        }
        if m.lo == m.hi {
            (m.lo_in, m.hi_in) = (true, true);
        }
        if m.hi - m.lo == 1 && !m.hi_in {
            m.lo_in = true;
        }
        for r in [m.from, m.to] {
            st.insert((r, m.clock), (m.hi, m.hi_in));
            if let Some(c) = m.reset {
                st.remove(&(r, c));
            }
        }
    }
    let mut st = St::new();
    for it in p.pre.iter_mut() {
        if let Item::M(m) = it {
            fix(&mut st, m);
        }
    }
    let Some((c, mut bs)) = p.choice.take() else { return };
    for b in bs.iter_mut() {
        let mut s = st.clone();
        for m in b.msgs.iter_mut() {
            fix(&mut s, m);
        }
        if let Some(l) = b.cont {
            let one = Proto { choice: Some((c, vec![b.clone()])), ..p.clone() };
            if verdict(&one) != Verdict::Accept {
                // start again with fresh clocks, or stop looping
                for m in b.msgs.iter_mut() {
                    m.reset = Some(m.clock);
                }
                let two = Proto { choice: Some((c, vec![b.clone()])), ..p.clone() };
                if verdict(&two) != Verdict::Accept {
                    b.cont = None;
                }
            }
            let _ = l;
        }
    }
    p.choice = Some((c, bs));
}

// ---------------------------------------------------------------- strategies

fn bound() -> impl Strategy<Value = i128> {
    prop_oneof![
        6 => (0i128..12).boxed(),
        2 => (95i128..105).boxed(),
        1 => prop_oneof![Just(0i128), Just(2147483646), Just(2147483647), Just(2147483648), Just(i64::MAX as i128 - 1), Just(i64::MAX as i128), 0i128..5_000_000_000].boxed(),
    ]
}
fn msg(clocks: usize) -> impl Strategy<Value = Msg> {
    (any::<u16>(), any::<u16>(), 0usize..LABELS.len(), 0..clocks, bound(), any::<bool>(), bound(), any::<bool>(), proptest::option::weighted(0.3, 0..clocks), any::<bool>()).prop_map(
        |(a, b, label, clock, lo, lo_in, hi, hi_in, reset, same)| Msg {
            from: a as usize,
            to: b as usize,
            label,
            clock,
            lo,
            lo_in: lo_in || same,
            hi: if same && lo > hi { (lo + 1).min(i64::MAX as i128) } else { hi },
            hi_in,
            reset,
        },
    )
}
pub fn proto() -> impl Strategy<Value = Proto> {
    (prop_oneof![8 => 2usize..6, 1 => 6usize..10], 1usize..=CLOCKS.len()).prop_flat_map(|(n, clocks)| {
        let item = prop_oneof![8 => msg(clocks).prop_map(Item::M), 2 => Just(Item::Rec)];
        let branch = || (vec(msg(clocks), 0..6), proptest::option::weighted(0.6, 0usize..4)).prop_map(|(msgs, cont)| Branch { msgs, cont });
        (
            Just(n),
            prop_oneof![4 => vec(item, 0..9).boxed(), 4 => vec(msg(clocks).prop_map(Item::M), 0..12).boxed(), 1 => vec(msg(clocks).prop_map(Item::M), 10..30).boxed()],
            proptest::option::weighted(0.7, (any::<u16>(), prop_oneof![12 => vec(branch(), 1..5), 1 => vec(branch(), 9..14)])),
            proptest::sample::subsequence((0..ROLES.len()).collect::<Vec<_>>(), n).prop_shuffle(),
            vec(0usize..PAYLOADS.len(), LABELS.len()),
            any::<u64>(),
            "[A-Z][a-z]{0,8}",
        )
            .prop_map(|(n, mut pre, mut choice, roles, pays, style, name)| {
                // a loop needs a choice to be expressible
                if choice.is_none() {
                    pre.retain(|i| *i != Item::Rec);
                }
                let mut k = 0;
                pre.retain(|i| {
                    k += usize::from(*i == Item::Rec);
                    *i != Item::Rec || k <= 3
                });
                let fixm = |m: &mut Msg| {
                    m.from %= n;
                    m.to %= n;
                    if m.from == m.to {
                        m.to = (m.to + 1) % n;
                    }
                };
                for i in pre.iter_mut() {
                    if let Item::M(m) = i {
                        fixm(m);
                    }
                }
                let loops = pre.iter().filter(|i| **i == Item::Rec).count();
                if let Some((c, bs)) = choice.as_mut() {
                    for b in bs.iter_mut() {
                        b.msgs.iter_mut().for_each(fixm);
                        b.cont = if loops == 0 { None } else { b.cont.map(|l| l % loops) };
                    }
                    *c %= n as u16;
                }
                Proto {
                    name,
                    roles: roles.into_iter().map(|r| ROLES[r].to_string()).collect(),
                    labels: LABELS.iter().zip(pays).map(|(l, p)| (l.0.to_string(), p)).collect(),
                    pre,
                    choice: choice.map(|(c, b)| (c as usize, b)),
                    style,
                }
            })
    })
}

// ---------------------------------------------------------------- running the generator

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let d = vlib::ws::root().join(format!("scratch-{tag}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("out")).unwrap();
        Scratch(d)
    }
    fn clear(&self) {
        let _ = std::fs::remove_dir_all(self.0.join("out"));
        std::fs::create_dir_all(self.0.join("out")).unwrap();
    }
    fn files(&self) -> Vec<(String, String)> {
        let mut v: Vec<(String, String)> = std::fs::read_dir(self.0.join("out"))
            .unwrap()
            .flatten()
            .map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read_to_string(e.path()).unwrap_or_default()))
            .collect();
        v.sort();
        v
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Ok(result) or the panic it died with
fn translate(s: &Scratch, text: Option<&str>, external: bool) -> Result<Result<(), String>, String> {
    s.clear();
    let f = s.0.join("in.nuscr");
    let _ = std::fs::remove_file(&f);
    if let Some(t) = text {
        std::fs::write(&f, t).unwrap();
    }
    let out = format!("{}/", s.0.join("out").display());
    std::panic::catch_unwind(|| generator(f.to_str().unwrap(), &out, external).map_err(|e| e.to_string()))
        .map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())
}

// ---------------------------------------------------------------- reading the generated file

#[derive(Clone, Debug, PartialEq)]
pub struct Ty {
    n: String,
    a: Vec<Ty>,
}
struct Toks {
    t: Vec<String>,
    i: usize,
}
fn tokens(s: &str) -> Vec<String> {
    let mut v = vec![];
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        if ch == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch.is_whitespace() {
            i += 1;
        } else if ch == '\'' && c.get(i + 2) == Some(&'\'') {
            v.push(c[i..i + 3].iter().collect());
            i += 3;
        } else if ch == '"' {
            let j = (i + 1..c.len()).find(|j| c[*j] == '"').unwrap_or(c.len() - 1);
            v.push(c[i..=j].iter().collect());
            i = j + 1;
        } else if ch.is_alphanumeric() || ch == '_' || ch == '-' && c.get(i + 1).map(|x| x.is_ascii_digit()).unwrap_or(false) {
            let mut j = i + 1;
            while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            v.push(c[i..j].iter().collect());
            i = j;
        } else {
            v.push(ch.to_string());
            i += 1;
        }
    }
    v
}
impl Toks {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> String {
        self.i += 1;
        self.t.get(self.i - 1).cloned().unwrap_or_default()
    }
    fn eat(&mut self, s: &str) -> Result<(), String> {
        let n = self.next();
        if n == s { Ok(()) } else { Err(format!("expected {s:?}, found {n:?} at token {}", self.i)) }
    }
    fn ty(&mut self) -> Result<Ty, String> {
        let n = self.next();
        let mut a = vec![];
        if self.peek() == "<" {
            self.next();
            while self.peek() != ">" {
                a.push(self.ty()?);
                if self.peek() == "," {
                    self.next();
                } else if self.peek() != ">" {
                    return Err(format!("unexpected {:?} in a type", self.peek()));
                }
            }
            self.next();
        }
        Ok(Ty { n, a })
    }
    fn skip_block(&mut self) {
        // from after an opening bracket to after its closing one
        let mut d = 1;
        while d > 0 && self.i < self.t.len() {
            match self.next().as_str() {
                "{" => d += 1,
                "}" => d -= 1,
                _ => {}
            }
        }
    }
}

#[derive(Default, Debug)]
pub struct Gen {
    types: HashMap<String, Ty>,
    structs: HashMap<String, Option<String>>,
    enums: HashMap<String, Vec<(String, Ty)>>,
    /// name -> (type of the session, clocks inserted)
    fns: HashMap<String, (Ty, BTreeSet<String>)>,
    fork: Vec<String>,
    roles: Vec<String>,
}

pub fn read(s: &str) -> Result<Gen, String> {
    let mut g = Gen::default();
    let mut t = Toks { t: tokens(s), i: 0 };
    while t.i < t.t.len() {
        match t.next().as_str() {
            "#" => {
                while t.i < t.t.len() && t.next() != "]" {}
            }
            "use" => while t.i < t.t.len() && t.next() != ";" {},
            "generate_atmp" => {
                t.eat("!")?;
                t.eat("(")?;
                t.next();
                while t.peek() == "," {
                    t.next();
                    if t.peek() != ")" {
                        g.roles.push(t.next());
                    }
                }
                t.eat(")")?;
                t.eat(";")?;
            }
            "struct" => {
                let n = t.next();
                let mut p = None;
                if t.peek() == "{" {
                    t.next();
                    t.eat("payload")?;
                    t.eat(":")?;
                    p = Some(t.next());
                    t.eat("}")?;
                } else {
                    t.eat(";")?;
                }
                if g.structs.insert(n.clone(), p).is_some() {
                    return Err(format!("struct {n} is defined twice"));
                }
            }
            "type" => {
                let n = t.next();
                t.eat("=")?;
                let y = t.ty()?;
                t.eat(";")?;
                if g.types.insert(n.clone(), y).is_some() {
                    return Err(format!("type {n} is defined twice"));
                }
            }
            "enum" => {
                let n = t.next();
                t.eat("{")?;
                let mut v = vec![];
                while t.peek() != "}" && t.i < t.t.len() {
                    let b = t.next();
                    t.eat("(")?;
                    let y = t.ty()?;
                    t.eat(")")?;
                    if t.peek() == "," {
                        t.next();
                    }
                    v.push((b, y));
                }
                t.next();
                if g.enums.insert(n.clone(), v).is_some() {
                    return Err(format!("enum {n} is defined twice"));
                }
            }
            "fn" => {
                let n = t.next();
                t.eat("(")?;
                if t.peek() == "s" {
                    t.next();
                    t.eat(":")?;
                    let y = t.ty()?;
                    while t.i < t.t.len() && t.next() != "{" {}
                    let a = t.i;
                    t.skip_block();
                    let b = &t.t[a..t.i];
                    let clocks = b.windows(3).filter(|w| w[0] == "insert" && w[1] == "(").map(|w| w[2].trim_matches('\'').to_string()).collect();
                    if g.fns.insert(n.clone(), (y, clocks)).is_some() {
                        return Err(format!("function {n} is defined twice"));
                    }
                } else {
                    while t.i < t.t.len() && t.next() != "{" {}
                    let a = t.i;
                    t.skip_block();
                    let b: Vec<String> = t.t[a..t.i].to_vec();
                    if let Some(k) = b.iter().position(|x| x == "fork_mpst") {
                        g.fork = b[k + 2..].iter().take_while(|x| *x != ")").filter(|x| *x != ",").cloned().collect();
                    }
                }
            }
            x => return Err(format!("unexpected {x:?} in the generated file")),
        }
    }
    Ok(g)
}

// ---------------------------------------------------------------- projection

struct Cmp<'a> {
    p: &'a Proto,
    g: &'a Gen,
    /// enum used for each receiver of the choice
    enums: HashMap<usize, String>,
    seen: BTreeSet<(usize, usize)>,
    facts: usize,
}
impl Cmp<'_> {
    fn expand(&self, t: &Ty) -> Result<Ty, String> {
        let mut t = t.clone();
        let mut fuel = 100_000;
        while let Some(u) = self.g.types.get(&t.n) {
            t = u.clone();
            fuel -= 1;
            if fuel == 0 {
                return Err("circular alias".into());
            }
        }
        Ok(t)
    }
    fn unit(&self, n: &str) -> Ty {
        Ty { n: n.into(), a: vec![] }
    }
    fn role(&self, r: usize) -> &str {
        &self.p.roles[r]
    }
    /// the session type of `me` in the block made of `ms`, then the choice when `choice`
    fn endpoint(&mut self, me: usize, t: &Ty, ms: &[&Msg], choice: bool, at: &str) -> Result<(), String> {
        let t = self.expand(t)?;
        let at = format!("{at}, role {}", self.role(me));
        let n = self.p.roles.len();
        if t.n != "MeshedChannels" || t.a.len() != n + 1 {
            return Err(format!("{at}: not a mesh of {n} participants: {t:?}"));
        }
        if t.a[n] != self.unit(&format!("Name{}", self.role(me))) {
            return Err(format!("{at}: wrong name {:?}", t.a[n]));
        }
        let (chooser, bs) = match &self.p.choice {
            Some((c, b)) => (Some(*c), b.len()),
            None => (None, 0),
        };
        let chooser = if choice { chooser } else { None };
        let peers: Vec<usize> = self.g.roles.iter().map(|r| self.p.roles.iter().position(|x| x == r).unwrap()).filter(|r| *r != me).collect();
        let mut follow = vec![];
        for (k, peer) in peers.iter().enumerate() {
            let at = format!("{at} towards {}", self.role(*peer));
            let mut s = self.expand(&t.a[k])?;
            for m in ms.iter().filter(|m| (m.from, m.to) == (me, *peer) || (m.to, m.from) == (me, *peer)) {
                let (lab, _) = &self.p.labels[m.label];
                let want = [
                    title(lab),
                    format!("'{}'", CLOCKS[m.clock]),
                    m.lo.to_string(),
                    m.lo_in.to_string(),
                    m.hi.to_string(),
                    m.hi_in.to_string(),
                    format!("'{}'", m.reset.map(|c| CLOCKS[c]).unwrap_or(" ")),
                ];
                let dir = if m.from == me { "SendTimed" } else { "RecvTimed" };
                let got: Vec<String> = s.a.iter().take(7).map(|x| x.n.clone()).collect();
                if s.n != dir || got != want || s.a.len() != 8 {
                    return Err(format!("{at}: expected {dir}<{want:?}, ..>, found {}<{got:?}, ..>", s.n));
                }
                s = self.expand(&s.a[7])?;
                self.facts += 1;
            }
            match chooser {
                Some(c) if c == me || c == *peer => {
                    let dir = if c == me { "SendTimed" } else { "RecvTimed" };
                    let who = if c == me { *peer } else { me };
                    let rest: Vec<String> = s.a.iter().skip(1).map(|x| x.n.clone()).collect();
                    if s.n != dir || rest != ["' '", "-2", "false", "-1", "false", "' '", "End"] {
                        return Err(format!("{at}: expected the choice of {}, found {}<{rest:?}>", self.role(c), s.n));
                    }
                    let e = s.a[0].n.clone();
                    if let Some(f) = self.enums.insert(who, e.clone()) {
                        if f != e {
                            return Err(format!("{at}: the choice is sent as {e} and as {f}"));
                        }
                    }
                    if c != me {
                        follow.push(e);
                    }
                    self.facts += 1;
                }
                _ => {
                    if s != self.unit("End") {
                        return Err(format!("{at}: expected the end, found {s:?}"));
                    }
                }
            }
        }
        // order of the partners
        let mut st = self.expand(&t.a[n - 1])?;
        for m in ms.iter().filter(|m| m.from == me || m.to == me) {
            let peer = if m.from == me { m.to } else { m.from };
            if st.n != format!("Role{}", self.role(peer)) || st.a.len() != 1 {
                return Err(format!("{at}: expected Role{} in the stack, found {st:?}", self.role(peer)));
            }
            st = self.expand(&st.a[0])?;
            self.facts += 1;
        }
        let want = match chooser {
            Some(c) if c == me => self.unit("RoleBroadcast"),
            Some(c) => Ty { n: format!("Role{}", self.role(c)), a: vec![self.unit("RoleEnd")] },
            None => self.unit("RoleEnd"),
        };
        if st != want {
            return Err(format!("{at}: the stack ends with {st:?} instead of {want:?}"));
        }
        for e in follow {
            let Some(v) = self.g.enums.get(&e) else { return Err(format!("{at}: enum {e} is not defined")) };
            if v.len() != bs {
                return Err(format!("{at}: {} branches instead of {bs}", v.len()));
            }
            for i in 0..bs {
                if self.seen.insert((me, i)) {
                    self.branch(me, i, &v[i].1.clone())?;
                }
            }
        }
        Ok(())
    }
    fn branch(&mut self, me: usize, i: usize, t: &Ty) -> Result<(), String> {
        let b = self.p.choice.as_ref().unwrap().1[i].clone();
        let mut ms: Vec<&Msg> = b.msgs.iter().collect();
        if let Some(l) = b.cont {
            ms.extend(self.p.msgs_since(l));
        }
        self.endpoint(me, t, &ms, b.cont.is_some(), &format!("branch {i}"))
    }
}

/// every fact of the generated file against the projection; number of facts compared
pub fn compare(p: &Proto, text: &str) -> Result<usize, String> {
    let g = read(text)?;
    let mut want = p.roles.clone();
    want.sort();
    let mut got = g.roles.clone();
    got.sort();
    if got != want {
        return Err(format!("participants {:?} instead of {want:?}", g.roles));
    }
    if g.fork.len() != p.roles.len() {
        return Err(format!("fork of {:?}", g.fork));
    }
    let mut c = Cmp { p, g: &g, enums: HashMap::new(), seen: BTreeSet::new(), facts: 0 };
    let pre: Vec<&Msg> = p.pre.iter().filter_map(|i| if let Item::M(m) = i { Some(m) } else { None }).collect();
    for (k, f) in g.fork.iter().enumerate() {
        let me = p.roles.iter().position(|r| *r == g.roles[k]).unwrap();
        let Some((t, clocks)) = g.fns.get(f) else { return Err(format!("function {f} is not defined")) };
        c.endpoint(me, t, &pre, p.choice.is_some(), "start")?;
        let all = p.choice.iter().flat_map(|(_, b)| b.iter().flat_map(|b| b.msgs.iter()));
        for m in pre.iter().copied().chain(all).filter(|m| m.from == me || m.to == me) {
            for k in [Some(m.clock), m.reset].into_iter().flatten() {
                if !clocks.contains(CLOCKS[k]) {
                    return Err(format!("role {}: clock {} is not created by {f}", p.roles[me], CLOCKS[k]));
                }
            }
        }
    }
    // the chooser's own branches are only reachable through their endpoint types
    if let Some((ch, bs)) = &p.choice {
        let chooser_types: Vec<(String, Ty)> = g
            .types
            .iter()
            .filter(|(_, t)| t.n == "MeshedChannels" && t.a.last().map(|x| x.n == format!("Name{}", p.roles[*ch])).unwrap_or(false))
            .map(|(n, t)| (n.clone(), t.clone()))
            .collect();
        for i in 0..bs.len() {
            let mut errs = vec![];
            let ok = chooser_types.iter().any(|(_, t)| {
                let mut d = Cmp { p, g: &g, enums: c.enums.clone(), seen: BTreeSet::new(), facts: 0 };
                match d.branch(*ch, i, t) {
                    Ok(()) => {
                        c.facts += d.facts;
                        true
                    }
                    Err(e) => {
                        errs.push(e);
                        false
                    }
                }
            });
            if !ok {
                return Err(format!("no endpoint of the chooser for branch {i}: {errs:?}"));
            }
        }
        if c.seen.len() != bs.len() * (p.roles.len() - 1) {
            return Err("some branches are missing from some participants".into());
        }
    }
    // payloads
    let used = |m: &Msg| -> Result<(), String> {
        let (l, pay) = &p.labels[m.label];
        let want = if *pay == 0 { None } else { Some(PAYLOADS[*pay].1.to_string()) };
        match g.structs.get(&title(l)) {
            Some(got) if *got == want => {}
            x => return Err(format!("payload of {l}: {x:?} instead of {want:?}")),
        }
        if let Some(w) = &want {
            if g.structs.get(w) != Some(&None) {
                return Err(format!("payload type {w} is not defined"));
            }
        }
        Ok(())
    };
    for m in pre.iter().copied().chain(p.choice.iter().flat_map(|(_, b)| b.iter().flat_map(|b| b.msgs.iter()))) {
        used(m)?;
        c.facts += 1;
    }
    Ok(c.facts)
}

fn weight(p: &Proto) -> usize {
    p.pre.len() + p.choice.iter().flat_map(|c| c.1.iter()).map(|b| b.msgs.len() + 1).sum::<usize>()
}

// ---------------------------------------------------------------- C30

fn one30(s: &Scratch, p: &Proto) -> Result<(usize, String), String> {
    let t = text(p, &Fault::None).unwrap();
    match translate(s, Some(&t), false) {
        Err(e) => Err(format!("the translation of a valid file panicked: {e}\n{t}")),
        Ok(Err(e)) => Err(format!("a valid file was rejected: {e}\n{t}")),
        Ok(Ok(())) => {
            let f = s.files();
            if f.len() != 1 || f[0].0 != format!("{}.rs", p.name) {
                return Err(format!("output files {:?}", f.iter().map(|x| &x.0).collect::<Vec<_>>()));
            }
            let n = compare(p, &f[0].1).map_err(|e| format!("{e}\n{t}"))?;
            Ok((n, f[0].1.clone()))
        }
    }
}

/// type-checks the generated files
fn compile(rep: &mut Report, files: Vec<(Proto, String)>) {
    let n = files.len();
    let ws = vlib::ws::Ws {
        id: "C30".into(),
        mods: files.iter().map(|f| f.1.clone()).collect(),
        entry_ty: "()".into(),
        entries: (0..n).map(|_| "()".to_string()).collect(),
        main: "let _: Vec<()> = v;".into(),
        shards: 8,
    };
    match ws.check(&[]) {
        Err(e) => {
            eprintln!("C30: {e}");
            std::process::exit(3)
        }
        Ok(bad) => {
            ws.remove();
            // rustc cannot prove some recursive session types `Send` (E0275): nothing to learn from those
            let (gave_up, bad): (Vec<_>, Vec<_>) = bad.into_iter().partition(|(_, m)| m.contains("error[E0275]"));
            let n = n - gave_up.len();
            rep.extra.insert("generated files the compiler gave up on (E0275)".into(), serde_json::json!(gave_up.len()));
            if gave_up.len() > n {
                eprintln!("C30: the compiler gave up on {} files", gave_up.len());
                std::process::exit(3);
            }
            if let Some((i, msg)) = bad.into_iter().min_by_key(|(i, _)| weight(&files[*i].0)) {
                rep.violation(&format!("the generated file does not compile: {msg}\n{}", text(&files[i].0, &Fault::None).unwrap()), serde_json::json!({"check": "compile", "input": files[i].0}));
            }
            *rep.extra.entry("generated files compiled".into()).or_insert(serde_json::json!(0)) = serde_json::json!(n);
            for _ in 0..n {
                rep.eval();
            }
        }
    }
}

pub fn c30(replay: Option<serde_json::Value>) -> ! {
    let mut rep = Report::new("C30", "a protocol with a choice or with at least three messages");
    vlib::watch::calls("C30", rep.seed);
    let s = Scratch::new("c30");
    if let Some(v) = replay {
        let c = &v["case"];
        if c["check"] == "loop without a choice" {
            probe(&mut rep, &s);
        } else {
            let p: Proto = serde_json::from_value(c["input"].clone()).unwrap();
            match one30(&s, &p) {
                Ok((_, t)) => compile(&mut rep, vec![(p, t)]),
                Err(e) => rep.violation(&e, c.clone()),
            }
        }
        println!("C30: replay passed");
        std::process::exit(0)
    }
    let valid = proto().prop_map(|mut p| {
        repair(&mut p);
        p
    });
    let cases = rep.n(4000, 100_000);
    let keep = std::cell::RefCell::new(vec![]);
    let facts = std::cell::Cell::new(0usize);
    let want = rep.n(64, 600) as usize;
    let every = (cases as usize / want).max(1);
    let count = std::cell::Cell::new(0usize);
    vlib::pbt::check(&mut rep, "projection", cases, valid, |p, rep| {
        if verdict(p) != Verdict::Accept {
            rep.class("skipped (no valid repair)");
            return Ok(());
        }
        let (n, t) = one30(&s, p)?;
        facts.set(facts.get() + n);
        rep.class(&format!("{} participants", p.roles.len()));
        rep.class(match (&p.choice, p.loops()) {
            (None, _) => "straight",
            (Some(_), 0) => "choice",
            (Some((_, b)), _) if b.iter().any(|b| b.cont.is_some()) => "choice in a loop",
            _ => "choice in a loop that is never continued",
        });
        count.set(count.get() + 1);
        if count.get() % every == 0 {
            keep.borrow_mut().push((p.clone(), t));
        }
        if p.choice.is_some() || weight(p) >= 3 {
            rep.nontrivial(&format!("{p:?}"), || serde_json::json!({"file": text(p, &Fault::None), "facts compared": n}));
        }
        Ok(())
    });
    rep.extra.insert("facts of the generated files compared".into(), serde_json::json!(facts.get()));
    probe(&mut rep, &s);
    compile(&mut rep, keep.into_inner());
    drop(s);
    rep.finish()
}

/// A loop without a choice cannot be expressed by aliases: it must be refused or keep looping.
fn probe(rep: &mut Report, s: &Scratch) {
    let t = "timed global protocol P(role A, role B) {\n    rec L {\n        M() from A to B within [0;1] using a and resetting (a);\n        continue L;\n    }\n}\n";
    if let Ok(Ok(())) = translate(s, Some(t), false) {
        let f = s.files();
        let g = read(&f[0].1).unwrap_or_default();
        let finite = g.types.values().any(|t| t.n == "End") && g.enums.is_empty();
        if finite && !rep.known("loop-without-choice") {
            rep.violation("a loop without a choice was translated into a finite endpoint", serde_json::json!({"check": "loop without a choice", "input": t}));
        }
    }
    rep.eval();
}

// ---------------------------------------------------------------- C31

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case31 {
    p: Proto,
    valid: bool,
    fault: Fault,
}

fn fault() -> impl Strategy<Value = Fault> {
    let u = || any::<u16>().prop_map(|x| x as usize);
    prop_oneof![
        u().prop_map(Fault::UnknownSender),
        u().prop_map(Fault::UnknownReceiver),
        u().prop_map(Fault::SelfMessage),
        Just(Fault::UnknownChooser),
        Just(Fault::MissingClose),
        Just(Fault::ExtraClose),
        u().prop_map(Fault::ExtraOpen),
        Just(Fault::UnknownLoop),
        Just(Fault::Nested),
        Just(Fault::NoHeader),
        Just(Fault::Untimed),
        Just(Fault::SecondHeader),
        (u(), any::<bool>()).prop_map(|(a, b)| Fault::Huge(a, b)),
        (u(), any::<u8>()).prop_map(|(a, b)| Fault::Garbage(a, b)),
        (u(), any::<u8>()).prop_map(|(a, b)| Fault::Cut(a, b)),
        u().prop_map(Fault::StrayOr),
        Just(Fault::Empty),
        Just(Fault::Missing),
    ]
}

fn complete(files: &[(String, String)]) -> bool {
    files.iter().any(|f| f.1.contains("fn main"))
}

/// class of the case, or what is wrong
fn one31(s: &Scratch, c: &Case31) -> Result<Option<String>, String> {
    let Some(t) = text(&c.p, &c.fault) else { return Ok(None) };
    let want = if c.fault == Fault::None { verdict(&c.p) } else { Verdict::Reject(format!("{:?}", c.fault)) };
    let r = translate(s, if c.fault == Fault::Missing { None } else { Some(&t) }, false);
    let files = s.files();
    match (&want, r) {
        (_, Err(e)) => Err(format!("the generator panicked ({e}) on\n{t}")),
        (Verdict::Accept, Ok(Err(e))) => Err(format!("an acceptable file was rejected ({e}):\n{t}")),
        (Verdict::Reject(w), Ok(Ok(()))) => Err(format!("a file that must be rejected ({w}) was accepted:\n{t}")),
        (Verdict::Reject(_), Ok(Err(_))) if complete(&files) => Err(format!("a rejected file left a complete output:\n{t}")),
        (Verdict::Accept, Ok(Ok(()))) if !complete(&files) => Err(format!("an accepted file left no complete output:\n{t}")),
        (w, Ok(_)) => Ok(Some(match w {
            Verdict::Accept => "accepted".into(),
            Verdict::Open => "not decided (whole seconds and dense time differ)".into(),
            Verdict::Reject(_) => match &c.fault {
                Fault::None => "rejected for its windows".into(),
                f => format!("rejected for {}", format!("{f:?}").split('(').next().unwrap()),
            },
        })),
    }
}

/// With the external check on, the verdict of the (stand-in) external tool counts, and it is asked about the same protocol without time.
fn external(s: &Scratch, p: &Proto, refuse: bool) -> Result<(), String> {
    let t = text(p, &Fault::None).unwrap();
    let seen = s.0.join("seen");
    let _ = std::fs::remove_file(&seen);
    std::env::set_var("FAKE_NUSCR_SEEN", &seen);
    std::env::set_var("FAKE_NUSCR_REFUSE", if refuse { "1" } else { "" });
    let r = translate(s, Some(&t), true).map_err(|e| format!("the generator panicked ({e}) on\n{t}"))?;
    let got = std::fs::read_to_string(&seen).map_err(|_| "the external tool was not asked".to_string())?;
    let (args, body) = got.split_once('\n').unwrap_or((&got, ""));
    if !args.contains(&format!("--generate-sexp={} ", p.name)) {
        return Err(format!("the external tool was called with {args}"));
    }
    let norm = |x: &str| x.split_whitespace().collect::<Vec<_>>().join(" ");
    let want: Vec<String> = lines_of(&t, p).iter().map(|x| norm(x)).filter(|x| !x.is_empty()).collect();
    let have: Vec<String> = body.lines().map(norm).filter(|x| !x.is_empty()).collect();
    if want != have {
        let i = (0..want.len().max(have.len())).find(|i| want.get(*i) != have.get(*i)).unwrap();
        return Err(format!("line {i} given to the external tool is {:?} instead of {:?}", have.get(i), want.get(i)));
    }
    for e in std::fs::read_dir(s.0.join("cwd")).unwrap().flatten() {
        return Err(format!("left behind: {:?}", e.file_name()));
    }
    match (refuse, r) {
        (true, Ok(())) => Err(format!("a protocol refused by the external check was accepted\n{t}")),
        (true, Err(_)) if complete(&s.files()) => Err("a refused protocol left a complete output".into()),
        (false, Err(e)) => Err(format!("an acceptable protocol was rejected ({e})\n{t}")),
        _ => Ok(()),
    }
}
/// the untimed lines for a file whose timed lines are `t`
fn lines_of(t: &str, p: &Proto) -> Vec<String> {
    let mut v = vec![];
    let mut plain = {
        let mut ms: Vec<String> = vec![];
        for l in lines(p) {
            if l.1.contains(" from ") {
                ms.push(l.1);
            }
        }
        ms.into_iter()
    };
    for (i, l) in t.lines().enumerate() {
        if i == 0 {
            v.push(l.replacen("timed ", "", 1));
        } else if l.contains("within") {
            v.push(plain.next().unwrap_or_default());
        } else {
            v.push(l.to_string());
        }
    }
    v
}

fn fake_tool(s: &Scratch) {
    use std::os::unix::fs::PermissionsExt;
    let bin = s.0.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    std::fs::create_dir_all(s.0.join("cwd")).unwrap();
    let f = bin.join("nuscr");
    std::fs::write(&f, "#!/bin/sh\n{ echo \"$@\"; for l in \"$@\"; do f=\"$l\"; done; cat \"$f\"; } > \"$FAKE_NUSCR_SEEN\"\nif [ -z \"$FAKE_NUSCR_REFUSE\" ]; then echo '(ok)'; else echo 'refused' >&2; exit 1; fi\n").unwrap();
    std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
    let path = std::env::var("PATH").unwrap_or_default();
    std::env::set_var("PATH", format!("{}:{path}", bin.display()));
    std::env::set_current_dir(s.0.join("cwd")).unwrap();
}

pub fn c31(replay: Option<serde_json::Value>) -> ! {
    let mut rep = Report::new("C31", "a file with a generated fault, or whose windows decide, or that is accepted with a clock used at least twice");
    vlib::watch::calls("C31", rep.seed);
    let s = Scratch::new("c31");
    fake_tool(&s);
    if let Some(v) = replay {
        let c = &v["case"];
        let r = if c["check"] == "external" {
            let (p, refuse): (Proto, bool) = serde_json::from_value(c["input"].clone()).unwrap();
            external(&s, &p, refuse)
        } else {
            one31(&s, &serde_json::from_value(c["input"].clone()).unwrap()).map(|_| ())
        };
        match r {
            Ok(()) => {
                println!("C31: replay passed");
                std::process::exit(0)
            }
            Err(e) => rep.violation(&e, c.clone()),
        }
    }
    let case = |f: BoxedStrategy<Fault>, valid: bool| {
        (proto(), f).prop_map(move |(mut p, fault)| {
            if valid {
                repair(&mut p);
            }
            Case31 { p, valid, fault }
        })
    };
    // short protocols with raw windows, so that both verdicts are common
    let short = (proto(), 0usize..3, 0usize..3).prop_map(|(mut p, a, b)| {
        let mut k = 0;
        p.pre.retain(|i| {
            k += usize::from(*i != Item::Rec);
            *i == Item::Rec || k <= a
        });
        if let Some((_, bs)) = p.choice.as_mut() {
            bs.truncate(2);
            bs.iter_mut().for_each(|x| x.msgs.truncate(b));
        }
        Case31 { p, valid: false, fault: Fault::None }
    });
    // acceptable files with one bound of one message moved
    let nudged = (proto(), any::<u16>(), -3i128..4, any::<u8>()).prop_map(|(mut p, k, d, how)| {
        repair(&mut p);
        let mut all: Vec<&mut Msg> = vec![];
        for i in p.pre.iter_mut() {
            if let Item::M(m) = i {
                all.push(m);
            }
        }
        if let Some((_, bs)) = p.choice.as_mut() {
            for b in bs {
                all.extend(b.msgs.iter_mut());
            }
        }
        let n = all.len();
        if n > 0 {
            let m = &mut all[k as usize % n];
            match how % 6 {
                0 => m.hi = (m.hi + d).clamp(0, i64::MAX as i128),
                1 => m.lo = (m.lo + d).clamp(0, i64::MAX as i128),
                2 => m.hi_in = !m.hi_in,
                3 => m.lo_in = !m.lo_in,
                4 => m.reset = None,
                _ => m.lo = (m.hi + d).clamp(0, i64::MAX as i128),
            }
        }
        Case31 { p, valid: false, fault: Fault::None }
    });
    let run = |c: &Case31, rep: &mut Report| -> Result<(), String> {
        if let Some(k) = one31(&s, c)? {
            rep.class(&k);
            if k != "accepted" || weight(&c.p) >= 2 {
                rep.nontrivial(&format!("{c:?}"), || serde_json::json!({"file": text(&c.p, &c.fault), "fault": c.fault, "outcome": k}));
            }
        } else {
            rep.class("fault does not apply");
        }
        Ok(())
    };
    let n = rep.n(4000, 120_000);
    vlib::pbt::check(&mut rep, "raw windows", n, short, run);
    let n = rep.n(5000, 120_000);
    vlib::pbt::check(&mut rep, "one bound moved", n, nudged, run);
    let n = rep.n(2500, 60_000);
    vlib::pbt::check(&mut rep, "valid", n, case(Just(Fault::None).boxed(), true), run);
    let n = rep.n(6000, 120_000);
    vlib::pbt::check(&mut rep, "faulty", n, case(fault().boxed(), true), run);
    let n = rep.n(150, 1500);
    let ext = (proto(), any::<bool>()).prop_map(|(mut p, b)| {
        repair(&mut p);
        (p, b)
    });
    vlib::pbt::check_with(&mut rep, "external", n, 300, ext, |(p, refuse), rep| {
        if verdict(p) != Verdict::Accept {
            return Ok(());
        }
        external(&s, p, *refuse)?;
        rep.class(if *refuse { "refused by the external check" } else { "allowed by the external check" });
        rep.nontrivial(&format!("ext {p:?} {refuse}"), || serde_json::json!({"file": text(p, &Fault::None), "external check refuses": refuse}));
        Ok(())
    });
    std::env::set_current_dir("/").unwrap();
    drop(s);
    rep.finish()
}

#[allow(dead_code)]
fn unused(_: &Path) {}
