//! C40 and C41: the graphs and automata extracted from endpoint types, and the external verdict.
use crate::nuscr::Scratch;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vlib::report::Report;

// ---------------------------------------------------------------- model

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Msg {
    from: usize,
    to: usize,
    ty: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Next {
    End,
    /// an enumerated choice
    State(usize),
    /// a binary choice made by the role
    Either(usize, Box<Seg>, Box<Seg>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Seg {
    msgs: Vec<Msg>,
    next: Next,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct State {
    chooser: usize,
    branches: Vec<(String, Seg)>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Proto {
    /// in alphabetical order
    roles: Vec<String>,
    init: Seg,
    states: Vec<State>,
    /// which user types the payload numbers name
    tys: Vec<usize>,
    /// order in which the endpoints are given
    order: Vec<usize>,
}

/// payload types: as printed by the compiler (`@` is the module), as expected in the graphs, declaration
const TYS: &[(&str, &str, &str)] = &[
    ("i32", "i32", ""),
    ("()", "()", ""),
    ("alloc::string::String", "String", ""),
    ("@::Request", "Request", "pub struct Request;"),
    ("@::Ack", "Ack", "pub struct Ack;"),
    ("alloc::vec::Vec<i64>", "Vec<i64>", ""),
    ("core::option::Option<@::Request>", "Option<Request>", "pub struct Request;"),
    ("@::Reply2", "Reply2", "pub struct Reply2;"),
    ("core::result::Result<u8, alloc::string::String>", "Result<u8,String>", ""),
    ("@::UserNameList", "UserNameList", "pub struct UserNameList;"),
    ("@::NameTag", "NameTag", "pub struct NameTag;"),
    ("@::inner::Deep", "Deep", "pub mod inner { pub struct Deep; }"),
    ("(i32, u8)", "(i32,u8)", ""),
    ("(alloc::string::String, @::Ack)", "(String,Ack)", "pub struct Ack;"),
    ("[u8; 4]", "[u8;4]", ""),
    ("@::Sending", "Sending", "pub struct Sending;"),
    ("@::Role", "Role", "pub struct Role;"),
    ("@::End2End", "End2End", "pub struct End2End;"),
    ("@::RecvError", "RecvError", "pub struct RecvError;"),
    ("@::SendBuf", "SendBuf", "pub struct SendBuf;"),
    ("@::EitherWay", "EitherWay", "pub struct EitherWay;"),
    ("@::RoleEnding", "RoleEnding", "pub struct RoleEnding;"),
    ("char", "char", ""),
    ("std::collections::hash::map::HashMap<u8, alloc::vec::Vec<@::Ack>>", "HashMap<u8,Vec<Ack>>", "pub struct Ack;"),
];

const SETS: &[&[&str]] = &[
    &["A", "B", "C", "D", "E", "F"],
    &["Alice", "Bob", "Carol", "Dave", "Eve", "Fred"],
    &["Auth", "Client", "Server", "Store", "Worker", "Zed"],
    &["A", "AB", "ABC", "B", "BC", "C"],
    &["Node1", "Node2", "Node3", "Node4", "Node5", "Node6"],
    &["Al", "Bo", "Bob", "Bobby", "Bobs", "Cy"],
    &["A1", "A2", "B1", "B2", "C1", "C2"],
    &["Node1", "Node10", "Node11", "Node2", "Node20", "Node9"],
    &["Naming", "Recver", "Role", "Roles", "Sender", "Z"],
];
const BRANCHES: &[&str] = &[
    "End", "Video", "Accept", "Reject", "Loop", "Continue", "Break", "Done", "Quit", "Add", "Neg", "Left", "Right", "Return",
    "Move", "Match", "Type", "Retry2", "Close", "Temp",
];

impl Proto {
    fn n(&self) -> usize {
        self.roles.len()
    }
    fn ty(&self, m: &Msg) -> &'static (&'static str, &'static str, &'static str) {
        &TYS[self.tys[m.ty % self.tys.len()] % TYS.len()]
    }
    fn en(&self, k: usize, r: usize) -> String {
        format!("Branches{k}{}from{}", self.roles[r], self.roles[self.states[k].chooser])
    }
    fn segs(&self) -> Vec<&Seg> {
        let mut v = vec![&self.init];
        for s in &self.states {
            v.extend(s.branches.iter().map(|b| &b.1));
        }
        let mut i = 0;
        while i < v.len() {
            if let Next::Either(_, l, r) = &v[i].next {
                v.push(l);
                v.push(r);
            }
            i += 1;
        }
        v
    }
    /// only the first `n` choices, no binary choice, at most two messages at a time
    fn cut(&mut self, n: usize) {
        let f = |s: &mut Seg| {
            s.msgs.truncate(2);
            if let Next::Either(..) = s.next {
                s.next = Next::End;
            }
            if let Next::State(k) = s.next {
                s.next = if n == 0 { Next::End } else { Next::State(k % n) };
            }
        };
        f(&mut self.init);
        self.states.iter_mut().for_each(|s| s.branches.iter_mut().for_each(|b| f(&mut b.1)));
    }
    fn weight(&self) -> usize {
        self.segs().iter().map(|s| s.msgs.len() + 1).sum()
    }
}

// ---------------------------------------------------------------- endpoint types

/// How types are spelled: as the compiler prints them, or as source text.
pub struct Sp<'a> {
    p: &'a Proto,
    src: bool,
    module: String,
}
impl Sp<'_> {
    fn f(&self, path: &str, name: &str) -> String {
        if self.src {
            name.to_string()
        } else {
            format!("{path}::{name}")
        }
    }
    fn end(&self) -> String {
        self.f("mpstthree::binary::struct_trait::end", "End")
    }
    fn io(&self, send: bool, ty: &str, cont: &str) -> String {
        let (m, h) = if send { ("send", "Send") } else { ("recv", "Recv") };
        format!("{}<{ty}, {cont}>", self.f(&format!("mpstthree::binary::struct_trait::{m}"), h))
    }
    fn pay(&self, m: &Msg) -> String {
        let t = self.p.ty(m).0;
        if self.src {
            t.replace("@::", "").replace("std::collections::hash::map::", "std::collections::").replace("alloc::", "std::")
        } else {
            t.replace('@', &self.module)
        }
    }
    fn user(&self, name: &str) -> String {
        self.f(&self.module, name)
    }
    fn role(&self, r: usize, cont: &str) -> String {
        format!("{}<{cont}>", self.user(&format!("Role{}", self.p.roles[r])))
    }
    fn dual(&self, seg: &Seg, me: usize, peer: usize) -> String {
        self.sess(seg, peer, me)
    }
    fn sess(&self, seg: &Seg, me: usize, peer: usize) -> String {
        let mut t = match &seg.next {
            Next::End => self.end(),
            Next::State(k) => {
                let c = self.p.states[*k].chooser;
                if c == me {
                    self.io(true, &self.user(&self.p.en(*k, peer)), &self.end())
                } else if c == peer {
                    self.io(false, &self.user(&self.p.en(*k, me)), &self.end())
                } else {
                    self.end()
                }
            }
            Next::Either(c, l, r) => {
                let at = if *c == me {
                    Some(peer)
                } else if *c == peer {
                    Some(me)
                } else {
                    None
                };
                match at {
                    None => self.end(),
                    Some(x) => self.io(
                        *c == me,
                        &format!("{}<{}, {}>", self.f("either", "Either"), self.mc(l, x), self.mc(r, x)),
                        &self.end(),
                    ),
                }
            }
        };
        for m in seg.msgs.iter().rev() {
            if m.from == me && m.to == peer {
                t = self.io(true, &self.pay(m), &t);
            } else if m.to == me && m.from == peer {
                t = self.io(false, &self.pay(m), &t);
            }
        }
        t
    }
    fn stack(&self, seg: &Seg, me: usize) -> String {
        let end = self.f("mpstthree::role::end", "RoleEnd");
        let mut t = match &seg.next {
            Next::End => end,
            Next::State(k) => {
                let c = self.p.states[*k].chooser;
                if c == me {
                    self.f("mpstthree::role::broadcast", "RoleBroadcast")
                } else {
                    self.role(c, &end)
                }
            }
            Next::Either(c, l, r) => {
                let n = &self.p.roles[*c];
                if *c == me {
                    format!("{}<{}, {}>", self.user(&format!("Role{n}toAll")), self.stack(l, me), self.stack(r, me))
                } else {
                    format!("{}<{end}, {end}>", self.user(&format!("RoleAllto{n}")))
                }
            }
        };
        for m in seg.msgs.iter().rev() {
            if m.from == me {
                t = self.role(m.to, &t);
            } else if m.to == me {
                t = self.role(m.from, &t);
            }
        }
        t
    }
    pub fn mc(&self, seg: &Seg, me: usize) -> String {
        let mut a: Vec<String> = (0..self.p.n()).filter(|x| *x != me).map(|x| self.sess(seg, me, x)).collect();
        a.push(self.stack(seg, me));
        a.push(self.user(&format!("Name{}", self.p.roles[me])));
        format!("{}<{}>", self.user("MeshedChannels"), a.join(", "))
    }
}

/// arguments of the checker, as the macros build them
struct Args {
    sessions: Vec<String>,
    receivers: HashMap<String, HashMap<String, String>>,
    senders: HashMap<String, String>,
    groups: HashMap<String, i32>,
}
fn args(p: &Proto) -> Args {
    let sp = Sp { p, src: false, module: "endpoints::chat".into() };
    let mut a = Args {
        sessions: p.order.iter().map(|r| sp.mc(&p.init, *r)).collect(),
        receivers: HashMap::new(),
        senders: HashMap::new(),
        groups: HashMap::new(),
    };
    let mut g = 0;
    for (k, s) in p.states.iter().enumerate() {
        for (b, seg) in &s.branches {
            for r in (0..p.n()).filter(|r| *r != s.chooser) {
                let e = p.en(k, r);
                a.receivers.entry(e.clone()).or_default().insert(b.clone(), sp.mc(seg, r));
                a.senders.insert(format!("{e}::{b}"), sp.mc(seg, s.chooser));
                a.groups.insert(format!("{e}::{b}"), g);
            }
            g += 1;
        }
    }
    a
}

// ---------------------------------------------------------------- reference graphs

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Gr {
    n: usize,
    /// from, to, label
    e: Vec<(usize, usize, String)>,
}
impl Gr {
    fn node(&mut self) -> usize {
        self.n += 1;
        self.n - 1
    }
    fn out(&self, v: usize) -> Vec<(usize, &str)> {
        self.e.iter().filter(|x| x.0 == v).map(|x| (x.1, x.2.as_str())).collect()
    }
}
const MU: &str = "µ";

/// `silent`: a choice gets a state of its own (the exact behaviour of the endpoint); otherwise it stays in the state where it is made
struct Build<'a> {
    p: &'a Proto,
    me: usize,
    g: Gr,
    silent: bool,
    /// two choices were made in one state and one of them is looped back to
    merged: bool,
}
impl Build<'_> {
    fn seg(&mut self, s: &Seg, mut v: usize, seen: &BTreeMap<usize, usize>, owners: &BTreeMap<usize, usize>) {
        for m in &s.msgs {
            let (peer, d) = if m.from == self.me {
                (m.to, '!')
            } else if m.to == self.me {
                (m.from, '?')
            } else {
                continue;
            };
            let w = self.g.node();
            let l = format!("Role{}{d}Role{}: {}", self.p.roles[self.me], self.p.roles[peer], self.p.ty(m).1);
            self.g.e.push((v, w, l));
            v = w;
        }
        match &s.next {
            Next::End => {
                let w = self.g.node();
                self.g.e.push((v, w, "0".into()));
            }
            Next::Either(_, l, r) => {
                let mut owners = owners.clone();
                *owners.entry(v).or_insert(0) += 1;
                self.seg(l, v, seen, &owners);
                self.seg(r, v, seen, &owners);
            }
            Next::State(k) => {
                if let Some(w) = seen.get(k).copied() {
                    // several branches going back to the same place share one edge
                    let back = (v, w, MU.to_string());
                    if w != v && !self.g.e.contains(&back) {
                        self.g.e.push(back);
                    }
                    return;
                }
                if self.silent {
                    let w = self.g.node();
                    self.g.e.push((v, w, MU.into()));
                    v = w;
                }
                let mut seen = seen.clone();
                seen.insert(*k, v);
                let mut owners = owners.clone();
                *owners.entry(v).or_insert(0) += 1;
                self.merged |= owners[&v] > 1;
                for (_, b) in &self.p.states[*k].branches {
                    self.seg(b, v, &seen, &owners);
                }
            }
        }
    }
}
fn reference(p: &Proto, me: usize, silent: bool) -> (Gr, bool) {
    let mut b = Build { p, me, g: Gr::default(), silent, merged: false };
    let v = b.g.node();
    let p: &Proto = p;
    b.seg(&p.init, v, &BTreeMap::new(), &BTreeMap::new());
    (b.g, b.merged)
}

/// Same shape, whatever the order of the edges: `a` and `b` from `x` and `y`; back edges go to paired nodes.
fn same(a: &Gr, b: &Gr, x: usize, y: usize, pair: &mut Vec<(usize, usize)>) -> bool {
    pair.push((x, y));
    let (ox, oy) = (a.out(x), b.out(y));
    let r = ox.len() == oy.len() && assign(a, b, &ox, &oy, &mut vec![false; oy.len()], 0, pair);
    pair.pop();
    r
}
fn assign(a: &Gr, b: &Gr, ox: &[(usize, &str)], oy: &[(usize, &str)], used: &mut Vec<bool>, i: usize, pair: &mut Vec<(usize, usize)>) -> bool {
    if i == ox.len() {
        return true;
    }
    for j in 0..oy.len() {
        if used[j] || ox[i].1 != oy[j].1 {
            continue;
        }
        let ok = match (pair.iter().find(|q| q.0 == ox[i].0), pair.iter().find(|q| q.1 == oy[j].0)) {
            (Some(q), _) => q.1 == oy[j].0,
            (None, Some(_)) => false,
            (None, None) => same(a, b, ox[i].0, oy[j].0, pair),
        };
        if ok {
            used[j] = true;
            // an edge's subgraph matches or not independently of its siblings
            return assign(a, b, ox, oy, used, i + 1, pair) || {
                used[j] = false;
                false
            };
        }
    }
    false
}

/// Trace languages (µ silent) compared by determinisation; a shortest trace of one only.
/// With `ends` the places where the endpoint can stop count too.
fn differ(a: &Gr, b: &Gr) -> Option<(Vec<String>, &'static str)> {
    fn close(g: &Gr, s: BTreeSet<usize>) -> BTreeSet<usize> {
        let mut s = s;
        let mut todo: Vec<usize> = s.iter().copied().collect();
        while let Some(v) = todo.pop() {
            for (w, l) in g.out(v) {
                if l == MU && s.insert(w) {
                    todo.push(w);
                }
            }
        }
        s
    }
    fn step(g: &Gr, s: &BTreeSet<usize>) -> BTreeMap<String, BTreeSet<usize>> {
        let mut m: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
        for v in s {
            for (w, l) in g.out(*v) {
                if l != MU {
                    m.entry(l.to_string()).or_default().insert(w);
                }
            }
        }
        m.into_iter().map(|(l, s)| (l, close(g, s))).collect()
    }
    let st = (close(a, BTreeSet::from([0])), close(b, BTreeSet::from([0])));
    let mut seen = BTreeSet::from([st.clone()]);
    let mut q = std::collections::VecDeque::from([(st, vec![])]);
    while let Some(((x, y), tr)) = q.pop_front() {
        let (sx, sy) = (step(a, &x), step(b, &y));
        let ls: BTreeSet<&String> = sx.keys().chain(sy.keys()).collect();
        for l in ls {
            let mut t = tr.clone();
            t.push(l.clone());
            match (sx.get(l), sy.get(l)) {
                (Some(p), Some(r)) => {
                    let k = (p.clone(), r.clone());
                    if seen.insert(k.clone()) {
                        q.push_back((k, t));
                    }
                }
                (Some(_), None) => return Some((t, "first")),
                _ => return Some((t, "second")),
            }
        }
    }
    None
}

// ---------------------------------------------------------------- running the checker

pub type Graphs = BTreeMap<String, Gr>;

pub fn dump(gs: &HashMap<String, petgraph::Graph<String, String>>) -> Graphs {
    gs.iter()
        .map(|(r, g)| {
            let e = g
                .edge_indices()
                .map(|i| {
                    let (a, b) = g.edge_endpoints(i).unwrap();
                    (a.index(), b.index(), g[i].clone())
                })
                .collect();
            (r.clone(), Gr { n: g.node_count(), e })
        })
        .collect()
}
/// for the generated programs
pub fn print(case: usize, r: Result<(HashMap<String, petgraph::Graph<String, String>>, Option<i32>), Box<dyn std::error::Error>>) {
    let v = match r {
        Ok((g, k)) => serde_json::json!({"case": case, "graphs": dump(&g).into_iter().map(|(r, g)| (r, serde_json::json!({"n": g.n, "e": g.e}))).collect::<BTreeMap<_, _>>(), "k": k}),
        Err(e) => serde_json::json!({"case": case, "error": e.to_string()}),
    };
    println!("{v}");
}

type Answer = Result<(Graphs, Option<i32>), String>;

fn run(p: &Proto, name: &str) -> Result<Answer, String> {
    let a = args(p);
    std::panic::catch_unwind(|| {
        mpstthree::checking::checker(name, a.sessions, a.receivers, a.senders, a.groups)
            .map(|(g, k)| (dump(&g), k))
            .map_err(|e| e.to_string())
    })
    .map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())
}

fn show(p: &Proto) -> String {
    let sp = Sp { p, src: true, module: String::new() };
    let mut s = String::new();
    for r in 0..p.n() {
        s += &format!("type Endpoint{} = {};\n", p.roles[r], sp.mc(&p.init, r));
    }
    for (k, st) in p.states.iter().enumerate() {
        for r in 0..p.n() {
            if r == st.chooser {
                for (b, seg) in &st.branches {
                    s += &format!("type Endpoint{}{k}{b} = {};\n", p.roles[r], sp.mc(seg, r));
                }
            } else {
                s += &format!("enum {} {{\n", p.en(k, r));
                for (b, seg) in &st.branches {
                    s += &format!("    {b}({}),\n", sp.mc(seg, r));
                }
                s += "}\n";
            }
        }
    }
    s
}

/// what the graphs must be; Ok(true) when a listed imprecision was met
fn judge(p: &Proto, gs: &Graphs) -> Result<bool, String> {
    let want: BTreeSet<String> = p.roles.iter().map(|r| format!("Role{r}")).collect();
    let got: BTreeSet<String> = gs.keys().cloned().collect();
    if want != got {
        return Err(format!("graphs for {got:?} instead of {want:?}"));
    }
    let mut merged = false;
    for (me, r) in p.roles.iter().enumerate() {
        let g = &gs[&format!("Role{r}")];
        let (w, m) = reference(p, me, false);
        if g.n != w.n || g.e.len() != w.e.len() || !same(&w, g, 0, 0, &mut vec![]) {
            return Err(format!("the graph of Role{r} is {:?} instead of {:?}", g.e, w.e));
        }
        let (exact, _) = reference(p, me, true);
        if let Some((t, who)) = differ(&exact, g) {
            if !m {
                return Err(format!("the trace {t:?} of Role{r} belongs to {} only", if who == "first" { "the endpoint" } else { "its graph" }));
            }
            merged = true;
        }
    }
    Ok(merged)
}

// ---------------------------------------------------------------- automata file

/// states, transitions (label as in the graphs) and the initial state of every machine
fn read_cfsm(p: &Proto, text: &str) -> Result<Vec<Gr>, String> {
    let mut ms = vec![];
    let mut lines = text.lines().filter(|l| !l.trim().is_empty());
    for me in 0..p.n() {
        let r = format!("Role{}", p.roles[me]);
        for want in [".outputs", ".state graph"] {
            match lines.next() {
                Some(l) if l.trim() == want => {}
                l => return Err(format!("machine {me} ({r}): {l:?} instead of {want}")),
            }
        }
        let mut ids: BTreeMap<String, usize> = BTreeMap::from([(format!("{r}0"), 0)]);
        let mut g = Gr { n: 1, e: vec![] };
        loop {
            let Some(l) = lines.next() else { return Err(format!("machine {me} ({r}) is not complete")) };
            if let Some(m) = l.strip_prefix(".marking ") {
                if m.trim() != format!("{r}0") {
                    return Err(format!("machine {me} ({r}) starts in {m}"));
                }
                break;
            }
            let w: Vec<&str> = l.split(' ').collect();
            let [from, peer, d, pay, to] = w[..] else { return Err(format!("machine {me} ({r}): transition {l:?}")) };
            let peer = peer.parse::<usize>().ok().filter(|x| *x < p.n()).ok_or(format!("machine {me} ({r}): peer in {l:?}"))?;
            if d != "!" && d != "?" {
                return Err(format!("machine {me} ({r}): direction in {l:?}"));
            }
            let mut id = |s: &str| -> Result<usize, String> {
                match s.strip_prefix(&r).filter(|x| x.parse::<usize>().is_ok()) {
                    None => Err(format!("machine {me} ({r}): state {s}")),
                    Some(_) => {
                        let k = ids.len();
                        Ok(*ids.entry(s.to_string()).or_insert(k))
                    }
                }
            };
            let (a, b) = (id(from)?, id(to)?);
            g.e.push((a, b, format!("{r}{d}Role{}: {pay}", p.roles[peer])));
        }
        g.n = ids.len();
        match lines.next() {
            Some(l) if l.trim() == ".end" => {}
            l => return Err(format!("machine {me} ({r}): {l:?} instead of .end")),
        }
        ms.push(g);
    }
    match lines.next() {
        None => Ok(ms),
        Some(l) => Err(format!("one more machine: {l}")),
    }
}

fn judge_cfsm(p: &Proto, gs: &Graphs, text: &str) -> Result<(), String> {
    let ms = read_cfsm(p, text)?;
    for (me, m) in ms.iter().enumerate() {
        let r = format!("Role{}", p.roles[me]);
        let mut g = gs[&r].clone();
        g.e.retain(|e| e.2 != "0");
        if let Some((t, who)) = differ(&g, m) {
            return Err(format!("the trace {t:?} of {r} belongs to {} only\n{text}", if who == "first" { "its graph" } else { "its automaton" }));
        }
        let mut seen = BTreeSet::from([0]);
        let mut todo = vec![0];
        while let Some(v) = todo.pop() {
            for (w, _) in m.out(v) {
                if seen.insert(w) {
                    todo.push(w);
                }
            }
        }
        if seen.len() != m.n {
            return Err(format!("some states of {r} are never reached\n{text}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generators

type RawMsg = (u8, u8, u8);
type RawSeg = (Vec<RawMsg>, u8, u8);
#[derive(Clone, Debug)]
struct Raw {
    n: usize,
    names: usize,
    init: RawSeg,
    states: Vec<(u8, Vec<(RawSeg, u8)>)>,
    pool: Vec<RawSeg>,
    tys: Vec<usize>,
    order: u64,
}
fn raw_seg() -> impl Strategy<Value = RawSeg> {
    (prop_oneof![40 => vec(any::<(u8, u8, u8)>(), 0..5), 1 => vec(any::<(u8, u8, u8)>(), 10..16)], any::<u8>(), any::<u8>())
}

fn proto(nmax: usize, tys: usize) -> impl Strategy<Value = Proto> {
    (
        (2..=nmax, 0..SETS.len()),
        raw_seg(),
        prop_oneof![
            30 => vec((any::<u8>(), vec((raw_seg(), any::<u8>()), 1..4)), 0..4),
            1 => vec((any::<u8>(), vec((raw_seg(), any::<u8>()), 9..14)), 1..3),
        ],
        vec(raw_seg(), 8),
        vec(0..tys, 1..4),
        any::<u64>(),
    )
        .prop_map(|((n, names), init, states, pool, tys, order)| Raw { n, names, init, states, pool, tys, order })
        .prop_map(make)
}

fn make(raw: Raw) -> Proto {
    let n = raw.n;
    let ns = raw.states.len();
    // at most 8 binary choices in all
    let mut pool = raw.pool.clone();
    fn seg(r: &RawSeg, n: usize, ns: usize, depth: usize, pool: &mut Vec<RawSeg>) -> Seg {
        let msgs = r
            .0
            .iter()
            .map(|(a, b, t)| {
                let from = *a as usize % n;
                Msg { from, to: (from + 1 + *b as usize % (n - 1)) % n, ty: *t as usize }
            })
            .collect();
        let next = if r.1 % 4 == 3 && depth < 3 && pool.len() >= 2 {
            let (a, b) = (pool.pop().unwrap(), pool.pop().unwrap());
            let l = seg(&a, n, ns, depth + 1, pool);
            Next::Either(r.2 as usize % n, Box::new(l), Box::new(seg(&b, n, ns, depth + 1, pool)))
        } else if ns > 0 && r.1 % 4 != 0 {
            Next::State(r.2 as usize % ns)
        } else {
            Next::End
        };
        Seg { msgs, next }
    }
    let init = seg(&raw.init, n, ns, 0, &mut pool);
    let mut p = Proto {
        roles: SETS[raw.names][..n].iter().map(|s| s.to_string()).collect(),
        init,
        states: vec![],
        tys: raw.tys.clone(),
        order: (0..n).collect(),
    };
    p.order.sort_by_key(|r| vlib::report::h64(&(raw.order, *r)));
    p.states = raw
        .states
        .iter()
        .map(|(c, bs)| State {
            chooser: *c as usize % n,
            branches: bs
                .iter()
                .enumerate()
                .map(|(i, (s, nm))| {
                    let b = (*nm as usize + i * 7) % BRANCHES.len();
                    (BRANCHES[b].to_string(), seg(s, n, ns, 0, &mut pool))
                })
                .collect(),
        })
        .collect();
    for s in p.states.iter_mut() {
        let mut seen = BTreeSet::new();
        s.branches.retain(|b| seen.insert(b.0.clone()));
    }
    if p.states.len() > 1 && raw.order % 3 == 0 {
        // all branches of one choice look like the others' (same names)
        let b = p.states[0].branches.len();
        for s in p.states[1..].iter_mut() {
            if s.branches.len() == b {
                s.branches.iter_mut().enumerate().for_each(|(i, x)| x.0 = BRANCHES[i].into());
            }
        }
    }
    // unreachable choices go
    p
}

/// number of nodes of the largest reference graph (choices are unfolded on every path)
fn size(p: &Proto) -> usize {
    fn walk(p: &Proto, s: &Seg, seen: u32, left: &mut usize) -> usize {
        if *left == 0 {
            return 0;
        }
        *left -= 1;
        s.msgs.len()
            + 1
            + match &s.next {
                Next::End => 0,
                Next::Either(_, a, b) => walk(p, a, seen, left) + walk(p, b, seen, left),
                Next::State(k) if seen & (1 << k) != 0 => 0,
                Next::State(k) => p.states[*k].branches.iter().map(|b| walk(p, &b.1, seen | (1 << k), left)).sum(),
            }
    }
    walk(p, &p.init, 0, &mut 400)
}

// ---------------------------------------------------------------- C40

fn one40(p: &Proto) -> Result<bool, String> {
    match run(p, "") {
        Err(e) => Err(format!("the checker panicked ({e}) on\n{}", show(p))),
        Ok(Err(e)) => Err(format!("the checker failed ({e}) on\n{}", show(p))),
        Ok(Ok((g, k))) => {
            if k.is_some() {
                return Err("a verdict was returned without any verifier run".into());
            }
            judge(p, &g).map_err(|e| format!("{e}\n{}", show(p)))
        }
    }
}

const KNOWN40: &str = "choice-directly-inside-a-choice";

pub fn c40(replay: Option<serde_json::Value>) -> ! {
    let mut rep = Report::new("C40", "endpoints with a choice or at least four messages");
    vlib::watch::calls("C40", rep.seed);
    if let Some(v) = replay {
        let c = &v["case"];
        let all = c["inputs"].as_array().cloned().unwrap_or(vec![c["input"].clone()]);
        for v in all {
            let c = serde_json::json!({"check": c["check"], "input": v});
            vlib::watch::set_case(&c);
            let p: Proto = serde_json::from_value(v).unwrap();
            match one40(&p) {
                Ok(m) => {
                    if m && !rep.known(KNOWN40) {
                        rep.violation(&format!("two choices share one node\n{}", show(&p)), c.clone());
                    }
                }
                Err(e) => rep.violation(&e, c.clone()),
            }
            if c["check"] == "macro" {
                compiled(&mut rep, vec![p]);
            }
        }
        println!("C40: replay passed");
        std::process::exit(0)
    }
    let n = rep.n(4000, 150_000);
    let keep = std::cell::RefCell::new(vec![]);
    let want = rep.n(48, 500) as usize;
    let count = std::cell::Cell::new(0usize);
    let f = |p: &Proto| if size(p) > 300 { Ok(None) } else { one40(p).map(Some) };
    vlib::pbt::check_par(&mut rep, "types", n, 1500, proto(6, TYS.len()), f, |p, r, rep| {
        let Some(merged) = r else {
            rep.class("skipped (too many paths)");
            return Ok(());
        };
        if merged {
            rep.class("two choices share one node and one loops");
            if !rep.known(KNOWN40) {
                return Err(format!("two choices share one node\n{}", show(p)));
            }
        }
        class(p, rep);
        count.set(count.get() + 1);
        let w = p.weight();
        if (4..60).contains(&w) && keep.borrow().len() < want && count.get() % (n as usize / want / 2).max(1) == 0 {
            keep.borrow_mut().push(p.clone());
        }
        if !p.states.is_empty() || w >= 4 {
            rep.nontrivial(&format!("{p:?}"), || serde_json::json!({"endpoints": show(p)}));
        }
        Ok(())
    });
    compiled(&mut rep, keep.into_inner());
    rep.finish()
}

fn class(p: &Proto, rep: &mut Report) {
    rep.class(&format!("{} participants", p.n()));
    let e = p.segs().iter().any(|s| matches!(s.next, Next::Either(..)));
    let s = p.segs().iter().any(|s| matches!(s.next, Next::State(_)));
    rep.class(match (e, s) {
        (false, false) => "straight",
        (true, false) => "binary choices",
        (false, true) => "enumerated choices",
        _ => "binary and enumerated choices",
    });
}

/// The same through the macros, on types printed by the compiler.
fn compiled(rep: &mut Report, ps: Vec<Proto>) {
    let n = ps.len();
    let ws = vlib::ws::Ws {
        id: "C40".into(),
        mods: ps.iter().enumerate().map(|(i, p)| module(i, p)).collect(),
        entry_ty: "fn()".into(),
        entries: (0..n).map(|i| format!("m{i}::run as fn()")).collect(),
        main: "for f in v { f() }".into(),
        shards: 8,
    };
    let mut skip: Vec<usize> = vec![];
    let out = loop {
        match ws.build(&skip) {
            Ok(bin) => break std::process::Command::new(bin).output().expect("run"),
            Err(e) => {
                // rustc cannot prove some recursive session types `Send` (E0275): nothing to learn from those
                let (gave_up, bad): (Vec<_>, Vec<_>) = e.bad.into_iter().partition(|(_, m)| m.contains("error[E0275]"));
                if let Some((i, m)) = bad.into_iter().min_by_key(|(i, _)| ps[*i].weight()) {
                    rep.violation(&format!("the macros do not accept\n{}\n{m}", show(&ps[i])), serde_json::json!({"check": "macro", "input": ps[i]}));
                }
                if gave_up.is_empty() || skip.len() + gave_up.len() > n / 2 {
                    eprintln!("{}\nC40: the compiler gave up on {} of {n} programs", e.stderr, skip.len() + gave_up.len());
                    std::process::exit(3);
                }
                skip.extend(gave_up.into_iter().map(|x| x.0));
            }
        }
    };
    rep.extra.insert("programs the compiler gave up on (E0275)".into(), serde_json::json!(skip.len()));
    ws.remove();
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut seen = 0;
    for l in text.lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        let p = &ps[v["case"].as_u64().unwrap() as usize];
        let fail = |rep: &mut Report, e: &str| -> ! {
            rep.violation(&format!("through the macros: {e}\n{}", show(p)), serde_json::json!({"check": "macro", "input": p}))
        };
        if let Some(e) = v["error"].as_str() {
            fail(rep, e);
        }
        let gs: Graphs = v["graphs"]
            .as_object()
            .unwrap()
            .iter()
            .map(|(r, g)| (r.clone(), Gr { n: g["n"].as_u64().unwrap() as usize, e: serde_json::from_value(g["e"].clone()).unwrap() }))
            .collect();
        match judge(p, &gs) {
            Err(e) => fail(rep, &e),
            Ok(true) if !rep.known(KNOWN40) => fail(rep, "two choices share one node"),
            Ok(_) => {}
        }
        rep.eval();
        seen += 1;
    }
    if seen + skip.len() != n {
        let p = &ps[seen.min(n - 1)];
        rep.violation(
            &format!("a program using the macros died: {}\n{}", String::from_utf8_lossy(&out.stderr), show(p)),
            serde_json::json!({"check": "macro", "input": p}),
        );
    }
    rep.extra.insert("programs using the macros".into(), serde_json::json!(seen));
}

fn module(i: usize, p: &Proto) -> String {
    let sp = Sp { p, src: true, module: String::new() };
    let mut s = String::from("use crate::pre::{End, Recv, Send, RoleEnd, RoleBroadcast, Either, Session};\n");
    s += &format!("mpstthree::create_meshedchannels!(MeshedChannels, {});\n", p.n());
    s += "mpstthree::create_multiple_normal_role!(";
    for r in &p.roles {
        s += &format!("Role{r}, Role{r}Dual | ");
    }
    s += ");\nmpstthree::create_multiple_normal_name!(";
    s += &p.roles.iter().map(|r| format!("Name{r}")).collect::<Vec<_>>().join(", ");
    s += ");\n";
    let choosers: BTreeSet<usize> = p.segs().iter().filter_map(|s| if let Next::Either(c, _, _) = s.next { Some(c) } else { None }).collect();
    for c in choosers {
        let r = &p.roles[c];
        s += &format!("mpstthree::create_broadcast_role!(RoleAllto{r}, Role{r}toAll);\n");
    }
    let decl: BTreeSet<&str> =
        p.segs().iter().flat_map(|s| s.msgs.iter()).map(|m| p.ty(m)).map(|t| if t.0.contains("HashMap") { "pub struct Ack;" } else { t.2 }).collect();
    for d in decl {
        s += d;
        s.push('\n');
    }
    let decls: BTreeSet<&str> = p.segs().iter().flat_map(|s| s.msgs.iter()).map(|m| p.ty(m).2).collect();
    let _ = decls;
    s += &show(p);
    let group = |sender: bool| -> String {
        let mut v = vec![];
        for (k, st) in p.states.iter().enumerate() {
            for (b, _) in &st.branches {
                let mut g = vec![];
                if sender {
                    g.push(format!("Endpoint{}{k}{b}", p.roles[st.chooser]));
                }
                for r in (0..p.n()).filter(|r| *r != st.chooser) {
                    g.push(format!("{}, {b}", p.en(k, r)));
                }
                v.push(format!("    [{}]", g.join(", ")));
            }
        }
        v.join(",\n")
    };
    if !p.states.is_empty() {
        s += &format!("mpstthree::checker_concat_impl!(\n{}\n);\n", group(false));
    }
    s += &format!("pub fn run() {{\n    let r = mpstthree::checker_concat!(\"\", {}", p.order.iter().map(|r| format!("Endpoint{}", p.roles[*r])).collect::<Vec<_>>().join(", "));
    if !p.states.is_empty() {
        s += &format!(" =>\n{}", group(true));
    }
    s += &format!("\n);\n    sup::auto::print({i}, r);\n}}\n");
    s
}

// ---------------------------------------------------------------- C41

/// what the stand-in verifier does at each depth (the last one repeats)
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Tool {
    Yes,
    No,
    Mixed,
    /// nothing printed, exit status 1
    Fail,
    /// a message on its error output, exit status 1
    Message,
    /// nothing printed, exit status 0
    Silent,
    /// starts well, then dies
    Dies,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case41 {
    p: Proto,
    plan: Vec<Tool>,
    name: String,
    outputs: bool,
}
impl Case41 {
    fn at(&self, k: usize) -> &Tool {
        self.plan.get(k - 1).unwrap_or(self.plan.last().unwrap())
    }
}

fn install(s: &Scratch) {
    use std::os::unix::fs::PermissionsExt;
    let bin = s.0.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    std::fs::create_dir_all(s.0.join("cwd")).unwrap();
    let f = bin.join("KMC");
    std::fs::write(
        &f,
        r#"#!/bin/sh
echo "$@" >> "$KMC_DIR/calls"
[ "$2" != 1 ] || cat "$1" > "$KMC_DIR/input" || exit 9
i=0; while [ $i -lt "$2" ] && read -r l; do m="$l"; i=$((i + 1)); done < "$KMC_DIR/plan"
case "$m" in
  Yes) echo "CSA: True"; echo "Basic: True"; echo "reduced $2-exhaustive: True"; echo "reduced $2-safe: True";;
  No) echo "CSA: False"; echo "reduced $2-exhaustive: False"; echo "reduced $2-safe: False";;
  Mixed) echo "CSA: True"; echo "Basic: True"; echo "reduced $2-exhaustive: True"; echo "reduced $2-safe: False";;
  Silent) exit 0;;
  Fail) exit 1;;
  Message) echo "KMC: parse error" >&2; exit 1;;
  Dies) echo "CSA: True"; kill -9 $$;;
esac
"#,
    )
    .unwrap();
    std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
    let path = std::env::var("PATH").unwrap_or_default();
    std::env::set_var("PATH", format!("{}:{path}", bin.display()));
    std::env::set_var("KMC_DIR", &s.0);
    std::env::set_current_dir(s.0.join("cwd")).unwrap();
}

fn one41(s: &Scratch, c: &Case41) -> Result<String, String> {
    let cwd = s.0.join("cwd");
    let _ = std::fs::remove_dir_all(cwd.join("cfsm"));
    let _ = std::fs::remove_dir_all(cwd.join("outputs"));
    if c.outputs {
        std::fs::create_dir_all(cwd.join("outputs")).unwrap();
    }
    let _ = std::fs::remove_file(s.0.join("calls"));
    let _ = std::fs::remove_file(s.0.join("input"));
    std::fs::write(s.0.join("plan"), c.plan.iter().map(|t| format!("{t:?}\n")).collect::<String>()).unwrap();
    let r = run(&c.p, &c.name).map_err(|e| format!("the checker panicked ({e}) on\n{}", show(&c.p)))?;
    // what the verifier was given
    let text = std::fs::read_to_string(s.0.join("input")).map_err(|_| "the verifier was given no automata".to_string())?;
    let graphs: Graphs = (0..c.p.n()).map(|me| (format!("Role{}", c.p.roles[me]), reference(&c.p, me, false).0)).collect();
    judge_cfsm(&c.p, &graphs, &text).map_err(|e| format!("{e}\n{}", show(&c.p)))?;
    let calls: Vec<String> = std::fs::read_to_string(s.0.join("calls")).unwrap_or_default().lines().map(String::from).collect();
    // what must come back
    let stop = (1..=50).find(|k| !matches!(c.at(*k), Tool::No | Tool::Mixed));
    let asked = stop.unwrap_or(50);
    for (i, l) in calls.iter().enumerate() {
        if *l != format!("cfsm/{}.txt {} --fsm", c.name, i + 1) {
            return Err(format!("call {} of the verifier: {l}", i + 1));
        }
    }
    if calls.len() != asked {
        return Err(format!("the verifier was asked {} times instead of {asked}", calls.len()));
    }
    match (stop.map(|k| (k, c.at(k))), r) {
        (Some((k, Tool::Yes)), Ok((g, Some(x)))) if x as usize == k => {
            judge(&c.p, &g)?;
            Ok("verified".into())
        }
        (Some((k, Tool::Yes)), r) => Err(format!("the verifier accepted at {k}, the caller got {:?}", r.map(|x| x.1))),
        (None, Ok((g, None))) => {
            judge(&c.p, &g)?;
            Ok("never verified".into())
        }
        (None, r) => Err(format!("the verifier never accepted, the caller got {:?}", r.map(|x| x.1))),
        (Some((k, t)), Ok((_, Some(x)))) => Err(format!("the verifier failed at {k} ({t:?}) and the caller got success at {x}")),
        (Some(_), Ok((_, None))) | (Some(_), Err(_)) => Ok("the verifier failed".into()),
    }
}

pub fn c41(replay: Option<serde_json::Value>) -> ! {
    let mut rep = Report::new("C41", "endpoints with a choice or four messages, or a verifier that does not accept at once");
    vlib::watch::calls("C41", rep.seed);
    let s = Scratch::new("c41");
    install(&s);
    if let Some(v) = replay {
        let c: Case41 = serde_json::from_value(v["case"]["input"].clone()).unwrap();
        match one41(&s, &c) {
            Ok(_) => {
                println!("C41: replay passed");
                std::process::exit(0)
            }
            Err(e) => rep.violation(&e, v["case"].clone()),
        }
    }
    // labels of the automata are single words: payloads whose printed form has no space
    let plain = || proto(5, TYS.len());
    let go = |c: &Case41, rep: &mut Report| -> Result<(), String> {
        if size(&c.p) > 200 {
            rep.class("skipped (too many paths)");
            return Ok(());
        }
        let k = one41(&s, c)?;
        rep.class(&k);
        class(&c.p, rep);
        if !c.p.states.is_empty() || c.p.weight() >= 4 || k != "verified" {
            rep.nontrivial(&format!("{c:?}"), || serde_json::json!({"endpoints": show(&c.p), "verifier": c.plan, "outcome": k}));
        }
        Ok(())
    };
    let name = || prop_oneof![Just("chat".to_string()), "[a-z][a-z0-9_]{0,12}"];
    let n = rep.n(700, 20_000);
    let one = (plain(), name(), any::<bool>()).prop_map(|(p, name, outputs)| Case41 { p, plan: vec![Tool::Yes], name, outputs });
    vlib::pbt::check_with(&mut rep, "automata", n, 600, one, go);
    let n = rep.n(250, 5000);
    let tool = || prop_oneof![3 => Just(Tool::Yes), 1 => Just(Tool::Fail), 1 => Just(Tool::Message), 1 => Just(Tool::Dies), 1 => Just(Tool::Silent)];
    let no = || prop_oneof![Just(Tool::No), Just(Tool::Mixed)];
    let plan = prop_oneof![
        3 => (vec(no(), 0..6), tool()).prop_map(|(mut v, t)| { v.push(t); v }),
        1 => (40usize..54, no(), tool()).prop_map(|(k, f, t)| { let mut v = vec![f; k]; v.push(t); v }),
        1 => no().prop_map(|f| vec![f]),
        1 => (47usize..51, tool()).prop_map(|(k, t)| { let mut v = vec![Tool::No; k]; v.push(t); v }),
    ];
    let small = || proto(4, TYS.len()).prop_map(|mut p| {
        p.states.truncate(1);
        let n = p.states.len();
        p.cut(n);
        p
    });
    let many = (small(), plan, name(), any::<bool>()).prop_map(|(p, plan, name, outputs)| Case41 { p, plan, name, outputs });
    vlib::pbt::check_with(&mut rep, "verdicts", n, 200, many, go);
    // no verifier at all
    let path = std::env::var("PATH").unwrap_or_default();
    std::env::set_var("PATH", s.0.join("empty"));
    let n = rep.n(20, 200);
    vlib::pbt::check_with(&mut rep, "missing", n, 100, small(), |p, rep| {
        if size(p) > 200 {
            return Ok(());
        }
        if let Ok((_, Some(k))) = run(p, "chat")? {
            return Err(format!("there is no verifier and the caller got success at {k}"));
        }
        rep.class("no verifier installed");
        Ok(())
    });
    std::env::set_var("PATH", path);
    std::env::set_current_dir("/").unwrap();
    drop(s);
    rep.finish()
}
