//! Global protocols: a prefix of messages followed by choice states, each choice broadcast by its
//! chooser to every other role. This is the reference semantics the generated programs are compared to.
use crate::tspec::TSpec;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Msg {
    pub from: usize,
    pub to: usize,
    pub ty: String,
    /// window of the message (timed families)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub t: Option<TSpec>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Next {
    End,
    State(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Branch {
    pub msgs: Vec<Msg>,
    pub next: Next,
    /// window of the choice made at the end of this segment (timed families)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub t: Option<TSpec>,
    /// the same for each receiver of that choice, when they differ
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub ct: Vec<TSpec>,
}
impl Branch {
    /// Window of the choice at the end of this segment for receiver `q`.
    pub fn choice_t(&self, q: usize) -> Option<&TSpec> {
        self.ct.get(q).or(self.t.as_ref())
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct State {
    pub chooser: usize,
    pub branches: Vec<Branch>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Proto {
    pub family: String,
    pub names: Vec<String>,
    pub init: Branch,
    pub states: Vec<State>,
    /// style bits for families offering several equivalent notations
    pub style: u64,
}

/// What one generated program runs: one protocol, or two of them sharing one thread that plays role
/// `hold.0` of the first and `hold.1` of the second.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prog {
    pub ps: Vec<Proto>,
    #[serde(default)]
    pub hold: (usize, usize),
}

impl Prog {
    pub fn one(p: Proto) -> Prog {
        Prog { ps: vec![p], hold: (0, 0) }
    }
    pub fn n(&self) -> usize {
        self.ps.iter().map(|p| p.n()).sum()
    }
    /// All participants of the program run in the calling thread.
    pub fn solo(&self) -> bool {
        self.ps[0].family.starts_with("solo")
    }
    /// (protocol, role) of participant `g`
    pub fn at(&self, g: usize) -> (usize, usize) {
        let n = self.ps[0].n();
        if g < n {
            (0, g)
        } else {
            (1, g - n)
        }
    }
    pub fn base(&self, i: usize) -> usize {
        if i == 0 {
            0
        } else {
            self.ps[0].n()
        }
    }
    pub fn name(&self, g: usize) -> &str {
        let (i, r) = self.at(g);
        &self.ps[i].names[r]
    }
    /// Participants played by each thread, in the order of the join handles.
    pub fn threads(&self) -> Vec<Vec<usize>> {
        if self.solo() {
            return vec![(0..self.n()).collect()];
        }
        if self.ps.len() == 1 {
            return (0..self.n()).map(|r| vec![r]).collect();
        }
        let n = self.ps[0].n();
        let mut t: Vec<Vec<usize>> = vec![];
        t.extend((0..n).filter(|r| *r != self.hold.0).map(|r| vec![r]));
        t.extend((0..self.ps[1].n()).filter(|r| *r != self.hold.1).map(|r| vec![n + r]));
        t.push(vec![self.hold.0, n + self.hold.1]);
        t
    }
    /// The script as seen by protocol `i`.
    pub fn view(&self, s: &Script, i: usize) -> Script {
        let mut s = s.clone();
        if i == 1 {
            s.seed = crate::report::h64(&(s.seed, "second"));
            s.picks.reverse();
        }
        s.slow = s.slow.filter(|x| self.at(x.0).0 == i).map(|x| (self.at(x.0).1, x.1, x.2));
        s
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Send { to: usize, ty: String },
    Recv { from: usize, ty: String },
    Choose { state: usize },
    Offer { state: usize, from: usize },
    Close,
}

/// Position of one role: `seg` = None for the prefix, Some((state, branch)) otherwise.
#[derive(Clone, Debug, PartialEq)]
pub struct Pos {
    pub seg: Option<(usize, usize)>,
    pub idx: usize,
}

impl Proto {
    pub fn n(&self) -> usize {
        self.names.len()
    }
    /// Participant 0 only monitors the others.
    pub fn monitored(&self) -> bool {
        self.family == "bcast"
    }
    pub fn branch(&self, seg: Option<(usize, usize)>) -> &Branch {
        match seg {
            None => &self.init,
            Some((k, b)) => &self.states[k].branches[b],
        }
    }
    /// Next action of role `r` at `pos`, with the index of the message performing it.
    pub fn action(&self, r: usize, pos: &Pos) -> (Kind, usize) {
        if r == 0 && self.monitored() {
            return (Kind::Close, 0);
        }
        let br = self.branch(pos.seg);
        for (i, m) in br.msgs.iter().enumerate().skip(pos.idx) {
            if m.from == r {
                return (Kind::Send { to: m.to, ty: m.ty.clone() }, i);
            }
            if m.to == r {
                return (Kind::Recv { from: m.from, ty: m.ty.clone() }, i);
            }
        }
        let i = br.msgs.len();
        match br.next {
            Next::End => (Kind::Close, i),
            Next::State(k) => {
                let c = self.states[k].chooser;
                if c == r {
                    (Kind::Choose { state: k }, i)
                } else {
                    (Kind::Offer { state: k, from: c }, i)
                }
            }
        }
    }
    /// Windows of the action of role `r` performed by message `mi` of `seg` (the choice when past the
    /// messages: one window for each receiver, in order).
    pub fn timing(&self, r: usize, seg: Option<(usize, usize)>, mi: usize) -> Vec<TSpec> {
        let br = self.branch(seg);
        match (br.msgs.get(mi), &br.next) {
            (Some(m), _) => m.t.iter().cloned().collect(),
            (None, Next::State(k)) if self.states[*k].chooser == r => {
                (0..self.n()).filter(|q| *q != r).filter_map(|q| br.choice_t(q).cloned()).collect()
            }
            (None, Next::State(_)) => br.choice_t(r).into_iter().cloned().collect(),
            (None, Next::End) => vec![],
        }
    }
    /// Number of choices on the shortest way out of each state (usize::MAX if it never ends).
    pub fn dist(&self) -> Vec<usize> {
        let n = self.states.len();
        let mut d = vec![usize::MAX; n];
        for _ in 0..=n {
            for k in 0..n {
                for b in &self.states[k].branches {
                    let v = match b.next {
                        Next::End => 1,
                        Next::State(j) => d[j].saturating_add(1),
                    };
                    if v < d[k] {
                        d[k] = v;
                    }
                }
            }
        }
        d
    }
    pub fn out_branch(&self, k: usize) -> usize {
        let d = self.dist();
        let s = &self.states[k];
        (0..s.branches.len())
            .min_by_key(|&b| match s.branches[b].next {
                Next::End => 0,
                Next::State(j) => d[j],
            })
            .unwrap()
    }
    /// The branch taken at the `j`-th choice of a run.
    pub fn pick(&self, picks: &[u8], j: usize, k: usize) -> usize {
        match picks.get(j) {
            // the last values keep a run going where that is possible
            Some(p) if *p >= 240 && self.states[k].branches.iter().any(|b| b.next != Next::End) => {
                let on: Vec<usize> = (0..self.states[k].branches.len()).filter(|b| self.states[k].branches[*b].next != Next::End).collect();
                on[*p as usize % on.len()]
            }
            Some(p) => *p as usize % self.states[k].branches.len(),
            None => self.out_branch(k),
        }
    }
    /// Seed of the payload of the `i`-th message of the `j`-th segment of a run.
    pub fn val_seed(seed: u64, j: usize, i: usize) -> u64 {
        crate::report::h64(&(seed, j, i))
    }
    /// The fault-free traces of every role.
    pub fn traces(&self, seed: u64, picks: &[u8]) -> Vec<Vec<Ev>> {
        let mut t: Vec<Vec<Ev>> = vec![vec![]; self.n()];
        let mut seg = None;
        let mut j = 0;
        loop {
            let br = self.branch(seg);
            for (i, m) in br.msgs.iter().enumerate() {
                let v = crate::val::expect(&m.ty, Self::val_seed(seed, j, i));
                t[m.from].push(Ev::Sent(m.to, v.clone()));
                t[m.to].push(Ev::Got(m.from, v));
            }
            match br.next {
                Next::End => {
                    for r in 0..self.n() {
                        t[r].push(Ev::Closed);
                    }
                    return t;
                }
                Next::State(k) => {
                    let b = self.pick(picks, j, k);
                    for r in self.monitored() as usize..self.n() {
                        if r == self.states[k].chooser {
                            t[r].push(Ev::Chose(b));
                        } else {
                            t[r].push(Ev::Offered(self.states[k].chooser, b));
                        }
                    }
                    seg = Some((k, b));
                    j += 1;
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize)]
pub enum Ev {
    Sent(usize, String),
    Got(usize, String),
    Chose(usize),
    Offered(usize, usize),
    Closed,
    /// the operation reported a failure (error or panic)
    Failed(String),
    /// the script stopped this role here
    Faulted,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    /// explicit cancel of the session
    Cancel,
    /// drop the session and return Ok-less (Err)
    ReturnErr,
    /// drop the session and return Ok (binary sessions only)
    ReturnOk,
    /// panic while holding the session
    Panic,
    /// panic, with the session cancelled by a destructor that runs while the thread unwinds
    Unwind,
    /// perform the action outside its window (timed families)
    Late,
    /// stay silent until the window of the one who waits has closed, then give up (timed families)
    Stall,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub role: usize,
    pub step: usize,
    pub kind: FaultKind,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Script {
    pub seed: u64,
    pub picks: Vec<u8>,
    pub sched: Vec<u16>,
    pub faults: Vec<Fault>,
    /// (participant, step, milliseconds): how long a participant on a thread of its own waits before a step
    #[serde(default)]
    pub slow: Option<(usize, usize, u64)>,
    /// (participant, step): a timed receive that starts shortly before its window closes
    #[serde(default)]
    pub hurry: Option<(usize, usize)>,
}
