//! Single-point deviations of a participant from its protocol.
use crate::emit::*;
use crate::ir::*;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case {
    pub program: Prog,
    /// (protocol, deviation)
    pub dev: (usize, Dev),
}

fn reachable(p: &Proto) -> Vec<Option<(usize, usize)>> {
    let mut segs = vec![None];
    let mut i = 0;
    while i < segs.len() {
        if let Next::State(k) = p.branch(segs[i]).next {
            for b in 0..p.states[k].branches.len() {
                if !segs.contains(&Some((k, b))) {
                    segs.push(Some((k, b)));
                }
            }
        }
        i += 1;
    }
    segs
}

fn branch_mut(p: &mut Proto, seg: Option<(usize, usize)>) -> &mut Branch {
    match seg {
        None => &mut p.init,
        Some((k, b)) => &mut p.states[k].branches[b],
    }
}

fn between(p: &Proto, seg: Option<(usize, usize)>, r: usize, q: usize) -> Vec<(bool, String)> {
    p.branch(seg).msgs.iter().filter(|m| (m.from, m.to) == (r, q) || (m.from, m.to) == (q, r)).map(|m| (m.from == r, m.ty.clone())).collect()
}

fn other_type(ty: &str, salt: usize) -> String {
    let ts = crate::val::TYPES;
    let i = ts.iter().position(|t| *t == ty).unwrap_or(0);
    ts[(i + 1 + salt % (ts.len() - 1)) % ts.len()].to_string()
}

/// Every deviation of one protocol of a program, as (class, deviation).
pub fn all(g: &Prog, which: usize, salt: usize) -> Vec<(String, Dev)> {
    let p = &g.ps[which];
    let f = fam(&p.family);
    let n = p.n();
    let solo = p.family.starts_with("solo");
    let named = matches!(f, Fam::Multi | Fam::MultiCancel | Fam::Simple | Fam::Three | Fam::Bcast);
    let mut out: Vec<(String, Dev)> = vec![];
    for seg in reachable(p) {
        for role in (f == Fam::Bcast) as usize..n {
            let acts = Emit::actions(p, role, seg);
            let mut add = |what: &str, at: usize, kind: DevKind| out.push((what.to_string(), Dev { kind, role, seg, at }));
            for (at, a) in acts.iter().enumerate() {
                let salt = salt + at + role;
                match a {
                    Kind::Send { to: q, ty } | Kind::Recv { from: q, ty } => {
                        let what = if matches!(a, Kind::Send { .. }) { "send" } else { "receive" };
                        add(&format!("{what} skipped"), at, DevKind::Skip);
                        add(&format!("{what} repeated"), at, DevKind::Repeat);
                        add(&format!("{what} turned around"), at, DevKind::Flip);
                        add(&format!("{what} with another payload type"), at, DevKind::Type(other_type(ty, salt)));
                        if !solo {
                            add(&format!("closed before a {what}"), at, DevKind::Close);
                        }
                        add(&format!("session used again after a {what}"), at, DevKind::Reuse);
                        add(&format!("session duplicated before a {what}"), at, DevKind::Clone);
                        if acts.get(at + 1).is_some_and(|b| b != a && matches!(b, Kind::Send { .. } | Kind::Recv { .. })) {
                            add("actions swapped", at, DevKind::Swap);
                        }
                        let method = |r: usize| f == Fam::Three && p.style >> (21 + r) & 1 == 1;
                        let xs: Vec<usize> = ((f == Fam::Bcast) as usize..n).filter(|x| x != q && *x != role).collect();
                        let x = (!xs.is_empty()).then(|| xs[salt % xs.len()]);
                        if let Some(x) = x.filter(|x| named && !method(*x) && !method(role)) {
                            add(&format!("{what} with the wrong participant"), at, DevKind::Peer(x));
                            add(&format!("{what} in the name of another participant"), at, DevKind::Myself(x));
                        }
                    }
                    Kind::Choose { state } => {
                        add("session duplicated before a choice", at, DevKind::Clone);
                        if !solo {
                            add("closed before a choice", at, DevKind::Close);
                        }
                        let brs = &p.states[*state].branches;
                        for q in (0..n).filter(|q| *q != role) {
                            for (b, w) in (0..brs.len()).flat_map(|b| (0..brs.len()).map(move |w| (b, w))) {
                                // the types must tell the branches apart
                                let tell = (0..n).any(|x| {
                                    x != q && between(p, Some((*state, b)), q, x) != between(p, Some((*state, w)), q, x)
                                });
                                if b != w && tell {
                                    add("one participant is told another branch", at, DevKind::Label(q, w));
                                    break;
                                }
                            }
                        }
                    }
                    Kind::Offer { .. } => {
                        if !solo {
                            add("closed before an offer", at, DevKind::Close);
                        }
                        add("session duplicated before an offer", at, DevKind::Clone);
                    }
                    Kind::Close => add("session duplicated before closing", at, DevKind::Clone),
                }
            }
            if !f.binary() && !(f == Fam::Bcast && role == 0) {
                let partners: Vec<usize> = acts
                    .iter()
                    .filter_map(|a| match a {
                        Kind::Send { to: q, .. } | Kind::Recv { from: q, .. } => Some(*q),
                        _ => None,
                    })
                    .collect();
                let others: Vec<usize> = (0..n).filter(|q| *q != role && !(f == Fam::Bcast && *q == 0)).collect();
                let mut stack = |what: &str, at: usize, d: StackDev| {
                    out.push((format!("role stack: {what}"), Dev { kind: DevKind::Stack(d), role, seg, at }))
                };
                if p.branch(seg).next == Next::End && !others.is_empty() {
                    stack("one more partner before the end", 0, StackDev::Extra(others[salt % others.len()]));
                }
                for (at, q) in partners.iter().enumerate() {
                    stack("a partner missing", at, StackDev::Missing);
                    if partners.get(at + 1).is_some_and(|x| x != q) {
                        stack("two partners swapped", at, StackDev::Swapped);
                    }
                    let rest: Vec<&usize> = others.iter().filter(|x| *x != q).collect();
                    if !rest.is_empty() {
                        stack("another partner", at, StackDev::Other(*rest[(salt + at) % rest.len()]));
                    }
                }
            }
            let ms = &p.branch(seg).msgs;
            for (mi, m) in ms.iter().enumerate() {
                if m.from != role && m.to != role {
                    continue;
                }
                let mut types = |what: &str, ed: &dyn Fn(&mut Vec<Msg>)| {
                    let mut alt = p.clone();
                    ed(&mut branch_mut(&mut alt, seg).msgs);
                    out.push((format!("not dual: {what}"), Dev { kind: DevKind::Types(Box::new(alt)), role, seg, at: mi }));
                };
                types("payload type", &|v| v[mi].ty = other_type(&m.ty, salt + mi));
                types("message missing", &|v| {
                    v.remove(mi);
                });
                types("message turned around", &|v| v[mi] = Msg { from: m.to, to: m.from, ..m.clone() });
                if let Some(t) = &m.t {
                    let t2 = t.shifted(salt + mi);
                    types("window", &|v| v[mi].t = Some(t2.clone()));
                }
                let nx = (mi + 1..ms.len()).find(|j| (ms[*j].from, ms[*j].to) == (m.from, m.to) || (ms[*j].from, ms[*j].to) == (m.to, m.from));
                if let Some(j) = nx.filter(|j| ms[*j] != *m) {
                    types("order", &|v| v.swap(mi, j));
                }
            }
        }
    }
    out
}
