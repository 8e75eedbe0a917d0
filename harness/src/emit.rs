//! Turns a protocol into a Rust module using one of the library's user-facing notations.
use crate::drive::Sem;
use crate::ir::*;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fam {
    /// generate!("basic" | "recursive" | "cancel" | "rec_and_cancel", ..)
    Basic,
    Recursive,
    Cancel,
    RecCancel,
    /// the macros_multiple toolkit, plain and cancel-aware sends
    Multi,
    MultiCancel,
    /// built-in three-party functions and methods
    Three,
    /// the macros_simple toolkit over the built-in three-party structure
    Simple,
    /// two participants over plain binary sessions, plain or cancel-aware sends
    Binary,
    BinaryCancel,
    /// generate_atmp!(..): timed
    Atmp,
    /// the macros_multiple toolkit with checked sends and a monitor (participant 0) broadcasting cancellation
    Bcast,
}

pub fn fam(s: &str) -> Fam {
    match s {
        "basic" => Fam::Basic,
        "recursive" => Fam::Recursive,
        "cancel" => Fam::Cancel,
        "rec_and_cancel" => Fam::RecCancel,
        "multi" | "multi_lr" | "solo" | "solo_lr" => Fam::Multi,
        "inter" => Fam::RecCancel,
        "atmp_inter" => Fam::Atmp,
        "multi_cancel" | "multi_cancel_lr" | "solo_cancel" | "solo_cancel_lr" => Fam::MultiCancel,
        "three" | "three_lr" => Fam::Three,
        "simple" | "simple_lr" | "solo3" | "solo3_lr" => Fam::Simple,
        "binary" => Fam::Binary,
        "binary_cancel" => Fam::BinaryCancel,
        "atmp" | "atmp_lr" => Fam::Atmp,
        "bcast" => Fam::Bcast,
        f => panic!("unknown family {f}"),
    }
}

impl Fam {
    pub fn sem(self) -> Sem {
        match self {
            Fam::Basic | Fam::Recursive => Sem { send_aware: false, recv_panics: true, close_panics: false, monitored: false },
            Fam::Cancel | Fam::RecCancel => Sem { send_aware: true, recv_panics: false, close_panics: false, monitored: false },
            Fam::Multi | Fam::Three | Fam::Simple | Fam::Binary => Sem { send_aware: false, recv_panics: false, close_panics: false, monitored: false },
            // `send_canceled` panics when the peer is gone; both are failures of the send
            Fam::BinaryCancel => Sem { send_aware: true, recv_panics: false, close_panics: false, monitored: false },
            // timed actions report most failures by panicking
            Fam::Atmp => Sem { send_aware: true, recv_panics: true, close_panics: false, monitored: false },
            // failures after a cancel are mostly reported by panicking
            Fam::Bcast => Sem { send_aware: true, recv_panics: true, close_panics: true, monitored: true },
            Fam::MultiCancel => Sem { send_aware: true, recv_panics: false, close_panics: false, monitored: false },
        }
    }
    /// n-ary, recursive choices available
    pub fn enums(self) -> bool {
        !matches!(self, Fam::Basic | Fam::Cancel)
    }
    /// binary Either choices available
    pub fn eithers(self) -> bool {
        matches!(self, Fam::Atmp | Fam::Basic | Fam::Cancel | Fam::RecCancel | Fam::Multi | Fam::MultiCancel | Fam::Three | Fam::Simple) || self.binary()
    }
    pub fn timed(self) -> bool {
        self == Fam::Atmp
    }
    pub fn binary(self) -> bool {
        matches!(self, Fam::Binary | Fam::BinaryCancel)
    }
    /// exactly three participants
    pub fn three(self) -> bool {
        matches!(self, Fam::Three | Fam::Simple)
    }
    /// participants must be called A, B and C
    pub fn abc(self) -> bool {
        self == Fam::Three
    }
}

pub struct Emit<'a> {
    pub p: &'a Proto,
    pub f: Fam,
    pub o: String,
    /// a deviation of one participant from the protocol
    pub dev: Option<&'a Dev>,
    /// received values are declared with their type
    pub annot: bool,
}

/// One place where a participant deviates from its protocol.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Dev {
    pub kind: DevKind,
    pub role: usize,
    pub seg: Option<(usize, usize)>,
    /// position among the actions of the participant in that segment
    pub at: usize,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum DevKind {
    /// the action is left out
    Skip,
    /// the action is performed twice
    Repeat,
    /// the action and the next one change places
    Swap,
    /// a send becomes a receive or the other way round
    Flip,
    /// the action names another participant
    Peer(usize),
    /// the action is performed in the name of another participant
    Myself(usize),
    /// another payload type
    Type(String),
    /// the session is closed instead of performing the action
    Close,
    /// the session is used again after the action
    Reuse,
    /// the session is duplicated before the action
    Clone,
    /// a participant is told a branch other than the rest (label sent to that participant)
    Label(usize, usize),
    /// the role stack of the participant differs from the one prescribed
    Stack(StackDev),
    /// the session types of the participant describe another protocol than those of its peers
    Types(Box<Proto>),
}

#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum StackDev {
    /// one more partner before the end
    Extra(usize),
    /// the partner of an action is left out
    Missing,
    /// the partners of two consecutive actions change places
    Swapped,
    /// another partner
    Other(usize),
}

impl<'a> Emit<'a> {
    pub fn new(p: &'a Proto) -> Emit<'a> {
        Emit { p, f: fam(&p.family), o: String::new(), dev: None, annot: false }
    }
    fn low(&self, r: usize) -> String {
        self.p.names[r].to_lowercase()
    }
    /// Is the state written as a binary left/right choice?
    pub fn is_either(&self, k: usize) -> bool {
        // the macro toolkit only has left/right choices for the last participant
        if matches!(self.f, Fam::Multi | Fam::MultiCancel) && self.p.states[k].chooser != self.p.n() - 1 {
            return false;
        }
        either_ok(self.p, k) && (!self.f.enums() || (self.f.eithers() && (self.p.style >> k) & 1 == 1))
    }
    fn all_to(&self, k: usize) -> bool {
        matches!(self.f, Fam::Recursive | Fam::RecCancel | Fam::Atmp) && (self.p.style >> (k + 8)) & 3 == 1
    }
    pub fn seg(seg: Option<(usize, usize)>) -> String {
        match seg {
            None => "i".into(),
            Some((k, b)) => format!("{k}_{b}"),
        }
    }
    fn tname(&self, r: usize, seg: Option<(usize, usize)>) -> String {
        format!("T{}_{}", r, Self::seg(seg))
    }
    /// The protocol as participant `r` sees it.
    fn view(&self, r: usize) -> &Proto {
        match self.dev {
            Some(Dev { kind: DevKind::Types(p), role, .. }) if *role == r => p,
            _ => self.p,
        }
    }
    fn sess(&self, r: usize, q: usize, seg: Option<(usize, usize)>) -> String {
        let br = self.view(r).branch(seg);
        let ct = |q: usize| br.choice_t(q).cloned();
        let mut t = match br.next {
            Next::End => "End".to_string(),
            Next::State(k) => {
                let c = self.p.states[k].chooser;
                let pay = |x: usize| {
                    if self.is_either(k) {
                        format!("Either<{}, {}>", self.tname(x, Some((k, 0))), self.tname(x, Some((k, 1))))
                    } else {
                        format!("E{k}_{x}")
                    }
                };
                if self.f == Fam::Bcast {
                    match (c == r, c == q) {
                        (true, _) if q != 0 => format!("Send<(End, E{k}_{q}), End>"),
                        (_, true) if r != 0 => format!("Recv<(End, E{k}_{r}), End>"),
                        _ => "End".into(),
                    }
                } else if c == r {
                    Self::dir("Send", &pay(q), &ct(q), "End")
                } else if c == q {
                    Self::dir("Recv", &pay(r), &ct(r), "End")
                } else {
                    "End".into()
                }
            }
        };
        for m in br.msgs.iter().rev() {
            if m.from == r && m.to == q {
                t = Self::dir("Send", &m.ty, &m.t, &t);
            } else if m.from == q && m.to == r {
                t = Self::dir("Recv", &m.ty, &m.t, &t);
            }
        }
        t
    }
    fn dir(d: &str, ty: &str, t: &Option<crate::tspec::TSpec>, cont: &str) -> String {
        match t {
            None => format!("{d}<{ty}, {cont}>"),
            Some(t) => format!("{d}Timed<{ty}, {}, {cont}>", t.rust()),
        }
    }
    fn stack(&self, r: usize, seg: Option<(usize, usize)>) -> String {
        let br = self.view(r).branch(seg);
        let nm = &self.p.names;
        let mut t = match br.next {
            Next::End => "RoleEnd".to_string(),
            Next::State(_) if self.f == Fam::Bcast && r == 0 => "RoleEnd".to_string(),
            Next::State(k) => {
                let c = self.p.states[k].chooser;
                if self.is_either(k) {
                    if c == r {
                        format!("Role{}toAll<{}, {}>", nm[c], self.stack(r, Some((k, 0))), self.stack(r, Some((k, 1))))
                    } else {
                        format!("RoleAllto{}<RoleEnd, RoleEnd>", nm[c])
                    }
                } else if c == r {
                    "RoleBroadcast".into()
                } else if self.all_to(k) {
                    format!("RoleAllto{}<RoleEnd, RoleEnd>", nm[c])
                } else {
                    format!("Role{}<RoleEnd>", nm[c])
                }
            }
        };
        let mut roles: Vec<usize> = br
            .msgs
            .iter()
            .filter_map(|m| if m.from == r { Some(m.to) } else { (m.to == r).then_some(m.from) })
            .collect();
        if let Some(Dev { kind: DevKind::Stack(d), role, seg: s, at }) = self.dev {
            if (*role, *s) == (r, seg) {
                match d {
                    StackDev::Extra(q) => roles.push(*q),
                    StackDev::Missing => drop(roles.remove(*at)),
                    StackDev::Swapped => roles.swap(*at, at + 1),
                    StackDev::Other(q) => roles[*at] = *q,
                }
            }
        }
        for q in roles.iter().rev() {
            t = format!("Role{}<{t}>", nm[*q]);
        }
        t
    }
    fn ty(&self, r: usize, seg: Option<(usize, usize)>) -> String {
        if self.f.binary() {
            return self.sess(r, 1 - r, seg);
        }
        let mut t = String::from("MC<");
        for q in 0..self.p.n() {
            if q != r {
                let _ = write!(t, "{}, ", self.sess(r, q, seg));
            }
        }
        let _ = write!(t, "{}, Name{}>", self.stack(r, seg), self.p.names[r]);
        t
    }
    /// index (1-based) of the session of `r` linked to `q`
    fn idx(r: usize, q: usize) -> usize {
        if q < r {
            q + 1
        } else {
            q
        }
    }

    fn prelude(&mut self) {
        let n = self.p.n();
        let names = self.p.names.join(", ");
        match self.f {
            Fam::Basic | Fam::Recursive | Fam::Cancel | Fam::RecCancel => {
                if self.paired() {
                    return;
                }
                let _ = writeln!(self.o, "mpstthree::generate!(\"{}\", MC, {names});", self.p.family);
            }
            Fam::Atmp if self.paired() => {
                let _ = writeln!(
                    self.o,
                    "use mpstthree::binary_atmp::struct_trait::{{send::SendTimed, recv::RecvTimed}};\nuse std::{{collections::HashMap, time::Instant}};"
                );
            }
            Fam::Atmp => {
                let _ = writeln!(
                    self.o,
                    "use mpstthree::binary_atmp::struct_trait::{{send::SendTimed, recv::RecvTimed}};\nuse std::{{collections::HashMap, time::Instant}};\nmpstthree::generate_atmp!(MC, {names});"
                );
            }
            Fam::Binary | Fam::BinaryCancel => {
                self.o.push_str(
                    "use mpstthree::binary::{send::*, recv::*, choose::*, offer::*, close::close, cancel::cancel, fork::*};\n",
                );
            }
            Fam::Three => {
                self.o.push_str(
                    "use mpstthree::meshedchannels::MeshedChannels as MC;\nuse mpstthree::functionmpst::{send::*, recv::*, choose::*, offer::*, close::close_mpst, fork::fork_mpst};\n",
                );
                for l in ["a", "b", "c"] {
                    let u = l.to_uppercase();
                    let _ = writeln!(
                        self.o,
                        "use mpstthree::role::{{{l}::Role{u}, all_to_{l}::RoleAllto{u}, {l}_to_all::Role{u}toAll}};\nuse mpstthree::name::{l}::Name{u};"
                    );
                }
            }
            Fam::Simple => {
                let nm = &self.p.names;
                let o = &mut self.o;
                let st = self.p.style;
                o.push_str("use mpstthree::meshedchannels::MeshedChannels;\nuse mpstthree::meshedchannels::MeshedChannels as MC;\nuse mpstthree::functionmpst::{ChooseMpst, OfferMpst};\n");
                if self.p.family.starts_with("solo") {
                    if st >> 20 & 1 == 1 {
                        o.push_str("use mpstthree::interleaved::{close::close_mpst_interleaved as close_mpst, fork::fork_mpst_solo as fork_mpst};\n");
                    } else {
                        o.push_str("mpstthree::close_mpst_interleaved!(close_mpst, MC, 3);\nmpstthree::fork_mpst_multi_solo!(fork_mpst, MC, 3);\n");
                    }
                } else {
                    o.push_str("use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};\n");
                }
                decl_names(o, nm, st);
                for r in 0..3 {
                    let x = &nm[r];
                    let _ = match st >> 40 & 1 {
                        0 => writeln!(o, "mpstthree::create_broadcast_role!(RoleAllto{x}, Role{x}toAll);"),
                        _ => writeln!(o, "mpstthree::create_broadcast_role_short!({x});"),
                    };
                    let others: Vec<usize> = (0..3).filter(|q| *q != r).collect();
                    for q in &others {
                        let i = Self::idx(r, *q);
                        let y = &nm[*q];
                        let _ = writeln!(o, "mpstthree::create_send_mpst_session_{i}!(send_{r}_{q}, Role{y}, Name{x});");
                        let _ = writeln!(o, "mpstthree::create_recv_mpst_session_{i}!(recv_{r}_{q}, Role{y}, Name{x});");
                        let _ = writeln!(o, "mpstthree::create_offer_mpst_session_{i}!(offer_{r}_{q}, RoleAllto{y}, Name{x});");
                    }
                    let way = ["1_to_2_and_3", "2_to_1_and_3", "3_to_1_and_2"][r];
                    let (y, z) = (&nm[others[0]], &nm[others[1]]);
                    if st >> 29 & 1 == 1 {
                        let _ = writeln!(o, "mpstthree::create_choose_both_from_{way}!(choose_right_{r}, choose_left_{r}, Name{y}, Name{z}, Role{x}toAll, Name{x});");
                    } else {
                        for side in ["left", "right"] {
                            let _ = writeln!(o, "mpstthree::create_choose_{side}_from_{way}!(choose_{side}_{r}, Name{y}, Name{z}, Role{x}toAll, Name{x});");
                        }
                    }
                }
            }
            Fam::Bcast => {
                let o = &mut self.o;
                let st = self.p.style;
                if st >> 20 & 1 == 1 {
                    let _ = writeln!(o, "mpstthree::bundle_struct_fork_close_multi!(close_mpst, fork_mpst, MC, {n});");
                } else {
                    let _ = writeln!(o, "mpstthree::create_meshedchannels!(MC, {n});");
                    let m = if st >> 19 & 1 == 1 { "close_mpst_check_cancel" } else { "close_mpst" };
                    let _ = writeln!(o, "mpstthree::{m}!(close_mpst, MC, {n});");
                    let _ = writeln!(o, "mpstthree::fork_mpst_multi!(fork_mpst, MC, {n});");
                }
                let nm = &self.p.names;
                decl_names(o, nm, st);
                for r in 1..n {
                    let peers: Vec<usize> = (1..n).filter(|q| *q != r).collect();
                    if st >> (21 + r) & 1 == 1 {
                        let body = |pre: &str| -> String {
                            peers.iter().map(|q| format!("{pre}_{r}_{q}, Role{}, {} | ", nm[*q], Self::idx(r, *q))).collect()
                        };
                        let _ = writeln!(o, "mpstthree::create_send_check_cancel_bundle!({}=> Name{}, MC, {n});", body("send"), nm[r]);
                        let _ = writeln!(o, "mpstthree::create_recv_mpst_session_bundle!({}=> Name{}, MC, {n});", body("recv"), nm[r]);
                    } else {
                        for q in &peers {
                            let i = Self::idx(r, *q);
                            let _ = writeln!(o, "mpstthree::create_send_check_cancel!(send_{r}_{q}, Role{}, Name{}, MC, {n}, {i});", nm[*q], nm[r]);
                            let _ = writeln!(o, "mpstthree::create_recv_mpst_session!(recv_{r}_{q}, Role{}, Name{}, MC, {n}, {i});", nm[*q], nm[r]);
                        }
                    }
                    let _ = writeln!(o, "mpstthree::send_cancel!(cancel_{r}, Name{}, MC, {n}, \"Session dropped\");", nm[r]);
                }
                let _ = writeln!(o, "fn monitor(s: T0_i) -> Result<(), Box<dyn std::error::Error>> {{ mpstthree::broadcast_cancel!(s, {n}) }}");
            }
            Fam::Multi | Fam::MultiCancel => {
                let cancel = self.f == Fam::MultiCancel;
                let o = &mut self.o;
                let st = self.p.style;
                if self.p.family.starts_with("solo") {
                    if st >> 20 & 1 == 1 {
                        let _ = writeln!(o, "mpstthree::bundle_struct_fork_close_multi_interleaved!(close_mpst, fork_mpst, MC, {n});");
                    } else {
                        let _ = writeln!(o, "mpstthree::create_meshedchannels!(MC, {n});");
                        let _ = writeln!(o, "mpstthree::close_mpst_interleaved!(close_mpst, MC, {n});");
                        let _ = writeln!(o, "mpstthree::fork_mpst_multi_solo!(fork_mpst, MC, {n});");
                    }
                } else if st >> 20 & 1 == 1 {
                    let m = if cancel { "bundle_struct_fork_close_multi_cancel" } else { "bundle_struct_fork_close_multi" };
                    let _ = writeln!(o, "mpstthree::{m}!(close_mpst, fork_mpst, MC, {n});");
                } else {
                    let _ = writeln!(o, "mpstthree::create_meshedchannels!(MC, {n});");
                    let m = if cancel { "close_mpst_cancel" } else { "close_mpst" };
                    let _ = writeln!(o, "mpstthree::{m}!(close_mpst, MC, {n});");
                    let _ = writeln!(o, "mpstthree::fork_mpst_multi!(fork_mpst, MC, {n});");
                }
                let nm = &self.p.names;
                decl_names(o, nm, st);
                if (0..self.p.states.len()).any(|k| either_ok(self.p, k) && self.p.states[k].chooser == n - 1 && st >> k & 1 == 1) {
                    let d = &nm[n - 1];
                    let _ = match st >> 40 & 3 {
                        0 => writeln!(o, "mpstthree::create_broadcast_role!(RoleAllto{d}, Role{d}toAll);"),
                        1 => writeln!(o, "mpstthree::create_multiple_broadcast_role!(RoleAllto{d}, Role{d}toAll |);"),
                        2 => writeln!(o, "mpstthree::create_broadcast_role_short!({d});"),
                        _ => writeln!(o, "mpstthree::create_multiple_broadcast_role_short!({d});"),
                    };
                    let _ = writeln!(o, "mpstthree::create_offer_type_multi!(OfferT, MC, {n});");
                    let _ = writeln!(o, "mpstthree::create_choose_type_multi!(ChooseT, MC, {n});");
                    for r in 0..n - 1 {
                        let _ = writeln!(
                            o,
                            "mpstthree::create_offer_mpst_session_multi!(offer_{r}, OfferT, RoleAllto{d}, Name{}, MC, {n}, {});",
                            nm[r],
                            n - 1
                        );
                    }
                    if st >> 29 & 1 == 1 {
                        let _ = writeln!(o, "mpstthree::create_choose_mpst_session_multi_both!(choose_left, choose_right, ChooseT, Role{d}toAll, Name{d}, MC, {n});");
                    } else {
                        for side in ["left", "right"] {
                            let _ = writeln!(o, "mpstthree::create_choose_mpst_session_multi_{side}!(choose_{side}, ChooseT, Role{d}toAll, Name{d}, MC, {n});");
                        }
                    }
                }
                let send = if cancel { "create_send_mpst_cancel" } else { "create_send_mpst_session" };
                for r in 0..n {
                    if st >> (21 + r) & 1 == 1 {
                        let body = |pre: &str| -> String {
                            (0..n)
                                .filter(|q| *q != r)
                                .map(|q| format!("{pre}_{r}_{q}, Role{}, {} | ", nm[q], Self::idx(r, q)))
                                .collect()
                        };
                        let _ = writeln!(o, "mpstthree::{send}_bundle!({}=> Name{}, MC, {n});", body("send"), nm[r]);
                        let _ = writeln!(
                            o,
                            "mpstthree::create_recv_mpst_session_bundle!({}=> Name{}, MC, {n});",
                            body("recv"),
                            nm[r]
                        );
                    } else {
                        for q in (0..n).filter(|q| *q != r) {
                            let i = Self::idx(r, q);
                            let _ = writeln!(o, "mpstthree::{send}!(send_{r}_{q}, Role{}, Name{}, MC, {n}, {i});", nm[q], nm[r]);
                            let _ = writeln!(
                                o,
                                "mpstthree::create_recv_mpst_session!(recv_{r}_{q}, Role{}, Name{}, MC, {n}, {i});",
                                nm[q], nm[r]
                            );
                        }
                    }
                }
            }
        }
    }

    fn send(&self, r: usize, to: usize, ty: &str) -> String {
        let v = format!("<{ty} as Val>::mk(val)");
        match self.f {
            Fam::Basic | Fam::Recursive => format!("let s = s.send({v});"),
            Fam::Cancel | Fam::RecCancel => format!("let s = s.send({v})?;"),
            Fam::Atmp => format!("let s = s.send({v}, &mut e.clocks)?;"),
            Fam::Multi | Fam::Simple => format!("let s = send_{r}_{to}({v}, s);"),
            Fam::Binary => format!("let s = send({v}, s);"),
            Fam::BinaryCancel => format!("let s = send_canceled({v}, s)?;"),
            Fam::Three if self.method(r) => format!("let s = s.send({v});"),
            Fam::Three => format!("let s = send_mpst_{}_to_{}({v}, s);", self.low(r), self.low(to)),
            Fam::MultiCancel | Fam::Bcast => format!("let s = send_{r}_{to}({v}, s)?;"),
        }
    }
    fn recv(&self, r: usize, from: usize, ty: &str) -> String {
        let b = if self.annot { format!("let (v, s): ({ty}, _)") } else { "let (v, s)".to_string() };
        match self.f {
            Fam::Basic | Fam::Recursive => format!("{b} = s.recv();"),
            Fam::Cancel | Fam::RecCancel => format!("{b} = s.recv()?;"),
            Fam::Atmp => format!("{b} = s.recv(&mut e.clocks)?;"),
            Fam::Multi | Fam::MultiCancel | Fam::Simple | Fam::Bcast => format!("{b} = recv_{r}_{from}(s)?;"),
            Fam::Binary | Fam::BinaryCancel => format!("{b} = recv(s)?;"),
            Fam::Three if self.method(r) => format!("{b} = s.recv()?;"),
            Fam::Three => format!("{b} = recv_mpst_{}_from_{}(s)?;", self.low(r), self.low(from)),
        }
    }
    /// methods rather than functions (three-party API)
    fn method(&self, r: usize) -> bool {
        self.p.style >> (21 + r) & 1 == 1
    }
    fn paired(&self) -> bool {
        crate::gen::paired(&self.p.family)
    }
    /// offers written with the macro of interleaved sessions
    fn offer_expected(&self, k: usize) -> bool {
        (self.p.family.starts_with("solo") || self.p.family == "inter") && self.p.style >> (14 + k) & 1 == 1
    }
    fn close(&self, r: usize) -> String {
        if self.p.family.starts_with("solo") {
            return format!("let s: MC<{}RoleEnd, Name{}> = s; e.end = Some(Box::new(s));", "End, ".repeat(self.p.n() - 1), self.p.names[r]);
        }
        match self.f {
            Fam::Binary | Fam::BinaryCancel => "close(s)?;".into(),
            Fam::Three if self.method(r) => "s.close()?;".into(),
            Fam::Bcast if r == 0 => "monitor(s)?;".into(),
            Fam::Multi | Fam::MultiCancel | Fam::Simple | Fam::Three | Fam::Bcast => "close_mpst(s)?;".into(),
            _ => "s.close()?;".into(),
        }
    }
    fn cancel(&self, r: usize) -> String {
        match self.f {
            Fam::Bcast if r == 0 => "drop(s);".into(),
            Fam::Bcast => format!("cancel_{r}(s)?;"),
            Fam::Binary | Fam::BinaryCancel => "cancel(s);".into(),
            Fam::Multi | Fam::MultiCancel | Fam::Simple | Fam::Three => "mpstthree::binary::cancel::cancel(s);".into(),
            _ => "s.cancel();".into(),
        }
    }
    fn choose(&self, r: usize, k: usize, b: usize) -> String {
        let t = self.tname(r, Some((k, b)));
        if self.is_either(k) {
            let side = if b == 0 { "left" } else { "right" };
            if matches!(self.f, Fam::Multi | Fam::MultiCancel) {
                return format!("let s: {t} = choose_{side}::<{}>(s);", self.multi_either(k));
            }
            if self.f.binary() {
                return format!("let s: {t} = choose_{side}::<{}, {}>(s);", self.tname(r, Some((k, 0))), self.tname(r, Some((k, 1))));
            }
            if self.f == Fam::Simple {
                return format!("let s: {t} = choose_{side}_{r}::<{}>(s);", self.three_either(k));
            }
            if self.f == Fam::Three && !self.method(r) {
                return format!("let s: {t} = choose_{side}_mpst_session_{}_to_all::<{}>(s);", self.low(r), self.three_either(k));
            }
            if self.f == Fam::Atmp {
                return format!("let s: {t} = s.choose_{side}(&mut e.clocks)?;");
            }
            return format!("let s: {t} = s.choose_{side}();");
        }
        let labels: String =
            (0..self.p.n()).filter(|q| *q != r && !(self.f == Fam::Bcast && *q == 0)).map(|q| format!("E{k}_{q}::B{b}, ")).collect();
        match self.f {
            Fam::Bcast => {
                if self.choice_style(k) & 1 == 1 {
                    return format!("let s: {t} = choose_fn_{k}_{b}(s)?;");
                }
                let recvs: String = (1..self.p.n()).filter(|q| *q != r).map(|q| format!("Name{}, ", self.p.names[q])).collect();
                format!(
                    "let s: {t} = mpstthree::choose_mpst_multi_cancel_to_all!(s, {labels}=> {recvs}=> Name{}, Name{}, MC, {});",
                    self.p.names[0], self.p.names[r], r + 1
                )
            }
            Fam::Multi | Fam::MultiCancel => {
                match self.choice_style(k) {
                    1 => format!("let s: {t} = choose_macro_{r}!(s, {});", labels.trim_end_matches(", ")),
                    2 => format!("let s: {t} = choose_fn_{k}_{b}(s);"),
                    _ => format!("let s: {t} = mpstthree::choose_mpst_multi_to_all!(s, {labels} => Name{}, MC, {});", self.p.names[r], r + 1),
                }
            }
            Fam::Binary | Fam::BinaryCancel => format!("let s: {t} = mpstthree::choose!({}, s);", labels.trim_end_matches(", ")),
            Fam::Simple if r == 2 => format!("let s: {t} = mpstthree::choose_mpst_to_all!(s, {labels} => Name{});", self.p.names[r]),
            Fam::Simple => format!("let s: {t} = mpstthree::choose_mpst_multi_to_all!(s, {labels} => Name{}, MC, {});", self.p.names[r], r + 1),
            Fam::Atmp => format!(
                "let ck = &mut e.clocks; let s: {t} = choose_mpst_{}_to_all!(s, ck, {});",
                self.low(r),
                labels.trim_end_matches(", ")
            ),
            Fam::Three => format!("let s: {t} = mpstthree::choose_mpst_{}_to_all!(s, {});", self.low(r), labels.trim_end_matches(", ")),
            _ => format!(
                "let s: {t} = choose_mpst_{}_to_all!(s, {});",
                self.low(r),
                labels.trim_end_matches(", ")
            ),
        }
    }
    fn offer(&self, r: usize, k: usize) -> String {
        let c = self.p.states[k].chooser;
        if self.is_either(k) {
            let call = match self.f {
                Fam::Multi | Fam::MultiCancel => format!("offer_{r}(s, "),
                Fam::Simple => format!("offer_{r}_{c}(s, "),
                Fam::Binary | Fam::BinaryCancel => "offer_either(s, ".into(),
                Fam::Three if !self.method(r) => format!("offer_mpst_session_to_{}_from_{}(s, ", self.low(r), self.low(c)),
                Fam::Atmp => "s.offer(&mut e.clocks, ".into(),
                _ => "s.offer(".into(),
            };
            let ck = if self.f == Fam::Atmp { "_ck: &mut HashMap<char, Instant>, " } else { "" };
            return format!(
                "let pk = std::cell::Cell::new(9usize); let z = {call}|{ck}s: {}| {{ pk.set(0); p{r}_{k}_0(s) }}, |{ck}s: {}| {{ pk.set(1); p{r}_{k}_1(s) }}); if pk.get() != 9 {{ e.pick = Some(pk.get()); }} z",
                self.tname(r, Some((k, 0))),
                self.tname(r, Some((k, 1)))
            );
        }
        if self.offer_expected(k) && !self.all_to(k) {
            let via = if self.p.family == "inter" { String::new() } else { format!("recv_{r}_{c}, ") };
            let nb = self.p.states[k].branches.len();
            let arms: String = (0..nb)
                .map(|b| {
                    let pat = if b + 1 == nb { "_".to_string() } else { b.to_string() };
                    format!("{pat} => {{ let (s,) = mpstthree::offer_mpst_interleaved!(s, {via}E{k}_{r}::B{b}); e.pick = Some({b}); p{r}_{k}_{b}(s) }} ")
                })
                .collect();
            return format!("match pick {{ {arms} }}");
        }
        let arms: String = (0..self.p.states[k].branches.len())
            .map(|b| format!("E{k}_{r}::B{b}(s) => {{ e.pick = Some({b}); p{r}_{k}_{b}(s) }}, "))
            .collect();
        if self.all_to(k) {
            let q = if self.f != Fam::Recursive { "?" } else { "" };
            let ck = if self.f == Fam::Atmp { "&mut e.clocks" } else { "" };
            return format!("let (l, s) = s.recv_from_all({ck}){q}; s.cancel(); match l {{ {arms} }}");
        }
        match self.f {
            Fam::Binary | Fam::BinaryCancel => format!("mpstthree::offer!(s, {{ {arms} }})"),
            Fam::Bcast => format!("mpstthree::offer_cancel_mpst!(s, recv_{r}_{c}, {{ {arms} }})"),
            Fam::Three => format!("mpstthree::offer_mpst_{}_to_{}!(s, {{ {arms} }})", self.low(r), self.low(c)),
            Fam::Multi | Fam::MultiCancel | Fam::Simple => format!("mpstthree::offer_mpst!(s, recv_{r}_{c}, {{ {arms} }})"),
            Fam::Atmp => format!("offer_mpst!(s, &mut e.clocks, {{ {arms} }})"),
            _ if self.paired() => format!("mpstthree::offer_mpst!(s, {{ {arms} }})"),
            _ => format!("offer_mpst!(s, {{ {arms} }})"),
        }
    }

    /// 0, 3: choice macro in place, 1: macro created beforehand, 2: bundle of functions
    fn choice_style(&self, k: usize) -> u64 {
        self.p.style >> (42 + 2 * k) & 3
    }
    /// type arguments of the left/right choice functions of the macro toolkit
    fn multi_either(&self, k: usize) -> String {
        let n = self.p.n();
        let mut t = String::new();
        for b in 0..2 {
            for i in 0..n {
                for j in i + 1..n {
                    let _ = write!(t, "{}, ", self.sess(i, j, Some((k, b))));
                }
            }
        }
        for i in 0..n - 1 {
            let _ = write!(
                t,
                "<{} as Role>::Dual, <{} as Role>::Dual, Name{}, ",
                self.stack(i, Some((k, 0))),
                self.stack(i, Some((k, 1))),
                self.p.names[i]
            );
        }
        let _ = write!(t, "{}, {}", self.stack(n - 1, Some((k, 0))), self.stack(n - 1, Some((k, 1))));
        t
    }
    /// type arguments of the left/right choice functions over three participants
    fn three_either(&self, k: usize) -> String {
        let x = self.p.states[k].chooser;
        let o: Vec<usize> = (0..3).filter(|q| *q != x).collect();
        let (p, q) = (o[0], o[1]);
        let s = |a: usize, b: usize, side: usize| self.sess(a, b, Some((k, side)));
        let d = |a: usize, side: usize| format!("<{} as Role>::Dual", self.stack(a, Some((k, side))));
        [
            s(q, p, 0),
            s(q, p, 1),
            s(x, p, 0),
            s(x, q, 0),
            s(x, p, 1),
            s(x, q, 1),
            d(p, 0),
            d(p, 1),
            d(q, 0),
            d(q, 1),
            self.stack(x, Some((k, 0))),
            self.stack(x, Some((k, 1))),
        ]
        .join(", ")
    }
    /// choice macros and functions declared ahead of the program
    fn choice_items(&mut self) {
        if self.f == Fam::Bcast {
            for (k, s) in self.p.states.iter().enumerate() {
                if self.choice_style(k) & 1 == 0 {
                    continue;
                }
                let r = s.chooser;
                let others: Vec<usize> = (1..self.p.n()).filter(|q| *q != r).collect();
                let nb = s.branches.len();
                let fns: String = (0..nb).map(|b| format!("choose_fn_{k}_{b}, ")).collect();
                let brs: String = (0..nb).map(|b| format!("B{b}, ")).collect();
                let tys: String = (0..nb).map(|b| format!("{}, ", self.tname(r, Some((k, b))))).collect();
                let labels: String = others.iter().map(|q| format!("E{k}_{q}, ")).collect();
                let recvs: String = others.iter().map(|q| format!("Name{}, ", self.p.names[*q])).collect();
                let _ = writeln!(
                    self.o,
                    "mpstthree::create_fn_choose_mpst_cancel_multi_to_all_bundle!({fns}=> {brs}=> {tys}=> {labels}=> {recvs}=> Name{}, Name{}, MC, {});",
                    self.p.names[0],
                    self.p.names[r],
                    r + 1
                );
            }
            return;
        }
        if !matches!(self.f, Fam::Multi | Fam::MultiCancel) {
            return;
        }
        let mut made = std::collections::HashSet::new();
        for (k, s) in self.p.states.iter().enumerate() {
            if self.is_either(k) {
                continue;
            }
            let r = s.chooser;
            let name = &self.p.names[r];
            match self.choice_style(k) {
                1 if made.insert(r) => {
                    let _ = writeln!(self.o, "mpstthree::choose_mpst_create_multi_to_all!(choose_macro_{r}, Name{name}, MC, {});", r + 1);
                }
                2 => {
                    let others: Vec<usize> = (0..self.p.n()).filter(|q| *q != r).collect();
                    let nb = s.branches.len();
                    let fns: String = (0..nb).map(|b| format!("choose_fn_{k}_{b}, ")).collect();
                    let brs: String = (0..nb).map(|b| format!("B{b}, ")).collect();
                    let tys: String = (0..nb).map(|b| format!("{}, ", self.tname(r, Some((k, b))))).collect();
                    let labels: String = others.iter().map(|q| format!("E{k}_{q}, ")).collect();
                    let recvs: String = others.iter().map(|q| format!("Name{}, ", self.p.names[*q])).collect();
                    let _ = writeln!(
                        self.o,
                        "mpstthree::create_fn_choose_mpst_multi_to_all_bundle!({fns}=> {brs}=> {tys}=> {labels}=> {recvs}=> Name{name}, MC, {});",
                        r + 1
                    );
                }
                _ => {}
            }
        }
    }

    /// What participant `r` does in a segment.
    pub fn actions(p: &Proto, r: usize, seg: Option<(usize, usize)>) -> Vec<Kind> {
        let mut v = vec![];
        let mut idx = 0;
        loop {
            let (k, i) = p.action(r, &Pos { seg, idx });
            let last = !matches!(k, Kind::Send { .. } | Kind::Recv { .. });
            v.push(k);
            if last {
                return v;
            }
            idx = i + 1;
        }
    }
    fn chain(&self, r: usize, seg: Option<(usize, usize)>) -> String {
        let mut acts: Vec<(Kind, usize, Option<&DevKind>)> =
            Self::actions(self.view(r), r, seg).into_iter().map(|k| (k, r, None)).collect();
        if let Some(d) = self.dev.filter(|d| d.role == r && d.seg == seg) {
            let i = d.at;
            match &d.kind {
                DevKind::Skip => {
                    acts.remove(i);
                }
                DevKind::Repeat => {
                    let a = acts[i].clone();
                    acts.insert(i, a);
                }
                DevKind::Swap => acts.swap(i, i + 1),
                DevKind::Flip => {
                    acts[i].0 = match acts[i].0.clone() {
                        Kind::Send { to, ty } => Kind::Recv { from: to, ty },
                        Kind::Recv { from, ty } => Kind::Send { to: from, ty },
                        k => k,
                    }
                }
                DevKind::Peer(q) => {
                    acts[i].0 = match acts[i].0.clone() {
                        Kind::Send { ty, .. } => Kind::Send { to: *q, ty },
                        Kind::Recv { ty, .. } => Kind::Recv { from: *q, ty },
                        k => k,
                    }
                }
                DevKind::Type(t) => {
                    acts[i].0 = match acts[i].0.clone() {
                        Kind::Send { to, .. } => Kind::Send { to, ty: t.clone() },
                        Kind::Recv { from, .. } => Kind::Recv { from, ty: t.clone() },
                        k => k,
                    }
                }
                DevKind::Myself(q) => acts[i].1 = *q,
                DevKind::Close => {
                    acts[i].0 = Kind::Close;
                    acts.truncate(i + 1);
                }
                k @ (DevKind::Reuse | DevKind::Clone | DevKind::Label(..)) => acts[i].2 = Some(k),
                DevKind::Types(_) | DevKind::Stack(_) => {}
            }
        }
        self.links(r, seg, &acts, 0)
    }
    fn links(&self, me: usize, seg: Option<(usize, usize)>, acts: &[(Kind, usize, Option<&DevKind>)], depth: usize) -> String {
        let (kind, r, dev) = (&acts[0].0, acts[0].1, acts[0].2);
        let ind = "  ".repeat(depth + 1);
        let cancel = format!("Cmd::Cancel => {{ {} cancelled() }}", self.cancel(r));
        let pre = match dev {
            Some(DevKind::Clone) => "let _other = s.clone(); ",
            _ => "",
        };
        let twice = |x: String| -> String {
            match dev {
                Some(DevKind::Reuse) => format!("{} {x}", x.replacen("let s", "let _t", 1).replacen("(v, s)", "(_v, _t)", 1)),
                _ => format!("{pre}{x}"),
            }
        };
        match kind {
            Kind::Send { to, ty } => format!(
                "act(\"send\", move |c, e| match c {{ {cancel} Cmd::Run {{ val, .. }} => {{ let _ = (val, &e); {}\n{ind}{} }} }})",
                twice(self.send(r, *to, ty)),
                self.links(me, seg, &acts[1..], depth + 1)
            ),
            Kind::Recv { from, ty } => format!(
                "act(\"recv\", move |c, e| match c {{ {cancel} Cmd::Run {{ .. }} => {{ {} e.got = Some(v.show());\n{ind}{} }} }})",
                twice(self.recv(r, *from, ty)),
                self.links(me, seg, &acts[1..], depth + 1)
            ),
            Kind::Choose { state } => {
                let k = *state;
                let mut arms = String::new();
                let nb = self.p.states[k].branches.len();
                for b in 0..nb {
                    let pat = if b + 1 == nb { "_".to_string() } else { b.to_string() };
                    let mut call = self.choose(r, k, b);
                    if let Some(DevKind::Label(q, w)) = dev {
                        call = call.replacen(&format!("E{k}_{q}::B{b}"), &format!("E{k}_{q}::B{w}"), if b != *w { 1 } else { 0 });
                    }
                    let _ = write!(arms, "{pat} => {{ {pre}{call} p{me}_{k}_{b}(s) }} ");
                }
                format!(
                    "act(\"choose\", move |c, e| match c {{ {cancel} Cmd::Run {{ pick, .. }} => {{ let _ = &e; match pick {{ {arms} }} }} }})"
                )
            }
            Kind::Offer { state: k, .. } => {
                let call = self.offer(r, *k);
                format!(
                    "act(\"offer\", move |c, e| match c {{ {cancel} Cmd::Run {{ pick, .. }} => {{ let _ = pick; {pre}{call} }} }})"
                )
            }
            Kind::Close => format!(
                "act(\"close\", move |c, e| match c {{ {cancel} Cmd::Run {{ .. }} => {{ let _ = &e; {pre}{} Ok(Step::Done) }} }})",
                self.close(r)
            ),
        }
    }

    pub fn segs(p: &Proto) -> Vec<Option<(usize, usize)>> {
        let mut segs = vec![None];
        for (k, s) in p.states.iter().enumerate() {
            for b in 0..s.branches.len() {
                segs.push(Some((k, b)));
            }
        }
        segs
    }

    /// The body of the module.
    pub fn module(mut self) -> String {
        self.o.push_str("use super::pre::*;\n");
        self.program();
        self.start();
        self.o
    }

    fn program(&mut self) {
        let n = self.p.n();
        self.prelude();
        for (k, s) in self.p.states.iter().enumerate() {
            if self.is_either(k) {
                continue;
            }
            for r in (0..n).filter(|r| *r != s.chooser && !(*r == 0 && self.f == Fam::Bcast)) {
                let _ = write!(self.o, "pub enum E{k}_{r} {{ ");
                for b in 0..s.branches.len() {
                    let t = self.tname(r, Some((k, b)));
                    let _ = write!(self.o, "B{b}({t}), ");
                }
                self.o.push_str("}\n");
            }
        }
        self.choice_items();
        for seg in Self::segs(self.p) {
            for r in 0..n {
                if self.f == Fam::Bcast && r == 0 && seg.is_some() {
                    continue;
                }
                let line = format!("pub type {} = {};\n", self.tname(r, seg), self.ty(r, seg));
                self.o.push_str(&line);
                let f = format!(
                    "pub fn p{r}_{}(s: {}) -> Res {{\n{}\n}}\n",
                    Self::seg(seg),
                    self.tname(r, seg),
                    self.chain(r, seg)
                );
                self.o.push_str(&f);
            }
        }
    }

    fn start(&mut self) {
        let n = self.p.n();
        let vars: Vec<String> = (0..n).map(|r| format!("t{r}")).collect();
        let _ = writeln!(self.o, "pub fn start(b: Vec<Body>) -> Vec<std::thread::JoinHandle<()>> {{");
        let _ = writeln!(self.o, "let mut b = b.into_iter();");
        for r in 0..if self.p.family.starts_with("solo") { 1 } else { n } {
            let _ = writeln!(self.o, "let b{r} = b.next().unwrap();");
        }
        if self.f.binary() {
            if self.p.style >> 21 & 1 == 1 {
                self.o.push_str("let (t0, s1): (_, T1_i) = fork_with_thread_id(move |s: T0_i| run_body(p0_i(s), b0));\n");
            } else {
                self.o.push_str("let (tx, rx) = std::sync::mpsc::channel();\nlet s1: T1_i = fork(move |s: T0_i| { let r = run_body(p0_i(s), b0); let _ = tx.send(r.is_ok()); r });\n");
                self.o.push_str("let t0 = std::thread::spawn(move || assert!(rx.recv().unwrap()));\n");
            }
            self.o.push_str("let t1 = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run_body(p1_i(s1), b1).unwrap()).unwrap();\nvec![t0, t1]\n}\n");
            return;
        }
        if self.p.family.starts_with("solo") {
            let args: Vec<String> = (0..n).map(|r| format!("s{r}: T{r}_i")).collect();
            let acts: Vec<String> = (0..n).map(|r| format!("p{r}_i(s{r})")).collect();
            let _ = writeln!(self.o, "let r = fork_mpst(move |{}| run_here(vec![{}], b0));", args.join(", "), acts.join(", "));
            self.o.push_str("let ok = r.is_ok();\nvec![std::thread::spawn(move || assert!(ok))]\n}\n");
            let end = |r: usize| format!("MC<{}RoleEnd, Name{}>", "End, ".repeat(n - 1), self.p.names[r]);
            let mut f = String::from("pub fn close_all(v: Vec<Box<dyn std::any::Any + std::marker::Send>>) -> Result<(), Box<dyn std::error::Error>> {\nlet mut v = v.into_iter();\n");
            for r in 0..n {
                let _ = writeln!(f, "let s{r} = *v.next().unwrap().downcast::<{}>().unwrap();", end(r));
            }
            let _ = writeln!(f, "close_mpst({})\n}}", (0..n).map(|r| format!("s{r}")).collect::<Vec<_>>().join(", "));
            self.o.push_str(&f);
            return;
        }
        let _ = writeln!(
            self.o,
            "let ({}) = fork_mpst({});",
            vars.join(", "),
            (0..n).map(|r| {
                if self.f == Fam::Atmp {
                    format!("move |s: T{r}_i, ck: &mut HashMap<char, Instant>| {{ assert!(ck.is_empty()); run_body(p{r}_i(s), b{r}) }}")
                } else {
                    format!("move |s: T{r}_i| run_body(p{r}_i(s), b{r})")
                }
            }).collect::<Vec<_>>().join(", ")
        );
        let _ = writeln!(self.o, "vec![{}]\n}}", vars.join(", "));
    }
}

/// The body of the module of a program.
pub fn program(g: &Prog) -> String {
    deviating(g, false, None)
}

/// As `program`, possibly with a deviation in one of its protocols.
pub fn deviating(g: &Prog, annot: bool, dev: Option<(usize, &Dev)>) -> String {
    let emit = |i: usize| {
        let mut e = Emit::new(&g.ps[i]);
        e.annot = annot;
        e.dev = dev.filter(|d| d.0 == i).map(|d| d.1);
        e
    };
    if g.ps.len() == 1 {
        return emit(0).module();
    }
    let timed = g.ps[0].family.starts_with("atmp");
    let mut o = String::from("use super::pre::*;\nuse std::{collections::HashMap, time::Instant};\n");
    let _ = writeln!(
        o,
        "mpstthree::generate!(\"{}\", MCA, {}, {}, MCB, {}, {}, fork_mpst);",
        if timed { "atmp_interleaved" } else { "interleaved" },
        g.ps[0].names.join(", "),
        g.hold.0 + 1,
        g.ps[1].names.join(", "),
        g.hold.1 + 1
    );
    for (i, m) in ["a", "b"].iter().enumerate() {
        let mut e = emit(i);
        e.program();
        let _ = writeln!(o, "mod {m} {{\nuse super::*;\nuse super::MC{} as MC;\n{}}}", m.to_uppercase(), e.o);
    }
    let threads = g.threads();
    let _ = writeln!(o, "pub fn start(b: Vec<Body>) -> Vec<std::thread::JoinHandle<()>> {{\nlet mut b = b.into_iter();");
    let mut fs = vec![];
    for (t, rs) in threads.iter().enumerate() {
        let _ = writeln!(o, "let b{t} = b.next().unwrap();");
        let args: Vec<String> = rs
            .iter()
            .enumerate()
            .map(|(x, r)| {
                let (i, l) = g.at(*r);
                let ck = if timed { format!(", c{x}: &mut HashMap<char, Instant>") } else { String::new() };
                format!("s{x}: {}::T{l}_i{ck}", ["a", "b"][i])
            })
            .collect();
        let acts: Vec<String> = rs
            .iter()
            .enumerate()
            .map(|(x, r)| {
                let (i, l) = g.at(*r);
                format!("{}::p{l}_i(s{x})", ["a", "b"][i])
            })
            .collect();
        let empty: String = if timed { (0..rs.len()).map(|x| format!("assert!(c{x}.is_empty()); ")).collect() } else { String::new() };
        fs.push(format!("move |{}| {{ {empty}run_bodies(vec![{}], b{t}) }}", args.join(", "), acts.join(", ")));
    }
    let vars: Vec<String> = (0..threads.len()).map(|t| format!("t{t}")).collect();
    let _ = writeln!(o, "let ({}) = fork_mpst({});\nvec![{}]\n}}", vars.join(", "), fs.join(", "), vars.join(", "));
    o
}

/// Declarations of the roles and names of the participants.
fn decl_names(o: &mut String, nm: &[String], st: u64) {
                let list = nm.join(", ");
                match st >> 26 & 3 {
                    0 => {
                        let _ = writeln!(o, "mpstthree::create_multiple_normal_role_short!({list});");
                        let _ = writeln!(o, "mpstthree::create_multiple_normal_name_short!({list});");
                    }
                    1 => {
                        for x in nm {
                            let _ = writeln!(o, "mpstthree::create_normal_role!(Role{x}, Role{x}Dual);");
                            let _ = writeln!(o, "mpstthree::create_normal_name!(Name{x});");
                        }
                    }
                    2 => {
                        for x in nm {
                            let _ = writeln!(o, "mpstthree::create_normal_role_short!({x});");
                            let _ = writeln!(o, "mpstthree::create_normal_name_short!({x});");
                        }
                    }
                    _ => {
                        let roles: String = nm.iter().map(|x| format!("Role{x}, Role{x}Dual |")).collect();
                        let names: String = nm.iter().map(|x| format!("Name{x}")).collect::<Vec<_>>().join(", ");
                        let _ = writeln!(o, "mpstthree::create_multiple_normal_role!({roles});");
                        let _ = writeln!(o, "mpstthree::create_multiple_normal_name!({names});");
                    }
                }
}

/// A state that can be written as a left/right choice: two branches, both leading strictly forward.
pub fn either_ok(p: &Proto, k: usize) -> bool {
    let s = &p.states[k];
    s.branches.len() == 2
        && s.branches.iter().all(|b| match b.next {
            Next::End => true,
            Next::State(j) => j > k,
        })
}
