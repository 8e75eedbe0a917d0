//! Session types, role stacks, names and meshed channels, with the descriptions prescribed for them.
use crate::tspec::{tspec, TSpec};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sess {
    End,
    Act { send: bool, ty: String, time: Option<TSpec>, next: Box<Sess> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Stack {
    End,
    Broadcast,
    One { who: usize, dual: bool, next: Box<Stack> },
    Both { who: usize, from_all: bool, left: Box<Stack>, right: Box<Stack> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ty {
    Sess(Sess),
    Stack(Stack),
    Name(usize),
    Mesh(Vec<Sess>, Stack, usize),
}
/// Where the participants come from.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Origin {
    BuiltIn,
    /// one macro call per role or bundles of them, full or short notation
    Macros(u8),
    Generate(String),
    GenerateAtmp,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct World {
    pub origin: Origin,
    pub names: Vec<String>,
    pub types: Vec<Ty>,
}

/// (head, tail) as text
pub type Desc = (String, String);
fn join(d: &Desc) -> String {
    format!("{}<{}>", d.0, d.1)
}

impl Sess {
    pub fn dual(&self) -> Sess {
        match self {
            Sess::End => Sess::End,
            Sess::Act { send, ty, time, next } => {
                Sess::Act { send: !send, ty: ty.clone(), time: time.clone(), next: Box::new(next.dual()) }
            }
        }
    }
    pub fn rust(&self) -> String {
        match self {
            Sess::End => "End".into(),
            Sess::Act { send, ty, time, next } => {
                let d = if *send { "Send" } else { "Recv" };
                match time {
                    None => format!("{d}<{ty}, {}>", next.rust()),
                    Some(t) => format!("{d}Timed<{ty}, {}, {}>", t.rust(), next.rust()),
                }
            }
        }
    }
    pub fn desc(&self) -> Desc {
        match self {
            Sess::End => ("End".into(), "".into()),
            Sess::Act { send, next, .. } => ((if *send { "Send" } else { "Recv" }).into(), join(&next.desc())),
        }
    }
}

impl World {
    fn arbitrary_names(&self) -> bool {
        matches!(self.origin, Origin::Macros(s) if s & 1 == 0)
    }
    fn role(&self, who: usize, dual: bool) -> String {
        let x = &self.names[who];
        match (self.arbitrary_names(), dual) {
            (true, false) => format!("{x}Here"),
            (true, true) => format!("Opposite{x}"),
            (false, false) => format!("Role{x}"),
            (false, true) => format!("Role{x}Dual"),
        }
    }
    fn all(&self, who: usize, from_all: bool) -> String {
        let x = &self.names[who];
        match (self.arbitrary_names(), from_all) {
            (true, true) => format!("Everyone{x}"),
            (true, false) => format!("{x}Everyone"),
            (false, true) => format!("RoleAllto{x}"),
            (false, false) => format!("Role{x}toAll"),
        }
    }
    fn name(&self, who: usize) -> String {
        if self.arbitrary_names() {
            format!("Called{}", self.names[who])
        } else {
            format!("Name{}", self.names[who])
        }
    }
    fn stack_dual(s: &Stack) -> Stack {
        match s {
            Stack::End => Stack::End,
            Stack::Broadcast => Stack::Broadcast,
            Stack::One { who, dual, next } => Stack::One { who: *who, dual: !dual, next: Box::new(Self::stack_dual(next)) },
            Stack::Both { who, from_all, left, right } => Stack::Both {
                who: *who,
                from_all: !from_all,
                left: Box::new(Self::stack_dual(left)),
                right: Box::new(Self::stack_dual(right)),
            },
        }
    }
    fn stack(&self, s: &Stack) -> String {
        match s {
            Stack::End => "RoleEnd".into(),
            Stack::Broadcast => "RoleBroadcast".into(),
            Stack::One { who, dual, next } => format!("{}<{}>", self.role(*who, *dual), self.stack(next)),
            Stack::Both { who, from_all, left, right } => {
                format!("{}<{}, {}>", self.all(*who, *from_all), self.stack(left), self.stack(right))
            }
        }
    }
    fn stack_desc(&self, s: &Stack) -> Desc {
        match s {
            Stack::End => ("RoleEnd".into(), "".into()),
            Stack::Broadcast => ("RoleBroadcast".into(), "".into()),
            Stack::One { who, dual, next } => (self.role(*who, *dual), join(&self.stack_desc(next))),
            Stack::Both { who, from_all, left, right } => (
                self.all(*who, *from_all),
                format!("{} + {}", join(&self.stack_desc(left)), join(&self.stack_desc(right))),
            ),
        }
    }
    fn mesh_desc(&self, s: &[Sess], st: &Stack, n: usize) -> Desc {
        let mut d: Vec<Desc> = s.iter().map(|x| x.desc()).collect();
        d.push(self.stack_desc(st));
        d.push((self.name(n), "".into()));
        let heads: Vec<String> = d.iter().map(|x| x.0.clone()).collect();
        let tails: Vec<String> = d.iter().map(join).collect();
        (heads.join("\n"), tails.join("\n"))
    }
    fn mesh(&self, s: &[Sess], st: &Stack, n: usize) -> String {
        let ss: String = s.iter().map(|x| format!("{}, ", x.rust())).collect();
        format!("MC<{ss}{}, {}>", self.stack(st), self.name(n))
    }
    pub fn show(&self, t: &Ty) -> String {
        match t {
            Ty::Sess(s) => s.rust(),
            Ty::Stack(s) => self.stack(s),
            Ty::Name(n) => self.name(*n),
            Ty::Mesh(s, st, n) => self.mesh(s, st, *n),
        }
    }
    fn declare(&self) -> String {
        let nm = &self.names;
        let list = nm.join(", ");
        match &self.origin {
            Origin::BuiltIn => {
                let mut o = String::from("use mpstthree::meshedchannels::MeshedChannels as MC;\n");
                for l in ["a", "b", "c"] {
                    let u = l.to_uppercase();
                    o.push_str(&format!(
                        "use mpstthree::role::{{{l}::Role{u}, {l}_dual::Role{u}Dual, all_to_{l}::RoleAllto{u}, {l}_to_all::Role{u}toAll}};\nuse mpstthree::name::{l}::Name{u};\n"
                    ));
                }
                o
            }
            Origin::Generate(k) => format!("mpstthree::generate!({k:?}, MC, {list});\n"),
            Origin::GenerateAtmp => format!("mpstthree::generate_atmp!(MC, {list});\n"),
            Origin::Macros(s) => {
                let mut o = format!("mpstthree::create_meshedchannels!(MC, {});\n", nm.len());
                let short = s & 1 == 1;
                let bundle = s & 2 != 0;
                let ix = 0..nm.len();
                let pair = |i: usize| format!("{}, {}", self.role(i, false), self.role(i, true));
                let all = |i: usize| format!("{}, {}", self.all(i, false), self.all(i, true));
                match (short, bundle) {
                    (true, true) => {
                        for m in ["create_multiple_normal_role_short", "create_multiple_broadcast_role_short", "create_multiple_normal_name_short"] {
                            o.push_str(&format!("mpstthree::{m}!({list});\n"));
                        }
                    }
                    (true, false) => {
                        for x in nm {
                            for m in ["create_normal_role_short", "create_broadcast_role_short", "create_normal_name_short"] {
                                o.push_str(&format!("mpstthree::{m}!({x});\n"));
                            }
                        }
                    }
                    (false, true) => {
                        let rs: String = ix.clone().map(|i| format!("{} | ", pair(i))).collect();
                        let bs: String = ix.clone().map(|i| format!("{} | ", all(i))).collect();
                        let ns: Vec<String> = ix.map(|i| self.name(i)).collect();
                        o.push_str(&format!("mpstthree::create_multiple_normal_role!({rs});\nmpstthree::create_multiple_broadcast_role!({bs});\nmpstthree::create_multiple_normal_name!({});\n", ns.join(", ")));
                    }
                    (false, false) => {
                        for i in ix {
                            o.push_str(&format!(
                                "mpstthree::create_normal_role!({});\nmpstthree::create_broadcast_role!({});\nmpstthree::create_normal_name!({});\n",
                                pair(i),
                                all(i),
                                self.name(i)
                            ));
                        }
                    }
                }
                o
            }
        }
    }
    /// The module checking every type of this world: `run(i)` checks the i-th.
    pub fn module(&self) -> String {
        let mut o = String::from(
            "use super::pre::*;\nuse mpstthree::binary_atmp::struct_trait::{send::SendTimed, recv::RecvTimed};\nuse sup::types as st;\n",
        );
        o.push_str(&self.declare());
        for (i, t) in self.types.iter().enumerate() {
            o.push_str(&format!("fn t{i}() -> Result<(), String> {{\n"));
            let d = |x: &Desc| format!("({:?}, {:?})", x.0, x.1);
            match t {
                Ty::Sess(s) => o.push_str(&format!(
                    "type T = {};\nst::session::<T, {}>({}, {})?;\nlet (a, b) = <T as Session>::new();\nst::walk::<T>(a, b)",
                    s.rust(),
                    s.dual().rust(),
                    d(&s.desc()),
                    d(&s.dual().desc())
                )),
                Ty::Mesh(s, stk, n) => {
                    let duals: Vec<Sess> = s.iter().map(|x| x.dual()).collect();
                    let sd = Self::stack_dual(stk);
                    o.push_str(&format!(
                        "type T = {};\nst::session::<T, {}>({}, {})?;\nlet (a, b) = <T as Session>::new();\n",
                        self.mesh(s, stk, *n),
                        self.mesh(&duals, &sd, *n),
                        d(&self.mesh_desc(s, stk, *n)),
                        d(&self.mesh_desc(&duals, &sd, *n))
                    ));
                    for (j, x) in s.iter().enumerate() {
                        let j = j + 1;
                        o.push_str(&format!("st::walk::<{}>(a.session{j}, b.session{j}).map_err(|e| format!(\"session {j}: {{e}}\"))?;\n", x.rust()));
                    }
                    o.push_str("Ok(())");
                }
                Ty::Stack(s) => {
                    let du = Self::stack_dual(s);
                    o.push_str(&format!(
                        "type T = {};\nst::role::<T, {}>({}, {})?;\nlet (a, b) = <T as Role>::new();\n",
                        self.stack(s),
                        self.stack(&du),
                        d(&self.stack_desc(s)),
                        d(&self.stack_desc(&du))
                    ));
                    let q = if self.origin == Origin::GenerateAtmp { ".map_err(|e| e.to_string())?" } else { "" };
                    match s {
                        Stack::One { next, .. } => o.push_str(&format!(
                            "let c: {} = a.continuation(){q};\nst::stack(&c, {})",
                            self.stack(next),
                            d(&self.stack_desc(next))
                        )),
                        Stack::Both { left, right, .. } => o.push_str(&format!(
                            "let l: {} = a.continuation_left(){q};\nst::stack(&l, {})?;\nlet r: {} = a.continuation_right(){q};\nst::stack(&r, {})",
                            self.stack(left),
                            d(&self.stack_desc(left)),
                            self.stack(right),
                            d(&self.stack_desc(right))
                        )),
                        _ => o.push_str("st::linked((&a.sender, &a.receiver), (&b.sender, &b.receiver))"),
                    }
                }
                Ty::Name(n) => o.push_str(&format!(
                    "type T = {0};\nst::name::<T>(({0:?}, \"\"))?;\nlet (a, b) = <T as Name>::new();\nst::linked((&a.sender, &a.receiver), (&b.sender, &b.receiver))",
                    self.name(*n)
                )),
            }
            o.push_str("\n}\n");
        }
        let fs: Vec<String> = (0..self.types.len()).map(|i| format!("t{i}")).collect();
        o.push_str(&format!("pub const CHECKS: &[fn() -> Result<(), String>] = &[{}];\n", fs.join(", ")));
        o.push_str(&format!("pub const WORLD: &str = {:?};\n", serde_json::to_string(self).unwrap()));
        o
    }
}

fn sess(timed: bool) -> impl Strategy<Value = Sess> {
    vec((any::<bool>(), 0..crate::val::TYPES.len(), tspec(), any::<u8>()), 0..8).prop_map(move |v| {
        let mut s = Sess::End;
        for (send, ty, t, k) in v {
            let time = (timed && k % 3 != 0).then_some(t);
            s = Sess::Act { send, ty: crate::val::TYPES[ty].to_string(), time, next: Box::new(s) };
        }
        s
    })
}

fn stack(n: usize) -> impl Strategy<Value = Stack> {
    let leaf = prop_oneof![3 => Just(Stack::End), 1 => Just(Stack::Broadcast)];
    leaf.prop_recursive(6, 24, 2, move |inner| {
        prop_oneof![
            5 => (0..n, any::<bool>(), inner.clone()).prop_map(|(who, dual, s)| Stack::One { who, dual, next: Box::new(s) }),
            3 => (0..n, any::<bool>(), inner.clone(), inner).prop_map(|(who, from_all, l, r)| Stack::Both { who, from_all, left: Box::new(l), right: Box::new(r) }),
        ]
    })
}

pub fn world(kind: u8, per: usize) -> BoxedStrategy<World> {
    let pool = ["A", "B", "C", "D", "Alice", "Bob", "Server", "Client", "Zed", "Node1", "K9"];
    (if kind == 0 { 3usize..=3 } else { 2usize..=7 }, any::<u8>(), 0..pool.len())
        .prop_flat_map(move |(n, style, off)| {
            let origin = match kind {
                0 => Origin::BuiltIn,
                1 => Origin::Macros(style % 4),
                2 => Origin::Generate(["basic", "recursive", "cancel", "rec_and_cancel"][style as usize % 4].to_string()),
                _ => Origin::GenerateAtmp,
            };
            let names: Vec<String> = (0..n).map(|i| pool[(if kind == 0 { 0 } else { off } + i) % pool.len()].to_string()).collect();
            let ty = prop_oneof![
                3 => sess(true).prop_map(Ty::Sess),
                4 => stack(n).prop_map(Ty::Stack),
                1 => (0..n).prop_map(Ty::Name),
                4 => (vec(sess(kind != 2), n - 1), stack(n), 0..n).prop_map(|(s, st, w)| Ty::Mesh(s, st, w)),
            ];
            vec(ty, per).prop_map(move |types| World { origin: origin.clone(), names: names.clone(), types })
        })
        .boxed()
}
