//! C04: duality, connection and description of types.
use crate::pre::*;
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
use std::any::TypeId;
use vlib::report::Report;
use vlib::types::{Ty, World};

type D<'a> = (&'a str, &'a str);

fn same<A: 'static, B: 'static>(what: &str) -> Result<(), String> {
    if TypeId::of::<A>() == TypeId::of::<B>() {
        Ok(())
    } else {
        Err(format!("{what}: {} instead of {}", std::any::type_name::<A>(), std::any::type_name::<B>()))
    }
}

fn text(what: &str, got: (String, String), want: D) -> Result<(), String> {
    if got.0 != want.0 {
        return Err(format!("head of {what} is {:?} instead of {:?}", got.0, want.0));
    }
    if got.1 != want.1 {
        return Err(format!("tail of {what} is {:?} instead of {:?}", got.1, want.1));
    }
    Ok(())
}

pub fn session<T: Session + 'static, E: Session + 'static>(t: D, e: D) -> Result<(), String> {
    same::<T::Dual, E>("dual")?;
    same::<<T::Dual as Session>::Dual, T>("dual of the dual")?;
    same::<<E as Session>::Dual, T>("dual of the dual")?;
    text("the type", (T::head_str(), T::tail_str()), t)?;
    text("the dual", (<T::Dual>::head_str(), <T::Dual>::tail_str()), e)?;
    let (a, b) = T::new();
    text("the endpoint", (a.self_head_str(), a.self_tail_str()), t)?;
    text("the other endpoint", (b.self_head_str(), b.self_tail_str()), e)?;
    let (b, a) = E::new();
    text("the endpoint made from the dual", (a.self_head_str(), a.self_tail_str()), t)?;
    text("the endpoint of the dual", (b.self_head_str(), b.self_tail_str()), e)
}

pub fn role<T: Role + 'static, E: Role + 'static>(t: D, e: D) -> Result<(), String> {
    same::<T::Dual, E>("dual")?;
    same::<<T::Dual as Role>::Dual, T>("dual of the dual")?;
    same::<<E as Role>::Dual, T>("dual of the dual")?;
    text("the stack", (T::head_str(), T::tail_str()), t)?;
    text("the dual", (<T::Dual>::head_str(), <T::Dual>::tail_str()), e)?;
    let (a, b) = T::new();
    stack(&a, t)?;
    stack(&b, e)
}

pub fn stack<T: Role>(a: &T, t: D) -> Result<(), String> {
    text("the stack type", (T::head_str(), T::tail_str()), t)?;
    text("the stack value", (a.self_head_str(), a.self_tail_str()), t)
}

pub fn name<T: Name + 'static>(t: D) -> Result<(), String> {
    same::<T::Dual, T>("dual")?;
    text("the name", (T::head_str(), T::tail_str()), t)?;
    let (a, b) = T::new();
    text("the name value", (a.self_head_str(), a.self_tail_str()), t)?;
    text("the other name value", (b.self_head_str(), b.self_tail_str()), t)
}

type Ends<'a> = (&'a crossbeam_channel::Sender<()>, &'a crossbeam_channel::Receiver<()>);
/// Two ends whose channels are crossed, and nothing else.
pub fn linked(a: Ends, b: Ends) -> Result<(), String> {
    for (x, y) in [(&a, &b), (&b, &a)] {
        if x.1.try_recv().is_ok() || y.1.try_recv().is_ok() {
            return Err("a fresh end is not empty".into());
        }
        x.0.try_send(()).map_err(|e| format!("end not connected: {e}"))?;
        y.1.try_recv().map_err(|e| format!("end connected elsewhere: {e}"))?;
    }
    Ok(())
}

/// Both endpoints of a pair, driven along the type.
pub trait Walk: Session {
    fn go(a: Self, b: Self::Dual) -> Result<(), String>;
}
pub fn walk<T: Walk>(a: T, b: T::Dual) -> Result<(), String> {
    T::go(a, b)
}
fn value<T: Val>(v: T, k: u64, ty: &str) -> Result<(), String> {
    let (got, want) = (v.show(), T::mk(k).show());
    if got == want {
        Ok(())
    } else {
        Err(format!("{ty}: sent {want} but {got} came out"))
    }
}
impl Walk for End {
    fn go(a: End, b: End) -> Result<(), String> {
        let h = std::thread::spawn(move || mpstthree::binary::close::close(a).map_err(|e| e.to_string()));
        let r = mpstthree::binary::close::close(b).map_err(|e| e.to_string());
        h.join().map_err(|_| "close panicked".to_string()).and_then(|x| x).and(r).map_err(|e| format!("closing the pair: {e}"))
    }
}
impl<T: Val, S: Walk> Walk for Send<T, S>
where
    S::Dual: Session<Dual = S>,
{
    fn go(a: Self, b: Self::Dual) -> Result<(), String> {
        let a = mpstthree::binary::send::send(T::mk(7), a);
        let (v, b) = mpstthree::binary::recv::recv(b).map_err(|e| format!("the receiving end is not connected: {e}"))?;
        value(v, 7, "Send")?;
        S::go(a, b)
    }
}
impl<T: Val, S: Walk> Walk for Recv<T, S>
where
    S::Dual: Session<Dual = S>,
{
    fn go(a: Self, b: Self::Dual) -> Result<(), String> {
        let b = mpstthree::binary::send::send(T::mk(9), b);
        let (v, a) = mpstthree::binary::recv::recv(a).map_err(|e| format!("the receiving end is not connected: {e}"))?;
        value(v, 9, "Recv")?;
        S::go(a, b)
    }
}
macro_rules! timing {
    ($x:expr, $($c:ident),*) => {
        ($x.clock, $x.start, $x.include_start, $x.end, $x.include_end, $x.reset) == ($($c),*)
    };
}
/// The text of a window: the bounds that exist around the clock.
fn printed(said: Option<String>, c: char, b: i128, ib: bool, e: i128, ie: bool) -> Result<(), String> {
    let sign = |included| if included { "<=" } else { "<" };
    let mut want = c.to_string();
    if b >= 0 {
        want = format!("{b} {} {want}", sign(ib));
    }
    if e >= 0 {
        want = format!("{want} {} {e}", sign(ie));
    }
    match said {
        Some(said) if said != want => Err(format!("the constraint of the window is printed {said:?} instead of {want:?}")),
        None if b >= 0 || e >= 0 => Err(format!("printing the constraint {want:?} of the window panicked")),
        _ => Ok(()),
    }
}
impl<T: Val, const C: char, const B: i128, const IB: bool, const E: i128, const IE: bool, const R: char, S: Walk> Walk
    for SendTimed<T, C, B, IB, E, IE, R, S>
where
    S::Dual: Session<Dual = S>,
{
    fn go(a: Self, b: Self::Dual) -> Result<(), String> {
        if !timing!(a, C, B, IB, E, IE, R) || !timing!(b, C, B, IB, E, IE, R) {
            return Err("an endpoint of the pair has another window than its type".into());
        }
        for said in [std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.constraint())), std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.constraint()))] {
            printed(said.ok(), C, B, IB, E, IE)?;
        }
        let (here, there) = S::new();
        a.channel.send((T::mk(7), there)).map_err(|_| "the receiving end is not connected".to_string())?;
        let (v, cont) = b.channel.try_recv().map_err(|e| format!("the receiving end is not connected: {e}"))?;
        value(v, 7, "SendTimed")?;
        S::go(here, cont)
    }
}
impl<T: Val, const C: char, const B: i128, const IB: bool, const E: i128, const IE: bool, const R: char, S: Walk> Walk
    for RecvTimed<T, C, B, IB, E, IE, R, S>
where
    S::Dual: Session<Dual = S>,
{
    fn go(a: Self, b: Self::Dual) -> Result<(), String> {
        if !timing!(a, C, B, IB, E, IE, R) || !timing!(b, C, B, IB, E, IE, R) {
            return Err("an endpoint of the pair has another window than its type".into());
        }
        for said in [std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.constraint())), std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.constraint()))] {
            printed(said.ok(), C, B, IB, E, IE)?;
        }
        let (here, there) = S::new();
        b.channel.send((T::mk(9), here)).map_err(|_| "the receiving end is not connected".to_string())?;
        let (v, cont) = a.channel.try_recv().map_err(|e| format!("the receiving end is not connected: {e}"))?;
        value(v, 9, "RecvTimed")?;
        S::go(cont, there)
    }
}

pub struct Entry {
    pub world: &'static str,
    pub checks: &'static [fn() -> Result<(), String>],
}

pub fn main(entries: Vec<Entry>) -> ! {
    vlib::suite::quiet_panics();
    let mut rep = Report::new(
        "C04",
        "a type with at least one action, role or link, distinct by its text and the way its participants were declared",
    );
    vlib::watch::start("C04", rep.seed, 25, 150);
    let mut all: Vec<(usize, String, World, usize, fn() -> Result<(), String>)> = vec![];
    for e in &entries {
        let w: World = serde_json::from_str(e.world).expect("world");
        for (i, c) in e.checks.iter().enumerate() {
            let t = w.show(&w.types[i]);
            all.push((t.len(), t, w.clone(), i, *c));
        }
    }
    all.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
    for (_, t, w, i, check) in all {
        let one = World { types: vec![w.types[i].clone()], ..w.clone() };
        let case = serde_json::json!({"check": "types", "input": one});
        vlib::watch::set_case(&case);
        rep.eval();
        let r = std::panic::catch_unwind(check).unwrap_or_else(|p| Err(format!("panicked: {}", vlib::drive::panic_text(&p))));
        if let Err(e) = r {
            rep.violation(&format!("{t}: {e}"), case);
        }
        let kind = match &w.types[i] {
            Ty::Sess(_) => "session",
            Ty::Stack(_) => "role stack",
            Ty::Name(_) => "name",
            Ty::Mesh(..) => "meshed channels",
        };
        rep.class(kind);
        rep.class(&format!("participants from {:?}", w.origin));
        if t.contains('<') && t.contains("Timed") {
            rep.class("timed");
        }
        if t.matches('<').count() > 0 {
            rep.nontrivial(&format!("{:?}{t}", w.origin), || serde_json::json!({"type": t, "declared by": format!("{:?}", w.origin)}));
        }
    }
    rep.finish()
}
