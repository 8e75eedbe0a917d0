//! C05: attempt blocks over scripted steps.
use mpstthree::attempt;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use vlib::report::Report;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// outcome of each step: None succeeds, Some(code) fails
    steps: Vec<Option<u16>>,
    /// outcome of each step of the block nested in the handler
    inner: Vec<Option<u16>>,
    form: u8,
}

#[derive(Debug, Clone, PartialEq)]
enum L {
    Step(usize, usize),
    Handled(usize, u16),
    After(usize),
}

struct Run<'a> {
    c: &'a Case,
    log: RefCell<Vec<L>>,
}
impl Run<'_> {
    fn step(&self, block: usize, i: usize) -> Result<i32, u16> {
        self.log.borrow_mut().push(L::Step(block, i));
        let s = if block == 0 { &self.c.steps } else { &self.c.inner };
        match s.get(i).copied().flatten() {
            None => Ok(i as i32),
            Some(e) => Err(e),
        }
    }
    fn text(&self, block: usize, i: usize) -> Result<String, u16> {
        self.step(block, i).map(|v| v.to_string())
    }
    fn boxed(&self, i: usize) -> Result<(), Box<dyn std::error::Error>> {
        self.step(0, i).map(|_| ()).map_err(|e| e.to_string().into())
    }
    fn handled(&self, block: usize, e: u16) {
        self.log.borrow_mut().push(L::Handled(block, e));
    }
}

macro_rules! block {
    ($r:expr, $b:expr, $($i:literal)*; $e:ident => $h:block) => {
        attempt! {{ $( $r.step($b, $i); )* } catch ($e) $h }
    };
}

fn by_len(r: &Run, b: usize, len: usize, then: &dyn Fn(u16)) {
    match len {
        1 => block!(r, b, 0; e => { r.handled(b, e); then(e) }),
        2 => block!(r, b, 0 1; e => { r.handled(b, e); then(e) }),
        3 => block!(r, b, 0 1 2; e => { r.handled(b, e); then(e) }),
        4 => block!(r, b, 0 1 2 3; e => { r.handled(b, e); then(e) }),
        5 => block!(r, b, 0 1 2 3 4; e => { r.handled(b, e); then(e) }),
        6 => block!(r, b, 0 1 2 3 4 5; e => { r.handled(b, e); then(e) }),
        7 => block!(r, b, 0 1 2 3 4 5 6; e => { r.handled(b, e); then(e) }),
        _ => block!(r, b, 0 1 2 3 4 5 6 7 8 9 10 11; e => { r.handled(b, e); then(e) }),
    }
}

fn run(c: &Case) -> Result<Vec<L>, String> {
    let r = Run { c, log: RefCell::new(vec![]) };
    let lens = |n: usize| if n <= 7 { n.max(1) } else { 12 };
    let (n, form) = (lens(c.steps.len()), c.form % 5);
    let mut n0 = n;
    match form {
        // plain
        0 => by_len(&r, 0, n, &|_| ()),
        // nested block in the handler
        1 => by_len(&r, 0, n, &|_| by_len(&r, 1, lens(c.inner.len()), &|_| ())),
        // steps of different value types and shapes
        2 => {
            n0 = 6;
            attempt! {{
                r.text(0, 0);
                if c.form & 64 != 0 { r.step(0, 1) } else { r.step(0, 1).map(|x| x + 1) };
                r.step(0, 2).and_then(|_| r.text(0, 3)).map(|_| ());
                match r.step(0, 4) { Ok(v) => Ok(v as f64), Err(e) => Err(e) };
                { let v = r.text(0, 5); v.map(|s| s.len()) };
            } catch (e) { r.handled(0, e) }}
        }
        // boxed errors
        3 => {
            n0 = 4;
            attempt! {{ r.boxed(0); r.boxed(1); r.boxed(2); r.boxed(3); } catch (e) { r.handled(0, e.to_string().parse().unwrap_or(9999)) }}
        }
        // nested block inside a step
        _ => {
            n0 = 3;
            attempt! {{
                r.step(0, 0);
                { attempt! {{ r.step(1, 0); r.step(1, 1); r.step(1, 2); } catch (e) { r.handled(1, e) }}; r.step(0, 1) };
                r.step(0, 2);
            } catch (err) { r.handled(0, err) }}
        }
    }
    r.log.borrow_mut().push(L::After(0));
    // the reference
    let mut w = vec![];
    let at = |s: &Vec<Option<u16>>, i: usize| s.get(i).copied().flatten();
    let blk = |w: &mut Vec<L>, b: usize, s: &Vec<Option<u16>>, n: usize| -> Option<u16> {
        for i in 0..n {
            w.push(L::Step(b, i));
            if let Some(e) = at(s, i) {
                w.push(L::Handled(b, e));
                return Some(e);
            }
        }
        None
    };
    match form {
        1 => {
            if blk(&mut w, 0, &c.steps, n).is_some() {
                blk(&mut w, 1, &c.inner, lens(c.inner.len()));
            }
        }
        4 => {
            let mut failed = false;
            for i in 0..3 {
                if i == 1 {
                    blk(&mut w, 1, &c.inner, 3);
                }
                w.push(L::Step(0, i));
                if let Some(e) = at(&c.steps, i) {
                    w.push(L::Handled(0, e));
                    failed = true;
                    break;
                }
            }
            let _ = failed;
        }
        _ => {
            blk(&mut w, 0, &c.steps, n0);
        }
    }
    w.push(L::After(0));
    let got = r.log.borrow().clone();
    if got != w {
        return Err(format!("the block did {got:?}, expected {w:?}"));
    }
    Ok(w)
}

pub fn c05(replay: Option<serde_json::Value>) -> ! {
    let mut rep = Report::new("C05", "a block of at least two steps in which a step fails");
    if let Some(v) = replay {
        let c: Case = serde_json::from_value(v["case"]["input"].clone()).unwrap();
        match run(&c) {
            Ok(_) => {
                println!("C05: replay passed");
                std::process::exit(0)
            }
            Err(e) => rep.violation(&e, v["case"].clone()),
        }
    }
    let step = || prop_oneof![3 => Just(None), 1 => (0u16..6).prop_map(Some)];
    let strat = (vec(step(), 1..=12), vec(step(), 1..=8), any::<u8>()).prop_map(|(steps, inner, form)| Case { steps, inner, form });
    let cases = rep.n(40_000, 800_000);
    vlib::pbt::check(&mut rep, "blocks", cases, strat, |c, rep| {
        let w = run(c)?;
        rep.class(&format!("form {}", c.form % 5));
        let h = w.iter().filter(|l| matches!(l, L::Handled(..))).count();
        rep.class(&format!("{h} handlers run"));
        if h > 0 && w.len() > 3 {
            rep.nontrivial(&format!("{c:?}"), || serde_json::json!(c));
        }
        Ok(())
    });
    rep.finish()
}
