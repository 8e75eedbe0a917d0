//! Local programs in continuation form: the emitted code turns each local type into a chain of `Act`s, so
//! the same program runs under a controlled single-threaded schedule or on the library's own threads.
use std::collections::HashMap;
use std::error::Error;
use std::time::Instant;

pub use crate::ir::Kind;

#[derive(Clone, Copy, Debug)]
pub enum Cmd {
    Run { val: u64, pick: usize },
    Cancel,
}

#[derive(Default)]
pub struct Env {
    pub got: Option<String>,
    pub pick: Option<usize>,
    pub clocks: HashMap<char, Instant>,
    /// the session of a participant that only has to be closed (closed together with the others)
    pub end: Option<Box<dyn std::any::Any + Send>>,
}

pub type Res = Result<Step, Box<dyn Error>>;

pub enum Step {
    Next(Act),
    Done,
}

pub struct Act {
    pub tag: &'static str,
    pub go: Box<dyn FnOnce(Cmd, &mut Env) -> Res + Send>,
}

#[derive(Debug)]
pub struct Cancelled;
impl std::fmt::Display for Cancelled {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cancelled")
    }
}
impl Error for Cancelled {}

pub fn cancelled() -> Res {
    Err(Box::new(Cancelled))
}

pub fn act(tag: &'static str, go: impl FnOnce(Cmd, &mut Env) -> Res + Send + 'static) -> Res {
    Ok(Step::Next(Act { tag, go: Box::new(go) }))
}

/// Runs in one thread, given the participants that thread plays.
pub type Body = Box<dyn FnOnce(Vec<Act>) -> Result<(), Box<dyn Error>> + Send>;
/// Starts one body per role on the family's own fork function and returns the join handles.
pub type Start = fn(Vec<Body>) -> Vec<std::thread::JoinHandle<()>>;

pub struct Entry {
    pub id: &'static str,
    pub proto: &'static str,
    pub start: Start,
    pub close: Option<CloseAll>,
}
/// Closes all participants of a program that runs in one thread.
pub type CloseAll = fn(Vec<Box<dyn std::any::Any + Send>>) -> Result<(), Box<dyn Error>>;
