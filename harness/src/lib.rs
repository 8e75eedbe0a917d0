pub mod report;
pub mod pbt;
pub mod tspec;
pub mod types;
pub mod guard;
pub mod watch;
pub mod ws;
pub mod ir;
pub mod val;
pub mod act;
pub mod drive;
pub mod emit;
pub mod gen;
pub mod deviate;
pub mod suite;
pub mod specs;
