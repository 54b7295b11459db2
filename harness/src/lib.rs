pub mod runner;
pub mod bg;
pub mod gen;
pub mod ttt;
pub mod glue;
pub mod stats;
pub mod search;
pub mod samples;
pub mod child;
pub mod selfplay;
pub mod optim;
pub mod synth;
pub use runner::*;
