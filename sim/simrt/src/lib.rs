pub mod cli;
pub mod decode;
pub mod gen;
pub mod glue;
pub mod harness;
pub mod known;
pub mod plan;
pub mod readers;
pub mod run;
pub mod sched;
pub mod sys;
