pub mod codec;
pub mod curated;
pub mod glue;
pub mod items;
pub mod print;
pub mod rng;
pub mod spec;
pub mod specgen;
pub mod val;
