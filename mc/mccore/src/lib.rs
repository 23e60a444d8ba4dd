pub mod clock;
pub mod codec;
pub mod env;
pub mod explore;
pub mod hist;
pub mod iso;
pub mod model;
pub mod props;
pub mod ptrace;
pub mod race;
pub mod real;
pub mod report;
pub mod script;
pub mod sys;
pub mod rng;
