pub mod alloc;
pub mod glue;
pub mod long;
pub mod model;
pub mod report;
pub mod script;
pub mod race;
pub mod special;
pub use report::*;
pub mod explore;
pub mod nohooks;
pub mod cross;
pub mod mus;
pub mod scratch;
pub mod tiny;
pub mod picture;
pub mod notation;
