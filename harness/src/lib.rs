//! Parts that do not depend on the library under test.
pub mod big;
pub mod drv;
pub mod lp;
pub mod mk;
pub mod oracle;
pub mod rng;
pub mod iface;
pub mod dense;
#[cfg(feature = "watch")]
pub mod watch;
pub mod mpsgen;
#[cfg(feature = "prov")]
pub mod prov;
pub mod graph;
