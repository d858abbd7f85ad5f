pub mod aux; pub mod cmd; pub mod exec; pub mod inst; pub mod run;
use std::sync::atomic::AtomicU64;
/// bumped before every command; the watchdog looks at it
pub static WATCH: AtomicU64 = AtomicU64::new(0);
