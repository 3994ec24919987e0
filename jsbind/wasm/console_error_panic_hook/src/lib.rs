//! Stand-in: there is no console.
pub fn hook(_: &std::panic::PanicHookInfo) {}
