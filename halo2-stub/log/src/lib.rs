//! Logging switched off: arguments are type-checked and not evaluated.
#[macro_export]
macro_rules! log {
    (target: $t:expr, $lvl:expr, $($a:tt)+) => { if false { let _ = ($t, $lvl, format_args!($($a)+)); } };
    ($lvl:expr, $($a:tt)+) => { if false { let _ = ($lvl, format_args!($($a)+)); } };
}
#[macro_export]
macro_rules! error { (target: $t:expr, $($a:tt)+) => { $crate::log!($crate::Level::Error, $($a)+) }; ($($a:tt)+) => { $crate::log!($crate::Level::Error, $($a)+) }; }
#[macro_export]
macro_rules! warn { (target: $t:expr, $($a:tt)+) => { $crate::log!($crate::Level::Warn, $($a)+) }; ($($a:tt)+) => { $crate::log!($crate::Level::Warn, $($a)+) }; }
#[macro_export]
macro_rules! info { (target: $t:expr, $($a:tt)+) => { $crate::log!($crate::Level::Info, $($a)+) }; ($($a:tt)+) => { $crate::log!($crate::Level::Info, $($a)+) }; }
#[macro_export]
macro_rules! debug { (target: $t:expr, $($a:tt)+) => { $crate::log!($crate::Level::Debug, $($a)+) }; ($($a:tt)+) => { $crate::log!($crate::Level::Debug, $($a)+) }; }
#[macro_export]
macro_rules! trace { (target: $t:expr, $($a:tt)+) => { $crate::log!($crate::Level::Trace, $($a)+) }; ($($a:tt)+) => { $crate::log!($crate::Level::Trace, $($a)+) }; }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level {
    Error = 1,
    Warn,
    Info,
    Debug,
    Trace,
}
