//! Empty logging: every macro expands to nothing, so the code around it is what is analysed.
#![no_std]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Level(u8);
impl Level {
    pub const ERROR: Level = Level(1);
    pub const WARN: Level = Level(2);
    pub const INFO: Level = Level(3);
    pub const DEBUG: Level = Level(4);
    pub const TRACE: Level = Level(5);
}
#[derive(Clone, Debug)]
pub struct Span;
#[derive(Debug)]
pub struct Entered;
pub mod span {
    pub use super::Span;
    pub type EnteredSpan = super::Entered;
    pub type Entered<'a> = super::Entered;
}
impl Span {
    pub const fn none() -> Self { Span }
    pub fn current() -> Self { Span }
    pub fn enter(&self) -> Entered { Entered }
    pub fn entered(self) -> Entered { Entered }
    pub fn in_scope<T>(&self, f: impl FnOnce() -> T) -> T { f() }
}
#[macro_export] macro_rules! trace { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! debug { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! info { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! warn { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! error { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! event { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! enabled { ($($t:tt)*) => { false } }
#[macro_export] macro_rules! span { ($($t:tt)*) => { $crate::Span } }
#[macro_export] macro_rules! trace_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export] macro_rules! debug_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export] macro_rules! info_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export] macro_rules! warn_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export] macro_rules! error_span { ($($t:tt)*) => { $crate::Span } }
