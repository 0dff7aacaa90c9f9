//! Symbol universes: sorted lists of concrete symbols of every type, including the edges of each type.
//! Models and generators work on indices into the universe; the code under test sees the concrete symbols.

use crate::core::Ctx;
use concordance::Countable;
use std::fmt::Debug;

/// What the simulator needs from a symbol type
pub trait Sym: Countable + Ord + Clone + Debug + 'static {}
impl<T: Countable + Ord + Clone + Debug + 'static> Sym for T {}

/// A user-defined symbol type, counted in steps of one
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, serde_derive::Serialize, serde_derive::Deserialize)]
pub struct Custom(pub u16);
impl Countable for Custom {
    fn next(&self) -> Self {
        Custom(self.0 + 1)
    }
    fn prev(&self) -> Self {
        Custom(self.0 - 1)
    }
}

/// Indices of the universe that form one contiguous stretch are adjacent symbols of the type
pub struct Universe<S> {
    pub syms: Vec<S>,
    pub name: &'static str,
}

impl<S: Sym> Universe<S> {
    pub fn n(&self) -> usize {
        self.syms.len()
    }
    /// How many of the symbols a run's patterns use
    pub fn draw_n(&self, ctx: &Ctx, least: usize) -> usize {
        if self.n() > 30 { self.n() } else { ctx.range(least, self.n()) }
    }
    pub fn conc(&self, idx: &[usize]) -> Vec<S> {
        idx.iter().map(|i| self.syms[*i].clone()).collect()
    }
    pub fn index_of(&self, s: &S) -> Option<usize> {
        self.syms.binary_search(s).ok()
    }
}

macro_rules! int_universe {
    ($t:ty, $ctx:expr) => {{
        let ctx: &Ctx = $ctx;
        let (lo, hi) = (<$t>::MIN, <$t>::MAX);
        let mid: $t = hi / 2;
        match ctx.weighted(&[40, 20, 20, 20, 1, 1]) {
            4 => Universe { syms: (0..24).map(|x| lo.wrapping_add((x * 10) as $t)).collect(), name: concat!(stringify!($t), "-spaced") },
            5 => Universe { syms: (0..24).map(|x| hi - 23 + x as $t).collect(), name: concat!(stringify!($t), "-wide") },
            0 => Universe { syms: (10..18).map(|x| x as $t).collect(), name: stringify!($t) },
            1 => Universe { syms: (0..8).map(|x| hi - 7 + x as $t).collect(), name: concat!(stringify!($t), "-max") },
            2 => Universe { syms: (0..8).map(|x| lo + x as $t).collect(), name: concat!(stringify!($t), "-min") },
            _ => Universe {
                syms: vec![lo, lo + 1, mid - 1, mid, mid + 1, hi - 2, hi - 1, hi],
                name: concat!(stringify!($t), "-edges"),
            },
        }
    }};
}

pub fn u8s(ctx: &Ctx) -> Universe<u8> {
    int_universe!(u8, ctx)
}
pub fn u16s(ctx: &Ctx) -> Universe<u16> {
    int_universe!(u16, ctx)
}
pub fn u32s(ctx: &Ctx) -> Universe<u32> {
    int_universe!(u32, ctx)
}
pub fn u64s(ctx: &Ctx) -> Universe<u64> {
    int_universe!(u64, ctx)
}
pub fn usizes(ctx: &Ctx) -> Universe<usize> {
    int_universe!(usize, ctx)
}
pub fn i8s(ctx: &Ctx) -> Universe<i8> {
    match ctx.below(3) {
        0 => int_universe!(i8, ctx),
        1 => Universe { syms: (-4..4).collect(), name: "i8-zero" },
        _ => int_universe!(i8, ctx),
    }
}
pub fn i16s(ctx: &Ctx) -> Universe<i16> {
    match ctx.below(3) {
        0 => int_universe!(i16, ctx),
        1 => Universe { syms: (-4..4).collect(), name: "i16-zero" },
        _ => int_universe!(i16, ctx),
    }
}
pub fn i32s(ctx: &Ctx) -> Universe<i32> {
    match ctx.below(3) {
        0 => int_universe!(i32, ctx),
        1 => Universe { syms: (-4..4).collect(), name: "i32-zero" },
        _ => int_universe!(i32, ctx),
    }
}
pub fn i64s(ctx: &Ctx) -> Universe<i64> {
    match ctx.below(3) {
        0 => int_universe!(i64, ctx),
        1 => Universe { syms: (-4..4).collect(), name: "i64-zero" },
        _ => int_universe!(i64, ctx),
    }
}
pub fn isizes(ctx: &Ctx) -> Universe<isize> {
    match ctx.below(3) {
        0 => int_universe!(isize, ctx),
        1 => Universe { syms: (-4..4).collect(), name: "isize-zero" },
        _ => int_universe!(isize, ctx),
    }
}
pub fn chars(ctx: &Ctx) -> Universe<char> {
    match ctx.weighted(&[50, 20, 10, 10, 20, 1, 1]) {
        5 => Universe { syms: "abcdefghijklmnopqrstuvwx".chars().collect(), name: "char-wide" },
        6 => Universe { syms: (0..24).map(|i| char::from_u32(0x41 + i * 0x9a1).unwrap_or('\u{e100}')).collect(), name: "char-spaced" },
        0 => Universe { syms: "abcdefgh".chars().collect(), name: "char" },
        1 => Universe {
            syms: vec!['\u{d7fc}', '\u{d7fd}', '\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}', '\u{e002}', '\u{e003}'],
            name: "char-gap",
        },
        2 => Universe { syms: (0..8).map(|i| char::from_u32(0x10FFF8 + i).unwrap()).collect(), name: "char-max" },
        3 => Universe { syms: (0..8).map(|i| char::from_u32(i).unwrap()).collect(), name: "char-min" },
        _ => Universe {
            syms: vec!['\0', '\u{1}', 'm', 'n', '\u{d7ff}', '\u{e000}', '\u{10fffe}', '\u{10ffff}'],
            name: "char-edges",
        },
    }
}
pub fn customs(ctx: &Ctx) -> Universe<Custom> {
    let n = if ctx.chance(1, 50) { 24 } else { 8 };
    Universe { syms: (0..n).map(|i| Custom(100 + i)).collect(), name: "custom" }
}

/// Hundreds of symbols: adjacent ones, spaced ones, or stretches of both
pub fn huge_u32s(ctx: &Ctx) -> Universe<u32> {
    let n = ctx.range(40, 420) as u32;
    match ctx.below(3) {
        0 => Universe { syms: (0..n).map(|i| 1000 + i).collect(), name: "u32-huge" },
        1 => Universe { syms: (0..n).map(|i| i * 10_000_019).collect(), name: "u32-huge-spaced" },
        _ => Universe { syms: (0..n).map(|i| u32::MAX - (n - 1 - i) - if i < n / 2 { 70_000 } else { 0 }).collect(), name: "u32-huge-max" },
    }
}
pub fn huge_chars(ctx: &Ctx) -> Universe<char> {
    let n = ctx.range(40, 420) as u32;
    match ctx.below(3) {
        // around the gap in the middle of the type
        0 => {
            let mut v: Vec<char> = (0..n / 2).filter_map(|i| char::from_u32(0xd7ff - i)).collect();
            v.reverse();
            v.extend((0..n / 2).filter_map(|i| char::from_u32(0xe000 + i)));
            Universe { syms: v, name: "char-huge-gap" }
        }
        1 => Universe { syms: (0..n).filter_map(|i| char::from_u32(i * 0x41)).collect(), name: "char-huge-spaced" },
        _ => Universe { syms: (0..n).filter_map(|i| char::from_u32(0x100 + i)).collect(), name: "char-huge" },
    }
}

/// Runs `$body` with `$u` bound to a universe of hundreds of symbols
#[macro_export]
macro_rules! huge_universe {
    ($ctx:expr, $u:ident => $body:expr) => {{
        use $crate::syms::*;
        match $ctx.below(2) {
            0 => { let $u = huge_u32s($ctx); $body }
            _ => { let $u = huge_chars($ctx); $body }
        }
    }};
}

/// Runs `$body` with `$u` bound to a universe of a type chosen by the run
#[macro_export]
macro_rules! any_universe {
    ($ctx:expr, $u:ident => $body:expr) => {{
        use $crate::syms::*;
        match $ctx.weighted(&[3, 4, 4, 2, 1, 1, 1, 1, 1, 1, 1, 1]) {
            0 => { let $u = customs($ctx); $body }
            1 => { let $u = chars($ctx); $body }
            2 => { let $u = u8s($ctx); $body }
            3 => { let $u = i32s($ctx); $body }
            4 => { let $u = u16s($ctx); $body }
            5 => { let $u = u32s($ctx); $body }
            6 => { let $u = u64s($ctx); $body }
            7 => { let $u = usizes($ctx); $body }
            8 => { let $u = i8s($ctx); $body }
            9 => { let $u = i16s($ctx); $body }
            10 => { let $u = i64s($ctx); $body }
            _ => { let $u = isizes($ctx); $body }
        }
    }};
}

/// As `any_universe`, with fewer types (for workloads whose subject is not the symbol type)
#[macro_export]
macro_rules! some_universe {
    ($ctx:expr, $u:ident => $body:expr) => {{
        use $crate::syms::*;
        match $ctx.weighted(&[2, 3, 2]) {
            0 => { let $u = i32s($ctx); $body }
            1 => { let $u = chars($ctx); $body }
            _ => { let $u = u8s($ctx); $body }
        }
    }};
}
