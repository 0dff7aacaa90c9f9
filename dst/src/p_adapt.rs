//! C10 byte streams, C22 adaptors

use std::cell::RefCell;
use std::io::Read;
use std::rc::Rc;

use concordance::*;

use crate::core::{Ctx, Res};
use crate::p_tape::at_scale;
use crate::srcs::*;
use crate::syms::{Sym, Universe};
use crate::{any_universe, ensure, ev};

pub fn c10(ctx: &Ctx) -> Res<()> {
    let scale = at_scale(ctx);
    // past the buffer sizes of the standard readers
    let n = if scale { *ctx.pick(&[5000, 8190, 8192, 8193, 16385, 70000]) } else { ctx.size(8, 40, 300) };
    let kind = ctx.below(3);
    let data: Vec<u8> = (0..n)
        .map(|i| match kind {
            0 => i as u8,
            1 => [0u8, 255, 0, 10, 13][i % 5].wrapping_add((i / 5) as u8),
            _ if scale => crate::core::mix64(i as u64) as u8,
            _ => ctx.below(256) as u8,
        })
        .collect();
    let errors = ctx.chance(4, 5);
    let (mut src, log) = SimRead::draw(ctx, if scale { vec![] } else { data.clone() }, errors);
    if scale {
        src.data = data.clone();
        src.plan = (0..ctx.below(6))
            .map(|_| {
                let at = if ctx.chance(1, 3) { (8192 * ctx.range(0, 8)).min(n) } else { ctx.range(0, n) };
                (at, if errors { *ctx.pick(&[Fault::Eintr, Fault::WouldBlock, Fault::Hard, Fault::ZeroRead]) } else { Fault::Eintr })
            })
            .collect();
        src.plan.sort_by_key(|p| p.0);
        src.fragment = src.fragment && ctx.chance(1, 4);
    }
    let plan = src.plan.clone();
    ev!(ctx, "bytes {:?} faults {:?}", data, plan);
    ctx.sample(|| format!("{} bytes, faults {:?}", data.len(), plan));
    if plan.iter().any(|(i, _)| *i < n) {
        ctx.nontrivial();
    }
    let how = ctx.below(4);
    // a reader, possibly through other std readers
    let mut r: Dyn<u8> = match how {
        0 => Box::new(ByteSymbolReader::from(src)),
        1 => Box::new(ByteSymbolReader::new(src.bytes())),
        2 if scale => Box::new(ByteSymbolReader::from(std::io::BufReader::new(src))),
        2 => Box::new(ByteSymbolReader::from(std::io::BufReader::with_capacity(ctx.range(1, 9), src))),
        _ => {
            let b: Box<dyn Read> = Box::new(src);
            Box::new(ByteSymbolReader::from(b))
        }
    };
    let mut at = 0usize;
    let mut nones = 0usize;
    let planned = plan.iter().filter(|(i, f)| *f != Fault::Eintr && *i < n).count();
    let mut spare = planned + 3;
    while at < n || spare > 0 {
        let x = r.next_symbol();
        ev!(ctx, "read at {} -> {:?}", at, x);
        ctx.mix(at as u64 * 2 + x.is_some() as u64);
        match x {
            Some(b) => {
                ensure!(at < n, "invented-byte", "byte {} after the end of {} bytes", b, n);
                ensure!(b == data[at], "wrong-byte", "byte {} is {}, the stream delivered {} (faults {:?})", at, b, data[at], plan);
                let due = plan.iter().filter(|(i, f)| *f != Fault::Eintr && *i <= at).count();
                ensure!(nones >= due, "hidden-error", "byte {} was delivered after {} errors, no symbol was reported {} times (faults {:?})", at, due, nones, plan);
                at += 1;
            }
            None => {
                nones += 1;
                let events = log.borrow().events;
                ensure!(
                    nones <= events,
                    "invented-end",
                    "no symbol was reported {} times by byte {}, the stream failed or ended {} times (faults {:?})",
                    nones,
                    at,
                    events,
                    plan
                );
                if at >= n && spare > 0 {
                    spare -= 1;
                }
            }
        }
    }
    ensure!(nones >= planned, "hidden-error", "{} read errors before the end, no symbol was reported {} times", planned, nones);
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------
// C22

pub fn c22(ctx: &Ctx) -> Res<()> {
    match ctx.below(3) {
        0 => any_universe!(ctx, u => c22_stack(ctx, &u)),
        1 => c22_levels(ctx),
        _ => any_universe!(ctx, u => c22_collect(ctx, &u)),
    }
}

/// Any stack of adaptors is the bottom source
fn c22_stack<S: Sym>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let scale = ctx.chance(1, 10_000);
    let n = if scale { *ctx.pick(&[300, 2000]) } else { ctx.size(6, 20, 80) };
    let idx: Vec<usize> = (0..n).map(|_| ctx.below(u.n())).collect();
    let syms = u.conc(&idx);
    let (base, k, d) = base_reader(ctx, &syms);
    let mut desc = d.to_string();
    let layers = if scale { ctx.range(5, 60) } else { ctx.range(0, 5) };
    let mut r = stack(ctx, base, layers, &mut desc);
    ev!(ctx, "{} over {:?}, {} delivered", desc, syms, k);
    ctx.sample(|| format!("{} over {} symbols, {} delivered", desc, n, k));
    if layers > 1 && k > 2 {
        ctx.nontrivial();
    }
    ctx.mix(desc.len() as u64);
    let step = ctx.range(0, k);
    for i in 0..step {
        let x = r.next_symbol();
        ctx.mix(i as u64);
        ensure!(x.as_ref() == Some(&syms[i]), "wrong-symbol", "{}: read {} gave {:?}, the source has {:?}", desc, i, x, syms[i]);
    }
    let rest = r.to_vec();
    ensure!(rest[..] == syms[step..k], "wrong-symbol", "{}: collecting from {} gave {:?}, the source has {:?}", desc, step, rest, &syms[step..k]);
    Ok(())
}

/// Reads at different levels of a stack, handing the reader back and forth
fn c22_levels(ctx: &Ctx) -> Res<()> {
    let n = ctx.size(6, 30, 100);
    let (src, log) = SimReader::new((0..n).map(|i| Some(i as u32)).collect(), None);
    ctx.sample(|| format!("reads at changing levels over {} symbols", n));
    let mut base: Dyn<u32> = if ctx.chance(1, 4) { Box::new(src) } else { Box::new(src.map_symbols(|x: u32| x)) };
    let mut at = 0usize;
    let rounds = ctx.range(1, 15);
    let want = |at: usize, add: u32| if at < n { Some(at as u32 + add) } else { None };
    for _ in 0..rounds {
        // at the bottom
        for _ in 0..ctx.below(4) {
            let x = base.next_symbol();
            ev!(ctx, "bottom at {} -> {:?}", at, x);
            ensure!(x == want(at, 0), "wrong-symbol", "bottom read at {} gave {:?}", at, x);
            at = (at + 1).min(n);
        }
        ctx.mix(at as u64);
        // lend the reader to an adaptor, then take it back
        match ctx.below(4) {
            0 => {
                let calls = Rc::new(RefCell::new(0usize));
                let (c2, b) = (calls.clone(), &mut base);
                let mut m = FnReader(move || b.next_symbol()).map_symbols(move |x: u32| {
                    *c2.borrow_mut() += 1;
                    x + 100
                });
                let from = at;
                for _ in 0..ctx.range(1, 6) {
                    let x = m.next_symbol();
                    ensure!(x == want(at, 100), "wrong-symbol", "mapped read at {} gave {:?}", at, x);
                    at = (at + 1).min(n);
                    ensure!(*calls.borrow() == at - from, "mapping-calls", "{} mapping calls for {} symbols", calls.borrow(), at - from);
                }
            }
            1 => {
                let (mut a, mut b) = base.split();
                let (ka, kb) = (ctx.below(6), ctx.below(6));
                for (h, k) in [(&mut a, ka), (&mut b, kb)] {
                    for i in 0..k {
                        let x = h.next_symbol();
                        ensure!(x == want(at + i, 0), "wrong-symbol", "split read at {} gave {:?}", at + i, x);
                    }
                }
                if ctx.chance(1, 2) {
                    drop(a);
                    drop(b);
                } else {
                    drop(b);
                    drop(a);
                }
                at = (at + ka.max(kb)).min(n);
            }
            2 => {
                // a boxed borrow
                let b = &mut base;
                let mut x: Box<dyn SymbolReader<u32> + '_> = Box::new(FnReader(move || b.next_symbol()));
                for _ in 0..ctx.range(1, 5) {
                    let s = x.next_symbol();
                    ensure!(s == want(at, 0), "wrong-symbol", "boxed read at {} gave {:?}", at, s);
                    at = (at + 1).min(n);
                }
            }
            _ => {
                // a match takes what it needs from the reader it is lent, and no more
                let (lo, hi) = (at as u32, at as u32 + ctx.below(4) as u32);
                let dfa: SymbolRangeDfa<u32, ()> = Pattern::MatchRange(lo, hi).repeat_forever(1).prepare_to_match();
                let taken = log.borrow().given;
                let r = match match_pattern(dfa.start(), &mut base) {
                    Accept(l, _) => Some(l),
                    _ => None,
                };
                let expect = (hi as usize + 1).min(n).saturating_sub(at);
                ensure!(
                    r == if expect > 0 { Some(expect) } else { None },
                    "wrong-match",
                    "a match lent the reader at {} of {} gave {:?}, want {}",
                    at,
                    n,
                    r,
                    expect
                );
                let used = log.borrow().given - taken;
                at += used;
                ensure!(used <= expect + 1, "read-too-far", "a match of {} symbols took {}", expect, used);
            }
        }
        if at > 5 {
            ctx.nontrivial();
        }
    }
    let rest = base.to_vec();
    ensure!(rest == (at as u32..n as u32).collect::<Vec<u32>>(), "wrong-symbol", "collecting the rest at {} gave {:?}", at, rest);
    Ok(())
}

/// Collecting stops at the first report of no symbol and can be taken up again
fn c22_collect<S: Sym>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let parts = ctx.range(1, 5);
    let mut script: Vec<Option<S>> = vec![];
    let mut want: Vec<Vec<S>> = vec![];
    for i in 0..parts {
        let k = if ctx.chance(1, 10_000) { *ctx.pick(&[250, 1000, 5000, 66_000]) + ctx.below(100) } else { ctx.size(2, 6, 40) };
        let idx: Vec<usize> = (0..k).map(|_| ctx.below(u.n())).collect();
        let v = u.conc(&idx);
        script.extend(v.iter().cloned().map(Some));
        want.push(v);
        if i + 1 < parts {
            script.push(None);
            ctx.fault("source-stall");
        }
    }
    ctx.sample(|| format!("collecting {} parts of {:?} symbols", parts, want.iter().map(|w| w.len()).collect::<Vec<_>>()));
    let (src, log) = SimReader::new(script, None);
    let calls = Rc::new(RefCell::new(0usize));
    let c2 = calls.clone();
    let kind = ctx.below(3);
    let mapped = kind == 1;
    let mut r: Dyn<S> = match kind {
        0 => Box::new(src),
        1 => Box::new(src.map_symbols(move |x: S| {
            *c2.borrow_mut() += 1;
            x
        })),
        _ => {
            let mut src = src;
            Box::new(std::iter::from_fn(move || Some(src.next_symbol())).take(1_000_000).map(Some).filter_map(|x| x).map_while_reader())
        }
    };
    let mut total = 0;
    for (i, w) in want.iter().enumerate() {
        let got = r.to_vec();
        ev!(ctx, "part {} -> {:?}", i, got);
        ctx.mix(got.len() as u64);
        ensure!(got == *w, "wrong-symbol", "collecting part {} gave {:?}, want {:?}", i, got, w);
        total += w.len();
        if mapped {
            ensure!(*calls.borrow() == total, "mapping-calls", "{} mapping calls for {} symbols", calls.borrow(), total);
        }
        ensure!(log.borrow().nones == i + 1, "read-too-far", "collecting part {} saw {} reports of no symbol", i, log.borrow().nones);
        if total > 3 {
            ctx.nontrivial();
        }
    }
    // the readers that own their symbols
    let flat: Vec<S> = want.into_iter().flatten().collect();
    ensure!(flat.read_symbols().to_vec() == flat, "wrong-symbol", "a vector read back differently");
    ensure!(VecReader::from_vec(flat.clone()).to_vec() == flat, "wrong-symbol", "a consumed vector read back differently");
    let mut fm = flat.iter().filter_map(|x| Some(x.clone()));
    ensure!(SymbolReader::next_symbol(&mut fm) == flat.first().cloned(), "wrong-symbol", "an iterator filter read differently");
    Ok(())
}

/// A filter_map iterator whose items are the reports of a source, read as a symbol reader of optional symbols and
/// flattened again
trait MapWhile<S> {
    type R: SymbolReader<S>;
    fn map_while_reader(self) -> Self::R;
}
struct Flat<I>(I);
impl<S: Clone, I: SymbolReader<Option<S>>> SymbolReader<S> for Flat<I> {
    fn next_symbol(&mut self) -> Option<S> {
        self.0.next_symbol().and_then(|x| x)
    }
}
impl<S: Clone, I: SymbolReader<Option<S>>> MapWhile<S> for I {
    type R = Flat<I>;
    fn map_while_reader(self) -> Flat<I> {
        Flat(self)
    }
}
