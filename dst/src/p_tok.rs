//! C11 tokens, C12 failed attempts and termination, C13 crash and resume

use std::ops::Range;

use concordance::*;
use serde::de::DeserializeOwned;
use serde::Serialize;

use crate::core::{Ctx, Res};
use crate::env::{catch, fresh_seed, inject_panic, with_hash_seed, Caught};
use crate::nfa::{Lazy, Nfa};
use crate::p_match::{gen_tokens, prepare_tokens, RevTok, TokT};
use crate::p_tape::at_scale;
use crate::pat::*;
use crate::srcs::*;
use crate::syms::{Sym, Universe};
use crate::{ensure, ev, fail, huge_universe, some_universe};

/// The longest non-empty match at a position
fn token_at(lazy: &mut Lazy, input: &[usize], pos: usize) -> Option<(usize, u32)> {
    lazy.run(&input[pos..]).0.filter(|w| w.0 > 0)
}

/// What iterating from a position should give: the token, and the position afterwards
fn iterate_from(lazy: &mut Lazy, input: &[usize], mut pos: usize) -> (Option<(Range<usize>, u32)>, usize) {
    loop {
        if let Some((l, t)) = token_at(lazy, input, pos) {
            return (Some((pos..pos + l, t)), pos + l);
        }
        if pos >= input.len() {
            return (None, pos);
        }
        pos += 1;
    }
}

pub fn c11(ctx: &Ctx) -> Res<()> {
    if ctx.chance(1, 6000) {
        return huge_universe!(ctx, u => c11_on::<_, u32>(ctx, &u));
    }
    match ctx.below(3) {
        0 => some_universe!(ctx, u => c11_on::<_, RevTok>(ctx, &u)),
        _ => some_universe!(ctx, u => c11_on::<_, u32>(ctx, &u)),
    }
}

/// Whether a pattern's strings have no bound on their length
fn unbounded(p: &Ast) -> bool {
    match p {
        Ast::RepInf(_, _) => true,
        Ast::Rep(_, _, q) => unbounded(q),
        Ast::Seq(v) | Ast::Alt(v) => v.iter().any(unbounded),
        _ => false,
    }
}

/// A stream longer than any counter narrower than 32 bits, iterated over
fn c11_long<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 2);
    if ctx.chance(1, 3) {
        return c11_long_tokens::<S, T>(ctx, u);
    }
    let mut toks = gen_tokens(ctx, n, 4, 100);
    toks.retain(|(p, _)| !unbounded(p) && cost(p) < 60);
    if toks.is_empty() {
        toks.push((Ast::Lit(vec![0, 1]), 3));
    }
    let nfa = Nfa::of_tokens(&toks);
    let mut lazy = Lazy::new(&nfa);
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
    let len = *ctx.pick(&[300, 5000, 66000, 132000]);
    let mut chunk = gen_input(ctx, &asts, u.n(), 60);
    chunk.extend(asts.iter().filter_map(|p| gen_string(ctx, p, 60)).flatten());
    chunk.push(ctx.below(u.n()));
    let mut input = vec![];
    while input.len() < len {
        input.extend(chunk.iter().cloned());
    }
    ctx.sample(|| format!("{} tokens {:?} over {} symbols", u.name, toks, input.len()));
    let dfa = prepare_tokens::<S, T>(ctx, u, &toks);
    let (src, log) = SimReader::ending(u.conc(&input), vec![u.syms[0].clone()]);
    let mut t = Tokenizer::new_prepared(src, &dfa);
    let mut pos = 0;
    // skipping alone gets to the far end, or iterating does
    let skip_to = if ctx.chance(1, 3) { ctx.below(input.len()) } else { 0 };
    while pos < skip_to {
        let got = t.skip_input();
        ensure!(got.as_ref() == Some(&u.syms[input[pos]]), "wrong-skip", "skip at {} of {} gave {:?}", pos, input.len(), got);
        pos += 1;
    }
    loop {
        let (want, end) = iterate_from(&mut lazy, &input, pos);
        let got = Iterator::next(&mut t).map(|(r, o)| (r, o.rank()));
        ensure!(got == want, "wrong-token", "tokens {:?} over {} symbols iterating from {}: got {:?}, want {:?}", toks, input.len(), pos, got, want);
        pos = end;
        let p = t.get_source_position();
        ensure!(p == pos, "position", "tokens {:?} over {} symbols: position is {}, should be {}", toks, input.len(), p, pos);
        if got.is_none() {
            break;
        }
        ctx.mix(pos as u64);
    }
    ensure!(t.at_end_of_reader() && pos == input.len(), "at-end", "iteration over {} symbols stopped at {}", input.len(), pos);
    ensure!(log.borrow().given == input.len(), "consumption", "{} symbols were taken of {}", log.borrow().given, input.len());
    ctx.nontrivial();
    Ok(())
}

/// Tokens of hundreds to tens of thousands of symbols, one after another
fn c11_long_tokens<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    ctx.probe("long-token");
    // runs of symbol 0, ended or not by symbol 1
    let (a, b) = (Ast::RepInf(1, Box::new(Ast::Lit(vec![0]))), Ast::Lit(vec![1]));
    let toks = match ctx.below(3) {
        0 => vec![(a, 1)],
        1 => vec![(Ast::Seq(vec![a.clone(), b]), 2), (Ast::Lit(vec![0, 0]), 3)],
        _ => vec![(Ast::Seq(vec![a.clone(), b]), 2), (a, 3)],
    };
    let dfa = prepare_tokens::<S, T>(ctx, u, &toks);
    let mut input: Vec<usize> = vec![];
    // (start, length, token) of what iterating gives
    let mut want: Vec<(usize, usize, u32)> = vec![];
    for _ in 0..ctx.range(1, 6) {
        let k = match ctx.below(4) {
            0 => ctx.range(1, 20),
            1 => *ctx.pick(&[255, 256, 257, 511, 1000]),
            2 => *ctx.pick(&[4095, 4096, 4097, 9000]),
            _ => *ctx.pick(&[65_535, 65_536, 65_537, 70_000]),
        };
        let closed = ctx.chance(2, 3);
        let start = input.len();
        input.extend(std::iter::repeat(0).take(k));
        if closed {
            input.push(1);
        } else {
            input.push(u.n() - 1);
        }
        match (toks.len(), toks[0].1, toks.last().unwrap().1) {
            (1, _, _) => want.push((start, k, 1)),
            (_, _, 3) if toks[1].0 == Ast::Lit(vec![0, 0]) => {
                if closed {
                    want.push((start, k + 1, 2));
                } else {
                    // each attempt looks to the end of the run: keep these short
                    let k2 = k.min(300);
                    input.truncate(start + k2);
                    input.push(u.n() - 1);
                    want.extend((0..k2 / 2).map(|i| (start + 2 * i, 2, 3)));
                }
            }
            _ => want.push(if closed { (start, k + 1, 2) } else { (start, k, 3) }),
        }
    }
    ctx.sample(|| format!("{} tokens {:?}, pieces {:?}", u.name, toks, &want[..want.len().min(8)]));
    let (src, _log) = SimReader::ending(u.conc(&input), vec![]);
    let mut t = Tokenizer::new_prepared(src, &dfa);
    for (s, l, tok) in &want {
        let got = Iterator::next(&mut t).map(|(r, o)| (r, o.rank()));
        ctx.mix(*s as u64);
        ensure!(got == Some((*s..s + l, *tok)), "wrong-token", "tokens {:?} over {} symbols: got {:?}, want {:?}", toks, input.len(), got, (*s..s + l, *tok));
        let p = t.get_source_position();
        ensure!(p == s + l, "position", "position is {}, should be {}", p, s + l);
    }
    let got = Iterator::next(&mut t).map(|(r, o)| (r, o.rank()));
    ensure!(got.is_none(), "wrong-token", "tokens {:?} over {} symbols: got {:?} after the last one", toks, input.len(), got);
    ensure!(t.at_end_of_reader() && t.get_source_position() == input.len(), "at-end", "iteration over {} symbols stopped at {}", input.len(), t.get_source_position());
    ctx.nontrivial();
    Ok(())
}

fn c11_on<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    if at_scale(ctx) {
        return c11_long::<S, T>(ctx, u);
    }
    let n = u.draw_n(ctx, 2);
    let toks = gen_tokens(ctx, n, 5, 140);
    let nfa = Nfa::of_tokens(&toks);
    let mut lazy = Lazy::new(&nfa);
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
    let full = gen_input(ctx, &asts, u.n(), *ctx.pick(&[15, 40, 150, 400]));
    // the source is cut off early in some runs
    let k = if ctx.chance(1, 4) { ctx.range(0, full.len()) } else { full.len() };
    if k < full.len() {
        ctx.fault("source-cut-off");
    }
    let input = &full[..k];
    let (src, log) = SimReader::ending(u.conc(input), u.conc(&full[k..]));
    let reader: Dyn<S> = match ctx.below(4) {
        0 => Box::new(src),
        1 => Box::new(src.map_symbols(|x: S| x)),
        2 => {
            // every fragment arrives through a byte stream with faults when the symbols are bytes
            let mut s = src;
            Box::new(FnReader(move || s.next_symbol()))
        }
        _ => {
            let b: Dyn<S> = Box::new(src);
            Box::new(b)
        }
    };
    ev!(ctx, "tokens {:?}", toks);
    ev!(ctx, "input {:?}", input);
    ctx.sample(|| format!("{} tokens {:?} over {} symbols", u.name, toks, k));
    let dfa: SymbolRangeDfa<S, T>;
    let mut t = if ctx.chance(1, 3) {
        let d = prepare_tokens::<S, T>(ctx, u, &toks);
        Tokenizer::new(reader, d)
    } else {
        dfa = prepare_tokens::<S, T>(ctx, u, &toks);
        Tokenizer::new_prepared(reader, &dfa)
    };
    let mut pos = 0usize;
    let mut pieces: Vec<Range<usize>> = vec![];
    let w = ctx.swarm([5, 3, 3, 2]);
    let steps = ctx.range(3, 2 * k + 10).min(200);
    let mut ntok = 0;
    for _ in 0..steps {
        let op = ctx.weighted(&w);
        match op {
            0 | 1 => {
                let want = token_at(&mut lazy, input, pos);
                let got = if op == 0 {
                    t.next_token().map(|(r, o)| (Some(r), o.rank()))
                } else {
                    t.next_symbol().map(|o| (None, o.rank()))
                };
                ev!(ctx, "next_{} at {} -> {:?}", if op == 0 { "token" } else { "symbol" }, pos, got);
                match (&got, want) {
                    (None, None) => {}
                    (Some((r, o)), Some((l, w))) => {
                        ensure!(
                            *o == w && r.as_ref().map_or(true, |r| *r == (pos..pos + l)),
                            "wrong-token",
                            "tokens {:?} on {:?} at {}: got {:?}, the longest match is {} symbols of token {}",
                            toks,
                            input,
                            pos,
                            got,
                            l,
                            w
                        );
                        pieces.push(pos..pos + l);
                        pos += l;
                        ntok += 1;
                    }
                    _ => fail!("wrong-token", "tokens {:?} on {:?} at {}: got {:?}, want {:?}", toks, input, pos, got, want),
                }
            }
            2 => {
                let got = t.skip_input();
                let want = input.get(pos).map(|i| u.syms[*i].clone());
                ev!(ctx, "skip at {} -> {:?}", pos, got);
                ensure!(got == want, "wrong-skip", "tokens {:?} on {:?}: skip at {} gave {:?}, the symbol there is {:?}", toks, input, pos, got, want);
                if got.is_some() {
                    pieces.push(pos..pos + 1);
                    pos += 1;
                }
            }
            _ => {
                let (want, end) = iterate_from(&mut lazy, input, pos);
                let got = Iterator::next(&mut t).map(|(r, o)| (r, o.rank()));
                ev!(ctx, "next at {} -> {:?}", pos, got);
                ensure!(got == want, "wrong-token", "tokens {:?} on {:?} iterating from {}: got {:?}, want {:?}", toks, input, pos, got, want);
                if let Some((r, _)) = &want {
                    if r.start > pos {
                        pieces.push(pos..r.start);
                    }
                    pieces.push(r.clone());
                    ntok += 1;
                } else if end > pos {
                    pieces.push(pos..end);
                }
                pos = end;
            }
        }
        let p = t.get_source_position();
        ensure!(p == pos, "position", "tokens {:?} on {:?}: position is {}, should be {}", toks, input, p, pos);
        let e = t.at_end_of_reader();
        let known = log.borrow().nones > 0;
        ensure!(
            e == (known && pos == k),
            "at-end",
            "tokens {:?} on {:?}: at_end_of_reader is {} at {} of {} (the source has {}reported its end)",
            toks,
            input,
            e,
            pos,
            k,
            if known { "" } else { "not " }
        );
        ctx.mix((pos * 16 + op) as u64);
    }
    // pieces account for everything consumed
    let mut at = 0;
    for p in &pieces {
        ensure!(p.start == at, "partition", "pieces {:?} leave a gap or overlap at {}", pieces, at);
        at = p.end;
    }
    ensure!(at == pos, "partition", "pieces end at {}, position is {}", at, pos);
    if ntok > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------
// C12

pub fn c12(ctx: &Ctx) -> Res<()> {
    if ctx.chance(1, 6000) {
        return huge_universe!(ctx, u => c12_on(ctx, &u));
    }
    some_universe!(ctx, u => c12_on(ctx, &u))
}

fn c12_on<S: Sym>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 2);
    let mut toks = gen_tokens(ctx, n, 4, 110);
    // tokens that look far ahead in vain, and tokens that match the empty string
    if ctx.chance(2, 3) {
        let k = ctx.range(2, 24) as u32;
        let x = Ast::Range(0, ctx.below(n));
        let v = vec![Ast::Rep(k, k + 1 + ctx.below(3) as u32, Box::new(x)), Ast::Lit(vec![ctx.below(n)])];
        toks.push((Ast::Seq(v), 5));
    }
    if ctx.chance(1, 2) {
        let e = match ctx.below(5) {
            0 => Ast::Eps,
            1 => Ast::RepInf(0, Box::new(Ast::Lit(vec![ctx.below(n)]))),
            2 => Ast::Rep(0, 3, Box::new(Ast::Lit(vec![ctx.below(n), ctx.below(n)]))),
            3 => Ast::Lit(vec![]),
            _ => Ast::Seq(vec![]),
        };
        toks.push((e, ctx.below(7) as u32));
        ctx.probe("token-matching-the-empty-string");
    }
    let scale = at_scale(ctx);
    if scale {
        // a look-ahead of hundreds of symbols
        let k = *ctx.pick(&[200u32, 255, 256, 257, 600]);
        let x = ctx.below(n - 1);
        let far = vec![Ast::Rep(k, k + 1 + ctx.below(20) as u32, Box::new(Ast::Range(0, x))), Ast::Lit(vec![n - 1])];
        toks = vec![(Ast::Lit(vec![ctx.below(x + 1)]), 1), (Ast::Seq(far), 5)];
    }
    if !scale && !crate::nfa::tractable(&toks, n) && toks.len() < 50 {
        return Ok(());
    }
    let nfa = Nfa::of_tokens(&toks);
    let mut lazy = Lazy::new(&nfa);
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
    let mut input = gen_input(ctx, &asts, u.n(), *ctx.pick(&[15, 40, 120]));
    if ctx.chance(1, 3) {
        let x = ctx.below(n);
        let at = ctx.range(0, input.len());
        for _ in 0..ctx.range(1, 40) {
            input.insert(at, x);
        }
    }
    if scale {
        let x = ctx.below(n);
        for _ in 0..ctx.range(200, 700) {
            input.push(x);
        }
    }
    let len = input.len();
    ev!(ctx, "tokens {:?} input {:?}", toks, input);
    ctx.sample(|| format!("{} tokens {:?} over {} symbols", u.name, toks, len));
    let dfa = prepare_tokens::<S, u32>(ctx, u, &toks);
    let (src, log) = SimReader::ending(u.conc(&input), vec![u.syms[0].clone(); 5]);
    let mut t = Tokenizer::new_prepared(src, &dfa);
    let mut pos = 0;
    let mut failed = 0;
    let mut iterate = ctx.chance(1, 4);
    let mut calls = 0usize;
    loop {
        calls += 1;
        ensure!(calls <= 4 * len + 20, "no-progress", "{} calls and still at {} of {}", calls, pos, len);
        if iterate {
            let (want, end) = iterate_from(&mut lazy, &input, pos);
            let got = t.next();
            ev!(ctx, "next at {} -> {:?}", pos, got);
            ensure!(got == want, "wrong-token", "tokens {:?} on {:?} iterating from {}: got {:?}, want {:?}", toks, input, pos, got, want);
            pos = end;
            if got.is_none() {
                ensure!(t.at_end_of_reader(), "at-end", "iteration finished before the end of the input");
                break;
            }
        } else {
            let want = token_at(&mut lazy, &input, pos);
            for again in 0..ctx.range(1, 3) {
                let before = t.get_source_position();
                let got = if ctx.chance(1, 4) { t.next_symbol().map(|o| (None, o)) } else { t.next_token().map(|(r, o)| (Some(r), o)) };
                ev!(ctx, "attempt {} at {} -> {:?}", again, pos, got);
                match (&got, &want) {
                    (None, None) => {
                        failed += 1;
                        let p = t.get_source_position();
                        ensure!(p == before && p == pos, "moved", "a failed attempt moved from {} to {}", before, p);
                    }
                    (Some((r, o)), Some((l, w))) => {
                        ensure!(
                            o == w && r.as_ref().map_or(true, |r| *r == (pos..pos + *l)),
                            "wrong-token",
                            "tokens {:?} on {:?} at {}, attempt {}: got {:?}, want {:?}",
                            toks,
                            input,
                            pos,
                            again,
                            got,
                            want
                        );
                        pos += *l;
                        break;
                    }
                    _ => fail!("wrong-token", "tokens {:?} on {:?} at {}, attempt {}: got {:?}, want {:?}", toks, input, pos, again, got, want),
                }
            }
            if want.is_none() {
                if t.at_end_of_reader() {
                    ensure!(pos == len, "at-end", "the end is reported at {} of {}", pos, len);
                    break;
                }
                // everything looked ahead over is still there
                let k = ctx.range(1, 3);
                for _ in 0..k {
                    let got = t.skip_input();
                    let want = input.get(pos).map(|i| u.syms[*i].clone());
                    ev!(ctx, "skip at {} -> {:?}", pos, got);
                    ensure!(got == want, "lost-input", "tokens {:?} on {:?}: after a failed attempt the symbol at {} is {:?}, should be {:?}", toks, input, pos, got, want);
                    if got.is_some() {
                        pos += 1;
                    }
                }
            }
            if ctx.chance(1, 12) {
                iterate = true;
            }
        }
        ctx.mix(pos as u64 * 8 + failed.min(7) as u64);
    }
    ensure!(pos == len, "no-progress", "finished at {} of {}", pos, len);
    // and it stays finished
    for _ in 0..2 {
        let a = t.next();
        let b = t.skip_input();
        ensure!(a.is_none() && b.is_none(), "invented-input", "after the end: {:?} {:?}", a, b);
    }
    ensure!(log.borrow().given == len, "consumption", "{} symbols were taken of {}", log.borrow().given, len);
    if failed > 1 || iterate && len > 5 {
        ctx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------
// C13

/// Durable storage: survives a crash except that the record being appended may be torn
#[derive(Default)]
struct Disk {
    bytes: Vec<u8>,
}
impl Disk {
    fn append(&mut self, ctx: &Ctx, start: u32, end: u32, tok: u32, crash: Crash) {
        let mut rec = vec![];
        for v in [start, end, tok] {
            rec.extend_from_slice(&v.to_le_bytes());
        }
        let crc = rec.iter().fold(0x811C9DC5u32, |h, b| (h ^ *b as u32).wrapping_mul(0x0100_0193));
        rec.extend_from_slice(&crc.to_le_bytes());
        match crash {
            Crash::Before => {
                ctx.fault("crash-before-write");
                inject_panic("crash")
            }
            Crash::Torn => {
                let k = ctx.range(1, rec.len() - 1);
                self.bytes.extend_from_slice(&rec[..k]);
                ctx.fault("crash-torn-write");
                inject_panic("crash")
            }
            Crash::After => {
                self.bytes.extend_from_slice(&rec);
                ctx.fault("crash-after-write");
                inject_panic("crash")
            }
            Crash::No => self.bytes.extend_from_slice(&rec),
        }
    }
    /// The records that survive; a torn tail is discarded
    fn recover(&mut self) -> Vec<(u32, u32, u32)> {
        let mut out = vec![];
        let mut at = 0;
        while at + 16 <= self.bytes.len() {
            let r = &self.bytes[at..at + 16];
            let crc = r[..12].iter().fold(0x811C9DC5u32, |h, b| (h ^ *b as u32).wrapping_mul(0x0100_0193));
            if crc.to_le_bytes() != r[12..16] {
                break;
            }
            let g = |i: usize| u32::from_le_bytes([r[i], r[i + 1], r[i + 2], r[i + 3]]);
            out.push((g(0), g(4), g(8)));
            at += 16;
        }
        self.bytes.truncate(at);
        out
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Crash {
    No,
    Before,
    Torn,
    After,
}

const SKIP: u32 = u32::MAX;

/// A source over part of the input that may crash the process or fail (report no symbol although there is more)
struct Flaky<'c, S> {
    ctx: &'c Ctx,
    syms: Vec<S>,
    at: usize,
    crash: u64,
    fail: u64,
    failed: std::rc::Rc<std::cell::Cell<bool>>,
}
impl<'c, S: Clone> SymbolReader<S> for Flaky<'c, S> {
    fn next_symbol(&mut self) -> Option<S> {
        if self.crash > 0 && self.ctx.chance(self.crash, 100) {
            self.ctx.fault("crash-in-read");
            inject_panic("crash");
        }
        if self.fail > 0 && self.at < self.syms.len() && self.ctx.chance(self.fail, 100) {
            self.ctx.fault("read-error");
            self.failed.set(true);
            return None;
        }
        let r = self.syms.get(self.at).cloned();
        if r.is_some() {
            self.at += 1;
        }
        r
    }
}

pub fn c13(ctx: &Ctx) -> Res<()> {
    if ctx.chance(1, 4000) {
        return huge_universe!(ctx, u => c13_on(ctx, &u));
    }
    some_universe!(ctx, u => c13_on(ctx, &u))
}

fn c13_on<S: Sym + Serialize + DeserializeOwned>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 2);
    let toks = gen_tokens(ctx, n, 5, 140);
    let nfa = Nfa::of_tokens(&toks);
    let mut lazy = Lazy::new(&nfa);
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
    let input = gen_input(ctx, &asts, u.n(), *ctx.pick(&[20, 60, 150]));
    let len = input.len();
    ev!(ctx, "tokens {:?} input {:?}", toks, input);
    ctx.sample(|| format!("{} tokens {:?} over {} symbols with crashes", u.name, toks, len));

    // what an undisturbed tokenizer finds
    let mut want = vec![];
    let mut p = 0;
    loop {
        let (t, end) = iterate_from(&mut lazy, &input, p);
        match t {
            Some((r, t)) => want.push((r.start as u32, r.end as u32, t)),
            None => break,
        }
        p = end;
    }

    // the stored matcher
    let dfa = prepare_tokens::<S, u32>(ctx, u, &toks);
    let json = ctx.chance(1, 2);
    let stored: Vec<u8> = if json { serde_json::to_vec(&dfa).unwrap() } else { bincode::serialize(&dfa).unwrap() };
    drop(dfa);

    let mut disk = Disk::default();
    let mut restarts = 0;
    let rate = *ctx.pick(&[1u64, 3, 8]);
    let done = loop {
        let records = disk.recover();
        let from = records.last().map(|r| r.1 as usize).unwrap_or(0);
        // faults stop after a while, then progress is owed
        let calm = restarts >= 12;
        restarts += 1;
        ensure!(restarts <= 40, "no-progress", "still restarting at {} of {} after the faults stopped", from, len);
        ev!(ctx, "restart {} from {} with {} records", restarts, from, records.len());
        ctx.mix(from as u64 + 1000 * restarts as u64);
        let seed = fresh_seed(ctx);
        let dfa: SymbolRangeDfa<S, u32> = with_hash_seed(seed, || {
            if json {
                serde_json::from_slice(&stored).map_err(|e| e.to_string())
            } else {
                bincode::deserialize(&stored).map_err(|e| e.to_string())
            }
        })
        .map_err(|e| crate::core::Violation { class: "reload".into(), msg: format!("the stored matcher does not load: {}", e) })?;
        let failed = std::rc::Rc::new(std::cell::Cell::new(false));
        let src = Flaky {
            ctx,
            syms: u.conc(&input[from..]),
            at: 0,
            crash: if calm { 0 } else { rate },
            fail: if calm || ctx.chance(1, 2) { 0 } else { 3 },
            failed: failed.clone(),
        };
        let style = ctx.below(3);
        let outcome = catch(|| -> Res<bool> {
            let mut t = Tokenizer::new_prepared(src, &dfa);
            loop {
                let crash = if calm { Crash::No } else { [Crash::No, Crash::Before, Crash::Torn, Crash::After][ctx.weighted(&[30, 1, 1, 1])] };
                let by_iter = match style {
                    0 => true,
                    1 => false,
                    _ => ctx.chance(1, 2),
                };
                let before = t.get_source_position();
                let got = if by_iter { t.next() } else { t.next_token() };
                if failed.get() {
                    // the answer may rest on missing input: start again from what is recorded
                    ev!(ctx, "source failed near {}", from + before);
                    return Ok(false);
                }
                let pos = from + t.get_source_position();
                match got {
                    Some((r, tok)) => {
                        ev!(ctx, "token {:?} {} (position {})", r, tok, pos);
                        ensure!(
                            from + r.end == pos,
                            "position",
                            "token {:?} of a tokenizer started at {}, but the position is {}",
                            r,
                            from,
                            pos
                        );
                        disk.append(ctx, (from + r.start) as u32, pos as u32, tok, crash);
                    }
                    None => {
                        if by_iter {
                            return Ok(true);
                        }
                        ensure!(pos == from + before, "moved", "a failed attempt moved the position from {} to {}", from + before, pos);
                        if t.at_end_of_reader() {
                            return Ok(true);
                        }
                        let s = t.skip_input();
                        if failed.get() {
                            return Ok(false);
                        }
                        if s.is_none() {
                            // the source's end is known only now
                            continue;
                        }
                        let pos = from + t.get_source_position();
                        disk.append(ctx, (pos - 1) as u32, pos as u32, SKIP, crash);
                    }
                }
            }
        });
        match outcome {
            Caught::Value(r) => {
                if r? {
                    break disk.recover();
                }
            }
            Caught::Injected(_) => {
                ev!(ctx, "crashed");
            }
            Caught::Panic(p) => fail!("panic", "tokenizing from {} panicked: {}", from, p),
        }
    };
    let got: Vec<(u32, u32, u32)> = done.into_iter().filter(|r| r.2 != SKIP).collect();
    if restarts > 2 && got.len() > 1 {
        ctx.nontrivial();
    }
    ensure!(
        got == want,
        "resume-differs",
        "tokens {:?} on {:?}: with {} restarts the tokens were {:?}, undisturbed {:?}",
        toks,
        input,
        restarts - 1,
        got,
        want
    );
    Ok(())
}
