//! C04 tape fidelity, C05 refused rewinds, C06 demand-driven consumption, C09 bounded retention

use std::cell::RefCell;
use std::rc::Rc;

use concordance::*;

use crate::core::{Ctx, Res};
use crate::env::{catch, live, live_bytes, Caught, Tracked};
use crate::nfa::{Lazy, Nfa};
use crate::p_match::{gen_tokens, outcome, prepare_tokens, run_by_hand};
use crate::pat::*;
use crate::srcs::*;
use crate::syms::{Sym, Universe};
use crate::{ensure, ev, some_universe};

/// What a tape should be
#[derive(Clone, Debug, Default)]
struct Model {
    pos: usize,
    cut: usize,
    /// furthest position read
    top: usize,
    /// the source has reported its end
    ended: bool,
}

fn check_tape<R: SymbolReader<u32>>(t: &mut Tape<u32, R>, m: &Model, what: &str) -> Res<()> {
    let p = t.get_source_position();
    ensure!(p == m.pos, "position", "{}: position is {}, should be {} ({:?})", what, p, m.pos, m);
    let e = t.at_end_of_reader();
    ensure!(e == (m.ended && m.pos == m.top), "at-end", "{}: at_end_of_reader is {} ({:?})", what, e, m);
    let b = t.buffer_size();
    ensure!(b == m.top - m.cut, "held", "{}: reports {} symbols held since the cut, should be {} ({:?})", what, b, m.top - m.cut, m);
    Ok(())
}

/// The symbol at position i of the source
fn sym(i: usize) -> u32 {
    1000 + i as u32
}

struct Weights {
    w: [u32; 7],
    burst: usize,
}
impl Weights {
    fn draw(ctx: &Ctx) -> Weights {
        Weights { w: ctx.swarm([8, 4, 4, 3, 2, 1, 1]), burst: *ctx.pick(&[1, 3, 8, 20]) }
    }
}

/// Once in a while a run is about sizes: counters, thresholds and buffers beyond what small runs reach
pub fn at_scale(ctx: &Ctx) -> bool {
    if ctx.chance(1, if ctx.thorough() { 3000 } else { 1000 }) {
        ctx.probe("large-scale");
        true
    } else {
        false
    }
}

/// One history of a tape. `refuse` adds requests that must be refused.
fn tape_history(ctx: &Ctx, refuse: bool) -> Res<()> {
    let scale = at_scale(ctx);
    let n = if scale { *ctx.pick(&[300, 700, 5000, 70000, 140000]) + ctx.below(40) } else { ctx.size(6, 40, 300) };
    let (src, log) = SimReader::ending((0..n).map(sym).collect(), vec![7, 7, 7]);
    let mut t = Tape::new(src);
    let mut m = Model::default();
    let mut w = Weights::draw(ctx);
    if scale {
        w.burst = *ctx.pick(&[150, 300, 5000, 70000]);
        w.w[0] = w.w[0].max(8);
    }
    let steps = ctx.range(5, if ctx.thorough() { 400 } else { 120 }).min(if scale { 80 } else { 400 });
    ctx.sample(|| format!("tape over {} symbols, {} operations, weights {:?}", n, steps, w.w));
    let mut grown = 0;
    let mut rewound = false;
    check_tape(&mut t, &m, "new tape")?;
    for _ in 0..steps {
        let op = ctx.weighted(&w.w);
        match op {
            0 => {
                let k = ctx.range(1, w.burst);
                for _ in 0..k {
                    read(ctx, &mut t, &mut m, n)?;
                }
            }
            1 => {
                // rewind within the allowance
                let room = m.pos - m.cut;
                let k = match ctx.weighted(&[4, 2, 1, 1]) {
                    0 => ctx.range(0, room),
                    1 => room,
                    2 => room.min(1),
                    _ => 0,
                };
                ev!(ctx, "rewind {}", k);
                match catch(|| t.rewind(k)) {
                    Caught::Value(()) => {}
                    Caught::Panic(p) => crate::fail!("refused-valid-rewind", "rewind({}) was refused ({}) although {:?}", k, p, m),
                    Caught::Injected(_) => unreachable!(),
                }
                m.pos -= k;
                rewound |= k > 0;
            }
            2 => {
                ev!(ctx, "cut at {}", m.pos);
                t.cut();
                m.cut = m.pos;
            }
            3 => {
                // read on to the furthest symbol seen and a little beyond
                let k = (m.top - m.pos) + ctx.below(3);
                for _ in 0..k {
                    read(ctx, &mut t, &mut m, n)?;
                }
            }
            4 => {
                if ctx.chance(1, 4) {
                    ev!(ctx, "grow");
                    if grown < 5 {
                        t.resize();
                        grown += 1;
                        ctx.fault("tape-grown-by-request");
                    }
                }
            }
            5 => {
                // to the end and a few more times
                if ctx.chance(1, 6) {
                    while !(m.ended && m.pos == m.top) {
                        read(ctx, &mut t, &mut m, n)?;
                    }
                    for _ in 0..2 {
                        read(ctx, &mut t, &mut m, n)?;
                    }
                }
            }
            _ => {
                // slide: read, cut, read ... so that the buffer goes round
                for _ in 0..ctx.range(1, if scale { 600 } else { 6 }) {
                    read(ctx, &mut t, &mut m, n)?;
                    if ctx.chance(1, 2) {
                        t.cut();
                        m.cut = m.pos;
                    }
                }
            }
        }
        check_tape(&mut t, &m, "after an operation")?;
        ctx.mix((m.pos * 1_000_000 + m.cut * 1000 + m.top) as u64);
        if refuse && ctx.chance(1, 3) {
            let room = m.pos - m.cut;
            let k = match ctx.weighted(&[4, 3, 2, 1, 1, 1, 1]) {
                0 => room + 1,
                1 => room + 1 + ctx.below(6),
                2 => (m.top - m.cut).max(room + 1),
                3 => m.pos.max(room) + 1 + ctx.below(3),
                4 => usize::MAX,
                5 => usize::MAX - ctx.below(10) - m.pos,
                _ => (1usize << 63) + ctx.below(5),
            };
            ev!(ctx, "rewind {} (allowance {})", k, room);
            ctx.fault("rewind-too-far");
            if room < m.top - m.cut {
                ctx.probe("refusal-after-a-rewind");
                ctx.nontrivial();
            }
            match catch(|| t.rewind(k)) {
                Caught::Value(()) => crate::fail!("accepted-bad-rewind", "rewind({}) was accepted although only {} may be rewound ({:?})", k, room, m),
                _ => {}
            }
            check_tape(&mut t, &m, "after a refused rewind")?;
            // the allowance is as before
            if ctx.chance(1, 4) {
                match catch(|| t.rewind(room)) {
                    Caught::Value(()) => m.pos -= room,
                    _ => crate::fail!("refused-valid-rewind", "rewind({}) was refused after an earlier refusal ({:?})", room, m),
                }
                check_tape(&mut t, &m, "after a rewind that follows a refusal")?;
            }
            if ctx.chance(1, 2) {
                read(ctx, &mut t, &mut m, n)?;
            }
        }
        let l = log.borrow();
        ensure!(l.given == m.top, "consumption", "took {} symbols from the source, needed {} ({:?})", l.given, m.top, m);
        ensure!(l.after_none == 0, "polled-after-end", "asked the source again {} times after its end", l.after_none);
    }
    if !refuse && rewound && m.top > 4 {
        ctx.nontrivial();
    }
    Ok(())
}

fn read<R: SymbolReader<u32>>(ctx: &Ctx, t: &mut Tape<u32, R>, m: &mut Model, n: usize) -> Res<()> {
    let got = t.next_symbol();
    let want = if m.pos < n { Some(sym(m.pos)) } else { None };
    ev!(ctx, "read at {} -> {:?}", m.pos, got);
    if m.pos == m.top && m.pos >= n {
        m.ended = true;
    }
    ensure!(got == want, "wrong-symbol", "read at {} gave {:?}, the source has {:?} ({:?})", m.pos, got, want, m);
    if got.is_some() {
        m.pos += 1;
        m.top = m.top.max(m.pos);
    }
    Ok(())
}

pub fn c04(ctx: &Ctx) -> Res<()> {
    tape_history(ctx, false)
}

pub fn c05(ctx: &Ctx) -> Res<()> {
    tape_history(ctx, true)
}

// ---------------------------------------------------------------------------------------------------------
// C06

pub fn c06(ctx: &Ctx) -> Res<()> {
    match ctx.weighted(&[2, 2, 1, 4, 4, 2]) {
        0 => c06_tape(ctx),
        1 => c06_split(ctx),
        2 => c06_mapped(ctx),
        3 => some_universe!(ctx, u => c06_match(ctx, &u)),
        4 => some_universe!(ctx, u => c06_tokens(ctx, &u)),
        _ => c06_stack(ctx),
    }
}

/// A tape on a source that stalls: after its first report of no symbol the source must be left alone
fn c06_tape(ctx: &Ctx) -> Res<()> {
    let scale = at_scale(ctx);
    let n = if scale { *ctx.pick(&[300, 3000, 70000]) } else { ctx.size(5, 20, 60) };
    let burst = if scale { *ctx.pick(&[100, 300, 30000]) } else { 1 };
    let (src, log) = SimReader::ending((0..n).map(sym).collect(), (0..20).map(|i| 5 + i).collect());
    let mut t = Tape::new(src);
    let (mut pos, mut top, mut cut) = (0usize, 0usize, 0usize);
    let mut ended = false;
    let mut grown = 0;
    let w = ctx.swarm([8, 3, 2, 2]);
    for _ in 0..ctx.range(5, 60) {
        match ctx.weighted(&w) {
            0 => {
                for _ in 0..ctx.range(1, burst) {
                    let got = t.next_symbol();
                    let want = if pos < n { Some(sym(pos)) } else { None };
                    ensure!(got == want, "wrong-symbol", "read at {} gave {:?}, want {:?}", pos, got, want);
                    if got.is_some() {
                        pos += 1;
                        top = top.max(pos);
                    } else {
                        ended = true;
                    }
                }
            }
            1 => {
                let k = ctx.range(0, pos - cut);
                t.rewind(k);
                pos -= k;
            }
            2 => {
                t.cut();
                cut = pos;
            }
            _ => {
                let _ = (t.at_end_of_reader(), t.get_source_position(), t.buffer_size());
                if ctx.chance(1, 6) && grown < 5 {
                    t.resize();
                    grown += 1;
                }
            }
        }
        let l = log.borrow();
        ctx.mix((l.pulls * 1000 + pos) as u64);
        ensure!(
            l.pulls == top + ended as usize,
            "consumption",
            "the source was asked {} times although callers needed {} symbols (end seen: {})",
            l.pulls,
            top,
            ended
        );
    }
    if ended {
        ctx.nontrivial();
        ctx.probe("source-ended");
    }
    Ok(())
}

fn c06_split(ctx: &Ctx) -> Res<()> {
    let scale = at_scale(ctx);
    let n = if scale { *ctx.pick(&[300, 3000, 70000]) } else { ctx.size(5, 20, 60) };
    let burst = if scale { *ctx.pick(&[100, 300, 30000]) } else { 1 };
    let mut script: Vec<Option<u32>> = (0..n).map(|i| Some(sym(i))).collect();
    for _ in 0..ctx.weighted(&[3, 2, 1]) {
        let i = ctx.range(0, script.len());
        script.insert(i, None);
    }
    let (mut src, log) = SimReader::new(script, None);
    let (mut a, mut b) = src.split();
    let mut reads = [0usize, 0];
    ensure!(log.borrow().pulls == 0, "consumption", "splitting read from the source");
    for _ in 0..ctx.range(5, 80) {
        let which = ctx.below(2);
        for _ in 0..ctx.range(1, burst) {
            let r = if which == 0 { a.next_symbol() } else { b.next_symbol() };
            reads[which] += 1;
            let l = log.borrow();
            ctx.mix((l.pulls * 1000 + reads[0]) as u64);
            ev!(ctx, "half {} -> {:?}", which, r);
            let most = reads[0].max(reads[1]);
            ensure!(l.pulls <= most, "consumption", "the source was asked {} times, no half read more than {}", l.pulls, most);
        }
        if reads[0] > 1 && reads[1] > 1 {
            ctx.nontrivial();
        }
    }
    let l = log.borrow().clone();
    drop(a);
    drop(b);
    ensure!(log.borrow().pulls == l.pulls, "consumption", "dropping the halves read from the source");
    Ok(())
}

fn c06_mapped(ctx: &Ctx) -> Res<()> {
    let n = if at_scale(ctx) { *ctx.pick(&[300, 3000, 70000]) } else { ctx.size(5, 20, 60) };
    let (src, log) = SimReader::ending((0..n).map(sym).collect(), vec![1, 2, 3]);
    let calls = Rc::new(RefCell::new(vec![]));
    let c2 = calls.clone();
    let mut m = src.map_symbols(move |x: u32| {
        c2.borrow_mut().push(x);
        x * 2
    });
    ensure!(log.borrow().pulls == 0, "consumption", "mapping read from the source");
    for i in 0..ctx.range(1, n + 1) {
        let r = m.next_symbol();
        let want = if i < n { Some(sym(i) * 2) } else { None };
        ensure!(r == want, "wrong-symbol", "mapped read {} gave {:?}, want {:?}", i, r, want);
        ensure!(log.borrow().pulls == i + 1, "consumption", "{} pulls after {} reads", log.borrow().pulls, i + 1);
        ensure!(calls.borrow().len() == (i + 1).min(n), "mapping-calls", "{} mapping calls after {} reads", calls.borrow().len(), i + 1);
        ctx.mix(i as u64);
        if i > 2 {
            ctx.nontrivial();
        }
    }
    Ok(())
}

/// A match on a source that never ends, or that ends and would go on if asked again
fn c06_match<S: Sym>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    // the last symbol of the universe is in no pattern
    let n = ctx.range(2, u.n() - 1);
    let toks = gen_tokens(ctx, n, 4, 120);
    let nfa = Nfa::of_tokens(&toks);
    let mut lazy = Lazy::new(&nfa);
    let dfa = prepare_tokens::<S, u32>(ctx, u, &toks);
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
    ev!(ctx, "tokens {:?}", toks);
    ctx.sample(|| format!("match of {:?}", toks));
    for _ in 0..ctx.range(1, 4) {
        let input = gen_input(ctx, &asts, n, 40);
        let endless = ctx.chance(1, 2);
        let (src, log, input2) = if endless {
            let mut v = input.clone();
            v.push(u.n() - 1);
            let (s, l) = SimReader::new(u.conc(&input).into_iter().map(Some).collect(), Some(u.syms[u.n() - 1].clone()));
            ctx.fault("source-endless");
            (s, l, v)
        } else {
            let poison = u.conc(&gen_input(ctx, &asts, n, 10));
            let (s, l) = SimReader::ending(u.conc(&input), poison);
            ctx.fault("source-resumes-after-end");
            (s, l, input.clone())
        };
        let (want, viable) = lazy.run(&input2);
        let mut src = src;
        let rank = |o: &u32| *o;
        let got = match ctx.below(3) {
            0 => outcome(match_pattern(dfa.start(), &mut src), &rank)?,
            1 => outcome(run_by_hand(&dfa, &mut src), &rank)?,
            _ => matches_prepared(Src(src), &dfa).map(|l| (l, want.map(|w| w.1).unwrap_or(0))),
        };
        let l = log.borrow();
        ev!(ctx, "input {:?} endless {} -> {:?} took {}", input, endless, got, l.given);
        ctx.mix((l.pulls * 100 + viable) as u64);
        ensure!(got == want, "wrong-match", "tokens {:?} on {:?}: got {:?}, want {:?}", toks, input, got, want);
        ensure!(
            l.given <= viable + 1,
            "read-too-far",
            "tokens {:?} on {:?}: took {} symbols although after {} no further match could begin with them",
            toks,
            input,
            l.given,
            viable
        );
        ensure!(l.after_none == 0, "polled-after-end", "the match asked its source again after its end");
        if viable > 1 {
            ctx.nontrivial();
        }
    }
    Ok(())
}

fn c06_tokens<S: Sym>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = ctx.range(2, u.n() - 1);
    let toks = gen_tokens(ctx, n, 4, 120);
    let nfa = Nfa::of_tokens(&toks);
    let mut lazy = Lazy::new(&nfa);
    let dfa = prepare_tokens::<S, u32>(ctx, u, &toks);
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
    let input = gen_input(ctx, &asts, n, *ctx.pick(&[20, 60]));
    let endless = ctx.chance(1, 2);
    ev!(ctx, "tokens {:?} input {:?} endless {}", toks, input, endless);
    ctx.sample(|| format!("tokenizer of {:?} on {:?}, endless {}", toks, input, endless));
    let sentinel = u.n() - 1;
    let (src, log) = if endless {
        ctx.fault("source-endless");
        SimReader::new(u.conc(&input).into_iter().map(Some).collect(), Some(u.syms[sentinel].clone()))
    } else {
        ctx.fault("source-resumes-after-end");
        SimReader::ending(u.conc(&input), u.conc(&gen_input(ctx, &asts, n, 10)))
    };
    let mut t = Tokenizer::new_prepared(src, &dfa);
    let len = input.len();
    let mut need = 0usize; // symbols that had to be taken so far
    let mut pos = 0usize;
    ensure!(log.borrow().pulls == 0, "consumption", "creating a tokenizer read from its source");
    let rest = |pos: usize| -> Vec<usize> {
        let mut v: Vec<usize> = if pos < len { input[pos..].to_vec() } else { vec![] };
        if endless {
            v.push(sentinel);
        }
        v
    };
    for _ in 0..ctx.range(3, 2 * len + 6) {
        let op = ctx.weighted(&[3, 3, 2, 1]);
        match op {
            0 => {
                let (want, viable) = lazy.run(&rest(pos));
                let want = want.filter(|w| w.0 > 0);
                need = need.max(pos + viable + 1);
                let got = t.next_token().map(|(r, o)| (r.end - r.start, o));
                ev!(ctx, "next_token at {} -> {:?}", pos, got);
                ensure!(got == want, "wrong-token", "tokens {:?} on {:?} at {}: got {:?}, want {:?}", toks, input, pos, got, want);
                pos += want.map(|w| w.0).unwrap_or(0);
            }
            1 => {
                need = need.max(pos + 1);
                let got = t.skip_input();
                ev!(ctx, "skip at {} -> {:?}", pos, got);
                if pos < len || endless {
                    ensure!(got.is_some(), "lost-input", "skip at {} of {} gave nothing", pos, len);
                    pos += 1;
                } else {
                    ensure!(got.is_none(), "invented-input", "skip past the end gave {:?}", got);
                }
            }
            2 => {
                // iterate, unless a token never comes
                let mut p = pos;
                let mut nd = need;
                let mut found = None;
                loop {
                    let (want, viable) = lazy.run(&rest(p));
                    nd = nd.max(p + viable + 1);
                    match want.filter(|w| w.0 > 0) {
                        Some(w) => {
                            found = Some((p..p + w.0, w.1));
                            p += w.0;
                            break;
                        }
                        None => {
                            if p >= len {
                                break;
                            }
                            p += 1;
                        }
                    }
                }
                if found.is_none() && endless {
                    continue;
                }
                need = nd;
                let got = t.next();
                ev!(ctx, "next at {} -> {:?}", pos, got);
                ensure!(got == found, "wrong-token", "tokens {:?} on {:?} iterating from {}: got {:?}, want {:?}", toks, input, pos, got, found);
                pos = p;
            }
            _ => {
                let _ = (t.get_source_position(), t.at_end_of_reader());
            }
        }
        let l = log.borrow();
        ctx.mix((l.pulls * 1000 + pos) as u64);
        ensure!(
            l.given <= need,
            "read-too-far",
            "tokens {:?} on {:?}: took {} symbols by position {}, {} were enough",
            toks,
            input,
            l.given,
            pos,
            need
        );
        ensure!(l.after_none == 0, "polled-after-end", "the tokenizer asked its source again after its end");
        if pos > 2 {
            ctx.nontrivial();
        }
    }
    Ok(())
}

/// Through a stack of adaptors, each symbol is still taken once, in order, when needed
fn c06_stack(ctx: &Ctx) -> Res<()> {
    let n = if at_scale(ctx) { *ctx.pick(&[300, 3000, 70000]) } else { ctx.size(5, 20, 60) };
    let (src, log) = SimReader::new((0..n).map(|i| Some(sym(i))).collect(), None);
    let tape = Tape::new(src.map_symbols(|x: u32| x + 1));
    let mut half = OwnedSplit::new(Box::new(tape), ctx.chance(1, 2), ctx.below(2) as u8);
    let mut m = FnReader(move || half.next_symbol()).map_symbols(|x: u32| x + 1);
    for i in 0..ctx.range(1, n + 1) {
        let r = m.next_symbol();
        let want = if i < n { Some(sym(i) + 2) } else { None };
        ensure!(r == want, "wrong-symbol", "read {} gave {:?}, want {:?}", i, r, want);
        ensure!(log.borrow().pulls <= i + 1, "consumption", "{} pulls after {} reads through a stack", log.borrow().pulls, i + 1);
        ctx.mix(i as u64);
        if i > 2 {
            ctx.nontrivial();
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------
// C09

/// A source of counted symbols, made when asked for
struct Fresh {
    at: u32,
    end: u32,
    pick: Box<dyn FnMut(u32) -> u32>,
}
impl SymbolReader<Tracked> for Fresh {
    fn next_symbol(&mut self) -> Option<Tracked> {
        if self.at >= self.end {
            return None;
        }
        self.at += 1;
        Some(Tracked::new((self.pick)(self.at - 1)))
    }
}

pub fn c09(ctx: &Ctx) -> Res<()> {
    if ctx.chance(1, if ctx.thorough() { 2000 } else { 1000 }) {
        return c09_bytes(ctx);
    }
    match ctx.below(3) {
        0 => c09_split(ctx),
        1 => c09_tape(ctx),
        _ => c09_tokens(ctx),
    }
}

fn long(ctx: &Ctx) -> usize {
    if ctx.thorough() {
        *ctx.pick(&[300, 1000, 5000, 20000, 70000])
    } else if ctx.chance(1, 40) {
        *ctx.pick(&[5000, 20000, 70000])
    } else {
        *ctx.pick(&[300, 600, 1500])
    }
}

type Dyn2<'a, S> = Box<dyn SymbolReader<S> + 'a>;

/// Not only symbols: no memory of any kind may grow with the length of the stream. Counts the bytes this thread holds.
fn c09_bytes(ctx: &Ctx) -> Res<()> {
    let n = *ctx.pick(&[20000usize, 40000, 80000]);
    let span = *ctx.pick(&[1usize, 5, 40, 200]);
    let mut rng = crate::core::Rng::new(ctx.draw(1 << 40));
    let kind = ctx.below(4);
    let what = ["split", "tape", "tokenizer", "nested split"][kind];
    ctx.probe("bytes-counted");
    ctx.sample(|| format!("bytes held by a {} over {} symbols, {} kept at most", what, n, span));
    let allow = (8192 + 64 * (4 * span + 16)) as isize;
    let mut worst = 0isize;
    let mut check = |pos: usize, base: isize| -> Res<()> {
        let held = live_bytes() - base;
        worst = worst.max(held);
        ensure!(held <= allow, "retained-bytes", "at {} of {} the {} holds {} bytes for at most {} symbols", pos, n, what, held, span);
        Ok(())
    };
    match kind {
        0 | 3 => {
            let mut at = 0u32;
            let mut src = FnReader(move || {
                at += 1;
                if at as usize <= n {
                    Some(at - 1)
                } else {
                    None
                }
            });
            let (mut a, b) = src.split();
            let mut drive = |mut halves: Vec<Dyn2<u32>>, base: isize| -> Res<()> {
                let mut pos = vec![0usize; halves.len()];
                while pos.iter().any(|p| *p < n) {
                    let low = *pos.iter().min().unwrap();
                    let i = rng.below(halves.len() as u64) as usize;
                    for _ in 0..=rng.below(span as u64) {
                        if pos[i] >= low + span || pos[i] >= n {
                            break;
                        }
                        let r = halves[i].next_symbol();
                        ensure!(r == Some(pos[i] as u32), "wrong-symbol", "half {} read {:?} at {}", i, r, pos[i]);
                        pos[i] += 1;
                    }
                    check(low, base)?;
                }
                Ok(())
            };
            if kind == 0 {
                let halves: Vec<Dyn2<u32>> = vec![Box::new(a), Box::new(b)];
                drive(halves, live_bytes())?;
            } else {
                let (x, y) = a.split();
                let halves: Vec<Dyn2<u32>> = vec![Box::new(x), Box::new(y), Box::new(b)];
                drive(halves, live_bytes())?;
            }
        }
        1 => {
            let mut at = 0u32;
            let mut t = Tape::new(FnReader(move || {
                at += 1;
                if at as usize <= n {
                    Some(at - 1)
                } else {
                    None
                }
            }));
            let base = live_bytes();
            let (mut pos, mut cut) = (0usize, 0usize);
            while pos < n {
                match rng.below(6) {
                    0 => {
                        let k = rng.below((pos - cut) as u64 + 1) as usize;
                        t.rewind(k);
                        pos -= k;
                    }
                    1 => {
                        t.cut();
                        cut = pos;
                    }
                    _ => {
                        for _ in 0..=rng.below(span as u64) {
                            if pos >= n || pos - cut >= span {
                                break;
                            }
                            let r = t.next_symbol();
                            ensure!(r == Some(pos as u32), "wrong-symbol", "read {:?} at {}", r, pos);
                            pos += 1;
                        }
                    }
                }
                if pos - cut >= span {
                    t.cut();
                    cut = pos;
                }
                check(pos, base)?;
            }
        }
        _ => {
            let mut tm: TokenMatcher<u32, u32> = TokenMatcher::new();
            let one = Pattern::MatchRange(0u32, 4);
            tm.add_pattern(one.clone().repeat(1..span as u32 + 1).append(Pattern::Match(vec![5])), 1);
            tm.add_pattern(one, 2);
            tm.add_pattern(Pattern::Match(vec![5]), 3);
            let dfa: SymbolRangeDfa<u32, u32> = (&tm).prepare_to_match();
            let mut at = 0usize;
            let mut r2 = crate::core::Rng::new(rng.next());
            let skips = rng.below(2) == 0;
            let mut t = Tokenizer::new_prepared(
                FnReader(move || {
                    at += 1;
                    if at <= n {
                        // 9 is in no token
                        Some(if skips && r2.below(20) == 0 { 9 } else { r2.below(6) as u32 })
                    } else {
                        None
                    }
                }),
                &dfa,
            );
            let base = live_bytes();
            loop {
                let r = match rng.below(3) {
                    0 => t.next_token().map(|x| x.0.end),
                    _ => t.next().map(|x| x.0.end),
                };
                if r.is_none() {
                    if t.at_end_of_reader() {
                        break;
                    }
                    t.skip_input();
                }
                check(t.get_source_position(), base)?;
            }
            ensure!(t.get_source_position() == n, "lost-input", "tokenizing stopped at {} of {}", t.get_source_position(), n);
        }
    }
    ctx.mix(worst as u64);
    ctx.nontrivial();
    Ok(())
}

fn c09_split(ctx: &Ctx) -> Res<()> {
    let n = long(ctx);
    let base = live();
    let mut src = Fresh { at: 0, end: n as u32, pick: Box::new(|i| i) };
    let maxgap = *ctx.pick(&[0usize, 1, 4, 20, 80]);
    let drop_at = if ctx.chance(1, 2) { Some(ctx.below(n)) } else { None };
    let dropped = ctx.below(2);
    ctx.sample(|| format!("split over {} symbols, gap up to {}, one half dropped at {:?}", n, maxgap, drop_at));
    {
        let (a, b) = src.split();
        let mut halves = [Some(a), Some(b)];
        let mut pos = [0usize, 0];
        while pos[0] < n || pos[1] < n {
            let live_halves: Vec<usize> = (0..2).filter(|i| halves[*i].is_some() && pos[*i] < n).collect();
            if live_halves.is_empty() {
                break;
            }
            let mut which = *ctx.pick(&live_halves);
            if live_halves.len() == 2 {
                let (l, g) = if pos[0] < pos[1] { (0, 1) } else { (1, 0) };
                if pos[g] - pos[l] >= maxgap.max(1) {
                    which = l;
                }
            }
            let k = ctx.range(1, maxgap.max(1)).min(n - pos[which]);
            for _ in 0..k {
                let other = 1 - which;
                if halves[other].is_some() && pos[which] >= pos[other] + maxgap.max(1) {
                    break;
                }
                let r = halves[which].as_mut().unwrap().next_symbol();
                ensure!(r.as_ref().map(|t| t.0) == Some(pos[which] as u32), "wrong-symbol", "half {} read {:?} at {}", which, r, pos[which]);
                pos[which] += 1;
            }
            if Some(pos[which]) >= drop_at && drop_at.is_some() && halves[dropped].is_some() {
                halves[dropped] = None;
                ctx.fault("split-half-dropped");
            }
            let gap = match (&halves[0], &halves[1]) {
                (Some(_), Some(_)) => pos[0].max(pos[1]) - pos[0].min(pos[1]),
                (Some(_), None) => pos[1].saturating_sub(pos[0]),
                (None, Some(_)) => pos[0].saturating_sub(pos[1]),
                _ => 0,
            };
            let held = (live() - base).max(0) as usize;
            ensure!(
                held <= 2 * gap + 8,
                "retained",
                "a split reader holds {} symbols although its live halves ({:?}, {} live) are {} apart",
                held,
                pos,
                halves.iter().filter(|h| h.is_some()).count(),
                gap
            );
            ctx.mix(held as u64);
        }
    }
    let held = live() - base;
    ensure!(held == 0, "retained", "{} symbols are still held after both halves were dropped", held);
    ctx.nontrivial();
    Ok(())
}

fn c09_tape(ctx: &Ctx) -> Res<()> {
    let n = long(ctx);
    let base = live();
    let span = *ctx.pick(&[1usize, 3, 7, 8, 30, 100]);
    ctx.sample(|| format!("tape over {} symbols, up to {} between a cut and the furthest read", n, span));
    {
        let mut t = Tape::new(Fresh { at: 0, end: n as u32, pick: Box::new(|i| i) });
        let (mut pos, mut cut, mut top, mut most) = (0usize, 0usize, 0usize, 0usize);
        while pos < n {
            match ctx.weighted(&[6, 2, 2]) {
                0 => {
                    let k = ctx.range(1, span);
                    for _ in 0..k {
                        if pos - cut >= span || pos >= n {
                            break;
                        }
                        let r = t.next_symbol();
                        ensure!(r.as_ref().map(|t| t.0) == Some(pos as u32), "wrong-symbol", "read {:?} at {}", r, pos);
                        pos += 1;
                        top = top.max(pos);
                        most = most.max(top - cut);
                    }
                }
                1 => {
                    let k = ctx.range(0, pos - cut);
                    t.rewind(k);
                    pos -= k;
                }
                _ => {
                    t.cut();
                    cut = pos;
                }
            }
            if pos - cut >= span {
                t.cut();
                cut = pos;
            }
            let held = (live() - base).max(0) as usize;
            ctx.mix(held as u64);
            ensure!(
                held <= 4 * most + 16,
                "retained",
                "at {} of {} the tape holds {} symbols; the longest stretch from a cut to the furthest read was {}",
                pos,
                n,
                held,
                most
            );
        }
    }
    ensure!(live() == base, "retained", "{} symbols are still held after the tape was dropped", live() - base);
    ctx.nontrivial();
    Ok(())
}

fn c09_tokens(ctx: &Ctx) -> Res<()> {
    // tokens made of 0s closed by a 1 (and a long prefix that is looked at in vain)
    let n = long(ctx);
    let maxlen = *ctx.pick(&[2u32, 5, 12, 40]);
    let look = ctx.range(0, 20) as u32;
    let mut tm: TokenMatcher<Tracked, u32> = TokenMatcher::new();
    let t = |x: u32| Tracked::new(x);
    tm.add_pattern(Pattern::Match(vec![t(0)]).repeat(0..maxlen).append(Pattern::Match(vec![t(1)])), 1);
    tm.add_pattern(Pattern::Match(vec![t(2)]), 2);
    // 2 2 2 ... 3: never completed, so every 2 is looked ahead over
    tm.add_pattern(Pattern::Match(vec![t(2)]).repeat((look + 1)..(look + 2)).append(Pattern::Match(vec![t(3)])), 3);
    let dfa: SymbolRangeDfa<Tracked, u32> = (&tm).prepare_to_match();
    drop(tm);
    let base = live();
    let most = (maxlen as usize + 1).max(look as usize + 3);
    let seed = ctx.draw(1 << 30);
    ctx.sample(|| format!("tokenizing {} symbols, tokens up to {} long, lookahead {}", n, maxlen, look + 2));
    {
        let mut rng = crate::core::Rng::new(seed);
        let mut zeros = 0;
        let src = Fresh {
            at: 0,
            end: n as u32,
            pick: Box::new(move |_| {
                if zeros > 0 {
                    zeros -= 1;
                    return if zeros == 0 { 1 } else { 0 };
                }
                if rng.below(2) == 0 {
                    2
                } else {
                    let z = rng.below(maxlen as u64) as u32;
                    if z == 0 {
                        1
                    } else {
                        zeros = z;
                        0
                    }
                }
            }),
        };
        let mut tk = Tokenizer::new_prepared(src, &dfa);
        let mut end = 0;
        let by_iter = ctx.chance(1, 2);
        loop {
            let r = if by_iter { tk.next() } else { tk.next_token() };
            match r {
                None => {
                    // the last token may be cut off
                    break;
                }
                Some((r, _)) => {
                    ensure!(r.start == end, "lost-input", "a token starts at {}, the last one ended at {}", r.start, end);
                    end = r.end;
                }
            }
            let held = (live() - base).max(0) as usize;
            ctx.mix(held as u64);
            ensure!(
                held <= 4 * most + 16,
                "retained",
                "at {} of {} the tokenizer holds {} symbols; tokens and lookahead are at most {} long",
                end,
                n,
                held,
                most
            );
        }
        ensure!(end + maxlen as usize + 1 >= n, "lost-input", "tokenizing stopped at {} of {}", end, n);
        if end > 50 {
            ctx.nontrivial();
        }
    }
    ensure!(live() == base, "retained", "{} symbols are still held after the tokenizer was dropped", live() - base);
    Ok(())
}
