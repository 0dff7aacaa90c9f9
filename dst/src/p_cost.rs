//! C27: the work done stays in proportion to what was asked for. Work is what can be counted exactly: copies and
//! comparisons of symbols, symbols taken from the source, and bytes asked of the allocator.

use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::rc::Rc;

use concordance::*;

use crate::core::{Ctx, Res};
use crate::env::asked_bytes;
use crate::nfa::{Lazy, Nfa};
use crate::p_match::{gen_small_tokens, gen_tokens, prepare_tokens};
use crate::p_tape::at_scale;
use crate::pat::*;
use crate::srcs::FnReader;
use crate::syms::Universe;
use crate::{ensure, ev};

thread_local! {
    static COPIES: Cell<u64> = const { Cell::new(0) };
    static COMPARED: Cell<u64> = const { Cell::new(0) };
    static TAKEN: Cell<u64> = const { Cell::new(0) };
}

/// A symbol that counts what is done with it
#[derive(Debug)]
pub struct Costed(pub u32);

impl Clone for Costed {
    fn clone(&self) -> Costed {
        COPIES.with(|c| c.set(c.get() + 1));
        Costed(self.0)
    }
}
impl Ord for Costed {
    fn cmp(&self, o: &Costed) -> Ordering {
        COMPARED.with(|c| c.set(c.get() + 1));
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for Costed {
    fn partial_cmp(&self, o: &Costed) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Costed {
    fn eq(&self, o: &Costed) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Costed {}
impl Countable for Costed {
    fn next(&self) -> Costed {
        Costed(self.0 + 1)
    }
    fn prev(&self) -> Costed {
        Costed(self.0 - 1)
    }
}

#[derive(Clone, Copy, Debug, Default)]
struct Work {
    copies: u64,
    compared: u64,
    taken: u64,
    bytes: u64,
}

fn now() -> Work {
    Work { copies: COPIES.with(|c| c.get()), compared: COMPARED.with(|c| c.get()), taken: TAKEN.with(|c| c.get()), bytes: asked_bytes() }
}

/// The work done so far and the work there was reason for
#[derive(Default)]
struct Ledger {
    done: Work,
    due: Work,
    calls: u64,
}

impl Ledger {
    /// A little to start with: first buffers and the like
    fn new() -> Ledger {
        Ledger { done: Work::default(), due: Work { copies: 64, compared: 64, taken: 0, bytes: 4096 }, calls: 0 }
    }
    fn run<R>(&mut self, f: impl FnOnce() -> R) -> R {
        let a = now();
        let r = f();
        let b = now();
        self.done.copies += b.copies - a.copies;
        self.done.compared += b.compared - a.compared;
        self.done.taken += b.taken - a.taken;
        self.done.bytes += b.bytes - a.bytes;
        self.calls += 1;
        r
    }
    /// Reason for handling `n` symbols through `layers` layers
    fn due(&mut self, n: u64, layers: u64) {
        self.due.copies += 12 * n * layers + 12;
        self.due.bytes += 384 * n * layers + 384;
    }
    fn check(&self, what: &str) -> Res<()> {
        let (d, u) = (&self.done, &self.due);
        ensure!(d.copies <= u.copies, "too-many-copies", "{}: {} symbols copied in {} calls, there was reason for {} at most", what, d.copies, self.calls, u.copies);
        ensure!(
            d.compared <= u.compared,
            "too-many-comparisons",
            "{}: {} symbols compared in {} calls, there was reason for {} at most",
            what,
            d.compared,
            self.calls,
            u.compared
        );
        ensure!(d.bytes <= u.bytes, "too-many-bytes", "{}: {} bytes asked for in {} calls, there was reason for {} at most", what, d.bytes, self.calls, u.bytes);
        Ok(())
    }
}

type Source = Box<dyn SymbolReader<Costed>>;

/// A source that copies nothing
fn source(syms: Vec<u32>) -> Source {
    let mut at = 0;
    Box::new(FnReader(move || {
        TAKEN.with(|c| c.set(c.get() + 1));
        let r = syms.get(at).map(|s| Costed(*s));
        at += 1;
        r
    }))
}

/// Readers on top of the source, and how many there are
fn layers(ctx: &Ctx, mut r: Source, desc: &mut String) -> (Source, u64) {
    let k = ctx.below(4);
    for _ in 0..k {
        r = match ctx.below(4) {
            0 => {
                desc.push_str(" mapped");
                Box::new(r.map_symbols(|s: Costed| s))
            }
            1 => {
                desc.push_str(" boxed");
                Box::new(r)
            }
            2 => {
                desc.push_str(" tape");
                let mut t = Tape::new(r);
                let every = ctx.range(1, 9);
                let mut i = 0;
                Box::new(FnReader(move || {
                    i += 1;
                    if i % every == 0 {
                        t.cut();
                    }
                    t.next_symbol()
                }))
            }
            _ => {
                desc.push_str(" filtered");
                let mut r = r;
                let it = std::iter::from_fn(move || r.next_symbol());
                Box::new(it.filter_map(Some))
            }
        };
    }
    (r, k as u64)
}

pub fn c27(ctx: &Ctx) -> Res<()> {
    match ctx.weighted(&[4, 4, 2, 6, 3, 2]) {
        0 => tape(ctx),
        1 => split(ctx),
        2 => matching(ctx),
        3 => tokens(ctx),
        4 => tagging(ctx),
        _ => collecting(ctx),
    }
}

fn length(ctx: &Ctx) -> usize {
    if at_scale(ctx) {
        *ctx.pick(&[9000, 30000, 70000]) + ctx.below(50)
    } else {
        match ctx.weighted(&[6, 3, 1]) {
            0 => ctx.range(10, 200),
            1 => ctx.range(200, 1000),
            _ => ctx.range(1000, 4000),
        }
    }
}

fn tape(ctx: &Ctx) -> Res<()> {
    let n = length(ctx);
    let mut desc = String::new();
    let (src, k) = layers(ctx, source((0..n as u32).collect()), &mut desc);
    let mut t = Tape::new(src);
    let mut l = Ledger::new();
    // position, cut, furthest
    let (mut pos, mut cut, mut top) = (0usize, 0usize, 0usize);
    let mut ended = false;
    let w = ctx.swarm([6, 4, 4, 4, 2, 1]);
    let burst = *ctx.pick(&[10, 100, 1000, 5000]).min(&n);
    let steps = ctx.range(4, 30);
    ctx.sample(|| format!("tape{} over {} symbols, weights {:?}, bursts of {}", desc, n, w, burst));
    let mut budget = 12 * n + 2000;
    let mut longest = 0;
    for _ in 0..steps {
        let op = ctx.weighted(&w);
        let count = ctx.range(1, burst);
        ev!(ctx, "op {} x {}", op, count);
        if op == 4 {
            if pos > cut {
                let r = ctx.range(0, pos - cut);
                l.run(|| t.rewind(r));
                l.due(0, 1);
                pos -= r;
            }
            l.check("tape: rewound")?;
            continue;
        }
        for i in 0..count {
            if budget == 0 {
                break;
            }
            budget -= 1;
            // 0: read; 1: read, then cut; 2: read, then back one, then read again; 3: read, then back over half of what is held; 5: look ahead and back
            let ahead = if op == 5 { 1 + i % 7 } else { 1 };
            for _ in 0..ahead {
                let fresh = pos == top;
                let before = now().taken;
                let r = l.run(|| t.next_symbol());
                let asked = now().taken - before;
                l.due(1, k + 1);
                ensure!(asked <= (fresh && !ended) as u64, "asked-again", "position {}: {} symbols were taken from the source for one read", pos, asked);
                match r {
                    Some(_) => {
                        pos += 1;
                        top = top.max(pos);
                    }
                    None => ended = true,
                }
            }
            let back = match op {
                2 => 1.min(pos - cut),
                5 => (ahead - 1).min(pos - cut),
                3 if i % 64 == 63 => (pos - cut) / 2,
                _ => 0,
            };
            if op == 1 || (op == 5 && i % 3 == 0) {
                l.run(|| t.cut());
                l.due(0, 1);
                cut = pos;
            }
            let back = back.min(pos - cut);
            if back > 0 {
                l.run(|| t.rewind(back));
                l.due(0, 1);
                pos -= back;
            }
            if i % 16 == 0 {
                l.run(|| {
                    t.get_source_position();
                    t.at_end_of_reader();
                    t.buffer_size();
                });
                l.check("tape")?;
            }
            longest = longest.max(top - cut);
        }
        l.check("tape")?;
        ctx.mix(pos as u64);
    }
    if longest > 50 {
        ctx.nontrivial();
    }
    Ok(())
}

fn split(ctx: &Ctx) -> Res<()> {
    let n = length(ctx);
    let mut desc = String::new();
    let (mut src, k) = layers(ctx, source((0..n as u32).collect()), &mut desc);
    let mut l = Ledger::new();
    let (a, b) = src.split();
    let mut halves: Vec<Option<Box<dyn SymbolReader<Costed> + '_>>> = vec![Some(Box::new(a)), Some(Box::new(b))];
    let mut at = [0usize; 2];
    let burst = *ctx.pick(&[1, 10, 100, 1000, 5000]).min(&n);
    ctx.sample(|| format!("split of a source{} of {} symbols, bursts of {}", desc, n, burst));
    let start = now().taken;
    let mut apart = 0;
    for _ in 0..ctx.range(4, 60) {
        let h = ctx.below(2);
        if ctx.chance(1, 40) {
            ev!(ctx, "drop {}", h);
            let gone = halves[h].take();
            l.run(|| drop(gone));
            l.due(0, 1);
            l.check("split: a half was dropped")?;
            continue;
        }
        let count = ctx.range(1, burst);
        ev!(ctx, "half {} reads {}", h, count);
        if let Some(ref mut r) = halves[h] {
            for _ in 0..count {
                let got = l.run(|| r.next_symbol());
                l.due(1, k + 1);
                at[h] += 1;
                if got.is_none() {
                    break;
                }
            }
        }
        apart = apart.max(at[0].max(at[1]) - at[0].min(at[1]));
        l.check("split")?;
        let taken = (now().taken - start) as usize;
        ensure!(taken <= at[0].max(at[1]), "asked-again", "{} symbols were taken, the halves are at {:?}", taken, at);
        ctx.mix(at[h] as u64);
    }
    if apart > 50 {
        ctx.nontrivial();
    }
    Ok(())
}

fn universe() -> Universe<Costed> {
    Universe { syms: (0..8).map(|i| Costed(40 + i)).collect(), name: "costed" }
}

/// The most transitions any state has
fn widest(dfa: &SymbolRangeDfa<Costed, u32>) -> u64 {
    (0..dfa.count_states()).map(|s| dfa.get_transitions_for_state(s).len()).max().unwrap_or(0) as u64
}

/// Tokens that keep a match going for a long time, among others
fn long_tokens(ctx: &Ctx, n: usize) -> Vec<(Ast, u32)> {
    let mut toks = if ctx.chance(1, 3) { gen_tokens(ctx, n, 3, 110) } else { gen_small_tokens(ctx, n, 3, 110) };
    if ctx.chance(2, 3) {
        toks.push((Ast::RepInf(1, Box::new(Ast::Range(0, ctx.below(n)))), 6));
    }
    if ctx.chance(1, 3) {
        let x = Ast::RepInf(1, Box::new(Ast::Lit(vec![ctx.below(n)])));
        toks.push((Ast::Seq(vec![x, Ast::Lit(vec![ctx.below(n)])]), 7));
    }
    toks
}

/// Long stretches of a few symbols each
fn runs(ctx: &Ctx, n: usize, len: usize) -> Vec<usize> {
    let mut v = vec![];
    while v.len() < len {
        let k = ctx.size(3, 30, 400).max(1);
        let (a, b) = (ctx.below(n), ctx.below(n));
        let mixed = ctx.chance(1, 2);
        for i in 0..k {
            v.push(if mixed && i % 2 == 1 { b } else { a });
        }
    }
    v.truncate(len);
    v
}

fn matching(ctx: &Ctx) -> Res<()> {
    let u = universe();
    let n = ctx.range(2, u.n());
    let toks = long_tokens(ctx, n);
    let dfa: SymbolRangeDfa<Costed, u32> = prepare_tokens(ctx, &u, &toks);
    let wide = widest(&dfa);
    let len = length(ctx);
    let input = runs(ctx, n, len);
    ev!(ctx, "tokens {:?}", toks);
    ctx.sample(|| format!("tokens {:?} on {} symbols", toks, len));
    let mut l = Ledger::new();
    let mut state = match l.run(|| dfa.start()) {
        More(s) => s,
        _ => return Ok(()),
    };
    let mut steps = 0;
    for x in &input {
        let s = Costed(u.syms[*x].0);
        if ctx.chance(1, 30) {
            state = l.run(|| state.clone());
            l.due(0, 1);
        }
        let r = l.run(move || state.next(s));
        l.due(1, 1);
        l.due.compared += 12 * (wide + 2);
        steps += 1;
        l.check("match")?;
        match r {
            More(s) => state = s,
            _ => break,
        }
        if steps == len {
            break;
        }
    }
    ctx.mix(steps as u64);
    if steps > 50 {
        ctx.nontrivial();
    }
    Ok(())
}

fn tokens(ctx: &Ctx) -> Res<()> {
    let u = universe();
    let n = ctx.range(2, u.n());
    let toks = long_tokens(ctx, n);
    let dfa: SymbolRangeDfa<Costed, u32> = prepare_tokens(ctx, &u, &toks);
    let nfa = Nfa::of_tokens(&toks);
    let mut lazy = Lazy::new(&nfa);
    let wide = widest(&dfa);
    let len = length(ctx);
    let input = runs(ctx, n, len);
    let mut desc = String::new();
    let (src, k) = layers(ctx, source(input.iter().map(|x| u.syms[*x].0).collect()), &mut desc);
    ev!(ctx, "tokens {:?} input {:?}", toks, input);
    ctx.sample(|| format!("tokens {:?} on {} symbols{}", toks, len, desc));
    let mut l = Ledger::new();
    let mut tk = l.run(|| Tokenizer::new_prepared(src, &dfa));
    let mut pos = 0;
    let mut budget = 20 * len + 1000;
    let iterate = ctx.chance(1, 2);
    let mut seen = 0;
    let start = now().taken;
    let mut far = 0;
    while pos <= input.len() {
        // one request: the attempts it has to make and how far each looks
        let due = |l: &mut Ledger, looked: usize| {
            l.due(looked as u64 + 1, k + 1);
            l.due.compared += 12 * (wide + 2) * (looked as u64 + 1);
        };
        let mut attempt = |at: usize| -> (usize, usize) {
            let (m, looked) = lazy.run(&input[at..]);
            (m.map(|x| x.0).unwrap_or(0), looked + 1)
        };
        if iterate {
            let mut at = pos;
            loop {
                let (m, looked) = attempt(at);
                due(&mut l, looked);
                far = far.max((at + looked).min(input.len() + 1));
                budget = budget.saturating_sub(looked);
                if m > 0 {
                    at += m;
                    break;
                }
                if at >= input.len() {
                    break;
                }
                at += 1;
                due(&mut l, 1);
                if budget == 0 {
                    break;
                }
            }
            if budget == 0 {
                break;
            }
            let r = l.run(|| tk.next());
            pos = at;
            seen += 1;
            if r.is_none() {
                break;
            }
        } else {
            let (m, looked) = attempt(pos);
            due(&mut l, looked);
            far = far.max((pos + looked).min(input.len() + 1));
            budget = budget.saturating_sub(looked);
            l.run(|| tk.next_token());
            if m > 0 {
                pos += m;
                seen += 1;
            } else {
                if pos >= input.len() {
                    break;
                }
                l.run(|| tk.skip_input());
                due(&mut l, 1);
                pos += 1;
            }
        }
        l.check("tokenizer")?;
        ensure!(
            (now().taken - start) as usize <= far,
            "asked-again",
            "at {}: {} symbols were taken from the source, nothing beyond the first {} was needed",
            pos,
            now().taken - start,
            far
        );
        if budget == 0 {
            break;
        }
    }
    l.check("tokenizer")?;
    ctx.mix(pos as u64);
    if seen > 3 && len > 100 {
        ctx.nontrivial();
    }
    Ok(())
}

fn tagging(ctx: &Ctx) -> Res<()> {
    let u = universe();
    let n = ctx.range(2, u.n());
    let toks = long_tokens(ctx, n);
    let dfa: SymbolRangeDfa<Costed, u32> = prepare_tokens(ctx, &u, &toks);
    let nfa = Nfa::of_tokens(&toks);
    let wide = widest(&dfa);
    let len = length(ctx).min(9000);
    let input = runs(ctx, n, len);
    ev!(ctx, "tokens {:?} input {:?}", toks, input);
    ctx.sample(|| format!("tagging {} symbols", len));
    let base = len as u64 + 1;
    let mut l = Ledger::new();
    let mut src = source(input.iter().map(|x| u.syms[*x].0).collect());
    let mut s: TaggedStream<Costed, u32> = l.run(|| TaggedStream::from_reader(&mut *src));
    l.due(base, 1);
    l.check("reading a tagged stream")?;
    let mut depth = 0;
    for _ in 0..ctx.range(2, 8) {
        let whole = base + s.len() as u64;
        match ctx.below(4) {
            0 => {
                let a = ctx.range(0, s.len());
                let b = ctx.range(a, s.len());
                ev!(ctx, "tag {}..{}", a, b);
                l.run(|| s.tag(9, a..b));
                l.due(whole, depth + 2);
                depth += 1;
            }
            1 => {
                // many small tags
                let w = ctx.range(1, 40);
                let gap = ctx.below(4);
                let mut v = vec![];
                let mut at = ctx.below(10);
                while at + w <= s.len() {
                    v.push((at..at + w, 8));
                    at += w + gap;
                }
                ev!(ctx, "{} tags of {}", v.len(), w);
                let out = l.run(|| s.with_tags(v.into_iter()));
                l.due(whole, depth + 2);
                s = out;
                depth += 1;
            }
            2 => {
                // tokenized by what the symbols are
                let map = |x: TagSymbol<Costed, u32>| match x {
                    TagSymbol::Untagged(c) => Costed(c.0),
                    TagSymbol::Tagged(t, _) => Costed(40 + t % 8),
                };
                let top: Vec<usize> = (0..s.len())
                    .map(|i| match s[i] {
                        TagSymbol::Untagged(ref c) => (c.0 - 40) as usize,
                        TagSymbol::Tagged(t, _) => (t % 8) as usize,
                    })
                    .collect();
                let mut lazy = Lazy::new(&nfa);
                let mut at = 0;
                let mut looked = 0u64;
                while at <= top.len() {
                    let (m, k) = lazy.run(&top[at..]);
                    looked += k as u64 + 2;
                    at += m.map(|x| x.0).unwrap_or(0).max(1);
                    if looked > 2_000_000 {
                        return Ok(());
                    }
                }
                ev!(ctx, "tokenize {} symbols", top.len());
                let calls = Rc::new(RefCell::new(0usize));
                let count = calls.clone();
                let out = l.run(|| {
                    s.tokenize(&dfa, move |x| {
                        *count.borrow_mut() += 1;
                        map(x)
                    })
                });
                l.due(whole, depth + 2);
                l.due(looked, 1);
                l.due.compared += 12 * (wide + 2) * (looked + 1);
                ensure!(*calls.borrow() <= top.len(), "mapped-again", "{} symbols, the mapping was called {} times", top.len(), *calls.borrow());
                s = out;
                depth += 1;
            }
            _ => {
                let v = l.run(|| (&s).read_symbols().to_vec());
                l.due(whole, depth + 2);
                ev!(ctx, "read {} back", v.len());
            }
        }
        l.check("tagging")?;
        ctx.mix(s.len() as u64);
    }
    if len > 100 && depth > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

fn collecting(ctx: &Ctx) -> Res<()> {
    let n = length(ctx);
    let mut desc = String::new();
    let mut l = Ledger::new();
    let kind = ctx.below(3);
    let syms: Vec<Costed> = (0..n as u32).map(Costed).collect();
    let (mut r, k): (Source, u64) = match kind {
        0 => {
            let r = l.run(|| VecReader::from_vec(syms));
            l.due(n as u64, 1);
            layers(ctx, Box::new(r), &mut desc)
        }
        1 => {
            // borrowed
            let v: &'static Vec<Costed> = Box::leak(Box::new(syms));
            let r = l.run(|| v.read_symbols());
            let got = layers(ctx, Box::new(r), &mut desc);
            ctx.mix(1);
            // read here, so that the symbols can be given back
            let (mut r, k) = got;
            let out = l.run(|| r.to_vec());
            l.due(n as u64, k + 1);
            drop(r);
            unsafe { drop(Box::from_raw(v as *const Vec<Costed> as *mut Vec<Costed>)) };
            l.check("collecting")?;
            ensure!(out.len() == n, "lost", "{} of {} symbols were collected", out.len(), n);
            ctx.nontrivial();
            return Ok(());
        }
        _ => layers(ctx, source((0..n as u32).collect()), &mut desc),
    };
    ctx.sample(|| format!("collecting {} symbols{}", n, desc));
    let first = ctx.below(n);
    for _ in 0..first {
        l.run(|| r.next_symbol());
        l.due(1, k + 1);
    }
    l.check("reading")?;
    let v = l.run(|| r.to_vec());
    l.due((n - first) as u64, k + 1);
    ensure!(v.len() == n - first, "lost", "{} of {} symbols were collected", v.len(), n - first);
    ctx.mix(first as u64);
    if n > 100 {
        ctx.nontrivial();
    }
    l.check("collecting")
}
