//! C23 symbol maps under any history, C24 what a machine under construction says about itself

use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use concordance::overlapping_symbols::SymbolMap;
use concordance::*;

use crate::core::{Ctx, Res};
use crate::env::{fresh_seed, with_hash_seed};
use crate::p_match::{apply, gen_machine, Op, RevTok, TokT};
use crate::p_tape::at_scale;
use crate::pat::{build, cost, gen_bounded, GenCfg};
use crate::syms::{Sym, Universe};
use crate::{any_universe, ensure, ev, huge_universe, some_universe};

// ---------------------------------------------------------------------------------------------------------
// C23

type R = (usize, usize);

fn conc<S: Sym>(u: &Universe<S>, r: R) -> SymbolRange<S> {
    SymbolRange::new(u.syms[r.0].clone(), u.syms[r.1].clone())
}

fn gen_range(ctx: &Ctx, n: usize, wide: usize) -> R {
    let lo = ctx.below(n);
    let hi = match ctx.weighted(&[4, 3, 1]) {
        0 => lo + ctx.below(wide.min(n - lo)),
        1 => lo,
        _ => ctx.range(lo, n - 1),
    };
    (lo, hi)
}

/// Asks a map for the ranges that overlap `q`; they are given in symbols
fn ask<S: Sym>(m: &SymbolMap<S>, q: &SymbolRange<S>) -> Vec<SymbolRange<S>> {
    m.find_overlapping_ranges(q).into_iter().cloned().collect()
}

fn check_find<S: Sym>(ctx: &Ctx, u: &Universe<S>, m: &SymbolMap<S>, held: &BTreeSet<R>, q: R) -> Res<()> {
    let got = ask(m, &conc(u, q));
    let mut sorted = got.clone();
    sorted.sort_by(|a, b| (&a.lowest, &a.highest).cmp(&(&b.lowest, &b.highest)));
    let want: Vec<SymbolRange<S>> = held.iter().filter(|r| r.0 <= q.1 && q.0 <= r.1).map(|r| conc(u, *r)).collect();
    ev!(ctx, "find {:?} -> {:?}", q, got);
    ctx.mix((q.0 * 64 + q.1) as u64 * 64 + got.len() as u64);
    ensure!(sorted == want, "wrong-find", "map of {:?}: ranges found for {:?} are {:?}, should be {:?}", held, q, got, want);
    Ok(())
}

/// The separated map covers the same symbols in disjoint pieces, and no piece reaches over an end of a stored range
fn check_separated<S: Sym>(u: &Universe<S>, sep: &SymbolMap<S>, held: &BTreeSet<R>) -> Res<Vec<SymbolRange<S>>> {
    let all = conc(u, (0, u.n() - 1));
    let pieces = ask(sep, &all);
    for (i, a) in pieces.iter().enumerate() {
        ensure!(a.lowest <= a.highest, "reversed-piece", "separating {:?} gives {:?}", held, a);
        for b in &pieces[i + 1..] {
            ensure!(a.highest < b.lowest || b.highest < a.lowest, "overlap-left", "separating {:?} leaves {:?} and {:?} overlapping", held, a, b);
        }
    }
    for r in held {
        let r = conc(u, *r);
        for p in &pieces {
            let apart = p.highest < r.lowest || r.highest < p.lowest;
            let inside = r.lowest <= p.lowest && p.highest <= r.highest;
            ensure!(apart || inside, "not-a-union", "separating {:?}: {:?} is only partly covered by the piece {:?}", held, r, p);
        }
        // the pieces inside it leave no gap
        let mut inside: Vec<&SymbolRange<S>> = pieces.iter().filter(|p| r.lowest <= p.lowest && p.highest <= r.highest).collect();
        inside.sort_by(|a, b| a.lowest.cmp(&b.lowest));
        let mut whole = !inside.is_empty() && inside[0].lowest == r.lowest && inside[inside.len() - 1].highest == r.highest;
        for w in inside.windows(2) {
            whole = whole && w[0].highest < w[1].lowest && w[0].highest.next() == w[1].lowest;
        }
        ensure!(whole, "symbols-lost", "separating {:?} gives {:?}, which do not cover {:?}", held, inside, r);
    }
    for p in &pieces {
        let lo = u.syms.iter().position(|s| *s == p.lowest);
        let covered = held.iter().any(|r| {
            let r = conc(u, *r);
            r.lowest <= p.lowest && p.highest <= r.highest
        });
        ensure!(covered, "symbols-added", "separating {:?} gives {:?} (lowest at {:?}), which no stored range covers", held, p, lo);
    }
    Ok(pieces)
}

pub fn c23(ctx: &Ctx) -> Res<()> {
    if ctx.chance(1, if ctx.thorough() { 10000 } else { 1500 }) {
        ctx.probe("large-scale");
        return huge_universe!(ctx, u => c23_on(ctx, &u));
    }
    any_universe!(ctx, u => c23_on(ctx, &u))
}

fn c23_on<S: Sym>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.n();
    let huge = n > 30;
    let wide = if huge { ctx.range(1, 6) } else { ctx.range(1, n) };
    let mut held: BTreeSet<R> = BTreeSet::new();
    let mut map: SymbolMap<S> = SymbolMap::new();
    let mut order: Vec<R> = vec![];
    let steps = if huge { ctx.range(100, 800) } else { ctx.size(8, 30, 90) };
    let w = if huge { [160, 20, 4, 1] } else { ctx.swarm([6, 4, 1, 2]) };
    let mut asked = false;
    for _ in 0..steps {
        match ctx.weighted(&w) {
            0 => {
                let r = gen_range(ctx, n, wide);
                ev!(ctx, "add {:?}", r);
                map.add_range(&conc(u, r));
                held.insert(r);
                order.push(r);
            }
            1 => {
                let q = gen_range(ctx, n, wide);
                check_find(ctx, u, &map, &held, q)?;
                asked = true;
            }
            2 => {
                if !order.is_empty() {
                    let r = *ctx.pick(&order);
                    ev!(ctx, "add again {:?}", r);
                    map.add_range(&conc(u, r));
                    ctx.probe("range-added-twice");
                }
            }
            _ => {
                let sep = map.to_non_overlapping_map();
                let pieces = check_separated(u, &sep, &held)?;
                ev!(ctx, "separated into {:?}", pieces);
                // looking up in the separated map
                let q = gen_range(ctx, n, wide);
                let qc = conc(u, q);
                let mut got = ask(&sep, &qc);
                got.sort_by(|a, b| a.lowest.cmp(&b.lowest));
                let mut want: Vec<SymbolRange<S>> = pieces.iter().filter(|p| p.lowest <= qc.highest && qc.lowest <= p.highest).cloned().collect();
                want.sort_by(|a, b| a.lowest.cmp(&b.lowest));
                ensure!(got == want, "wrong-find", "separated map {:?}: ranges found for {:?} are {:?}, should be {:?}", pieces, q, got, want);
                // separating what is separate changes nothing that can be asked
                let again = sep.to_non_overlapping_map();
                let a = check_separated(u, &again, &held)?;
                ctx.mix(a.len() as u64);
                // the map it came from is as before
                check_find(ctx, u, &map, &held, (0, n - 1))?;
            }
        }
    }
    ctx.sample(|| format!("{} map of {:?}", u.name, held));
    // the same ranges in another order make the same map
    let mut other: SymbolMap<S> = SymbolMap::new();
    for i in (1..order.len()).rev() {
        let j = ctx.below(i + 1);
        order.swap(i, j);
    }
    for r in &order {
        other.add_range(&conc(u, *r));
    }
    for _ in 0..3 {
        let q = gen_range(ctx, n, wide);
        check_find(ctx, u, &map, &held, q)?;
        check_find(ctx, u, &other, &held, q)?;
    }
    let all = (0, n - 1);
    check_find(ctx, u, &map, &held, all)?;
    check_find(ctx, u, &other, &held, all)?;
    check_separated(u, &map.to_non_overlapping_map(), &held)?;
    check_separated(u, &other.to_non_overlapping_map(), &held)?;
    if held.len() > 2 && asked {
        ctx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------
// C24

/// What a machine should say about itself
#[derive(Clone, Default)]
struct Machine {
    top: u32,
    trans: BTreeMap<u32, Vec<(usize, usize, u32)>>,
    joins: BTreeMap<u32, Vec<u32>>,
    outs: BTreeMap<u32, u32>,
}

impl Machine {
    fn note(&mut self, s: u32) {
        self.top = self.top.max(s);
    }
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Trans(a, lo, hi, b) => {
                self.note(*a);
                self.note(*b);
                self.trans.entry(*a).or_default().push((*lo, *hi, *b));
            }
            Op::Create(a) => self.note(*a),
            Op::Join(a, b) => {
                self.note(*a);
                self.note(*b);
                self.joins.entry(*a).or_default().push(*b);
            }
            Op::Out(a, t) => {
                self.note(*a);
                self.outs.insert(*a, *t);
            }
        }
    }
    /// The state and every state it is joined to, directly or through others
    fn joined(&self, s: u32) -> BTreeSet<u32> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![s];
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                if let Some(v) = self.joins.get(&x) {
                    todo.extend(v.iter().cloned());
                }
            }
        }
        seen
    }
}

fn check_state<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>, m: &dyn StateMachine<SymbolRange<S>, T>, want: &Machine, fixed: bool, s: u32) -> Res<()> {
    let group = want.joined(s);
    let edges: Vec<(usize, usize, u32)> = group.iter().filter_map(|g| want.trans.get(g)).flatten().cloned().collect();
    let got = m.get_transitions_for_state(s);
    ctx.mix(s as u64 * 1000 + got.len() as u64);
    if !fixed {
        let mut g: Vec<(SymbolRange<S>, u32)> = got.clone();
        let mut w: Vec<(SymbolRange<S>, u32)> = edges.iter().map(|(lo, hi, to)| (conc(u, (*lo, *hi)), *to)).collect();
        let key = |a: &(SymbolRange<S>, u32), b: &(SymbolRange<S>, u32)| (&a.0.lowest, &a.0.highest, a.1).cmp(&(&b.0.lowest, &b.0.highest, b.1));
        g.sort_by(key);
        w.sort_by(key);
        g.dedup();
        w.dedup();
        ensure!(g == w, "wrong-transitions", "state {} (joined to {:?}) should have the transitions {:?}, has {:?}", s, group, w, g);
    } else {
        // by symbol
        for (i, x) in u.syms.iter().enumerate() {
            let w: BTreeSet<u32> = edges.iter().filter(|(lo, hi, _)| *lo <= i && i <= *hi).map(|e| e.2).collect();
            let g: BTreeSet<u32> = got.iter().filter(|(r, _)| r.lowest <= *x && *x <= r.highest).map(|e| e.1).collect();
            ensure!(g == w, "wrong-transitions", "state {} (joined to {:?}) should go to {:?} on {:?}, goes to {:?}", s, group, w, x, g);
        }
    }
    let own = want.outs.get(&s).cloned();
    let any: BTreeSet<u32> = group.iter().filter_map(|g| want.outs.get(g)).cloned().collect();
    let out = m.output_symbol_for_state(s).map(|o| o.rank());
    let ok = match (own, out) {
        (Some(o), x) => x == Some(o),
        (None, Some(x)) => any.contains(&x),
        (None, None) => any.is_empty(),
    };
    ensure!(ok, "wrong-output", "state {} (own output {:?}, joined {:?} with outputs {:?}) reports the output {:?}", s, own, group, any, out);
    Ok(())
}

fn check_machine<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>, m: &Ndfa<SymbolRange<S>, T>, want: &Machine, fixed: bool) -> Res<()> {
    let n = m.count_states();
    ensure!(n == want.top + 1, "wrong-count", "the highest state mentioned is {}, count_states gives {}", want.top, n);
    // through a shared or a boxed reference it is the same machine
    let s = ctx.below(n as usize) as u32;
    match ctx.below(6) {
        0 => {
            let b: Box<dyn StateMachine<SymbolRange<S>, T>> = Box::new(m.clone());
            check_state(ctx, u, &b, want, fixed, s)?;
            ensure!(b.count_states() == n, "wrong-count", "boxed, count_states gives {} and not {}", b.count_states(), n);
        }
        1 => {
            let r: Rc<dyn StateMachine<SymbolRange<S>, T>> = Rc::new(m.clone());
            check_state(ctx, u, &r, want, fixed, s)?;
            ensure!(r.count_states() == n, "wrong-count", "shared, count_states gives {} and not {}", r.count_states(), n);
        }
        _ => {}
    }
    let mut states: BTreeSet<u32> = want.trans.keys().chain(want.joins.keys()).chain(want.outs.keys()).cloned().collect();
    states.insert(0);
    states.insert(want.top);
    states.insert(ctx.below(want.top as usize + 1) as u32);
    let mut ranges: Vec<SymbolRange<S>> = vec![];
    for s in states {
        check_state(ctx, u, m, want, fixed, s)?;
        if fixed {
            ranges.extend(m.get_transitions_for_state(s).into_iter().map(|t| t.0));
        }
    }
    if fixed {
        ranges.sort_by(|a, b| (&a.lowest, &a.highest).cmp(&(&b.lowest, &b.highest)));
        ranges.dedup_by(|a, b| a.lowest == b.lowest && a.highest == b.highest);
        for w in ranges.windows(2) {
            ensure!(w[0].highest < w[1].lowest, "overlap-left", "after separating, the machine has transitions on {:?} and on {:?}", w[0], w[1]);
        }
    }
    Ok(())
}

pub fn c24(ctx: &Ctx) -> Res<()> {
    if ctx.chance(1, 4) {
        some_universe!(ctx, u => c24_on::<_, RevTok>(ctx, &u))
    } else {
        any_universe!(ctx, u => c24_on::<_, u32>(ctx, &u))
    }
}

fn c24_on<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.n();
    let seed = fresh_seed(ctx);
    with_hash_seed(seed, || {
        // several machines: copies are taken part-way and go their own ways. The flag says that the machine was never
        // separated, so that its transitions are exactly those added; otherwise they are compared symbol by symbol.
        let mut pool: Vec<(Ndfa<SymbolRange<S>, T>, Machine, bool)> = vec![(Ndfa::new(), Machine::default(), true)];
        let rounds = if at_scale(ctx) { 12 } else { ctx.range(1, 4) };
        let mut joins = 0;
        let every = ctx.range(1, 6) as u64;
        for _ in 0..rounds {
            let mut ops = gen_machine(ctx, n, false);
            // outputs and joins may be repeated and changed
            for _ in 0..ctx.below(4) {
                let again = match ctx.pick(&ops).clone() {
                    Op::Out(s, t) => Op::Out(s, (t + 1 + ctx.below(3) as u32) % 6),
                    o => o,
                };
                let at = ctx.range(0, ops.len());
                ops.insert(at, again);
            }
            for i in (1..ops.len()).rev() {
                let j = ctx.below(i + 1);
                ops.swap(i, j);
            }
            for op in &ops {
                let i = ctx.below(pool.len());
                let (m, want, exact) = &mut pool[i];
                ev!(ctx, "machine {}: {:?}", i, op);
                apply(m, u, op);
                want.apply(op);
                if let Op::Join(..) = op {
                    joins += 1;
                }
                if ctx.chance(1, every) {
                    check_one(ctx, u, m, want, *exact)?;
                }
            }
            let i = ctx.below(pool.len());
            match ctx.below(4) {
                0 => {
                    let (m, want, exact) = &mut pool[i];
                    ev!(ctx, "machine {}: separate", i);
                    m.fix_overlapping_ranges();
                    *exact = false;
                    check_machine(ctx, u, m, want, true)?;
                    ctx.probe("separated-part-way");
                }
                1 => {
                    if pool.len() < 3 {
                        let c = (pool[i].0.clone(), pool[i].1.clone(), pool[i].2);
                        ev!(ctx, "machine {} is a copy of {}", pool.len(), i);
                        pool.push(c);
                        ctx.probe("machine-copied-part-way");
                    }
                }
                2 => {
                    // a pattern compiled onto it: only new states come and nothing that was there is changed
                    let (m, want, exact) = &mut pool[i];
                    let cfg = GenCfg::draw(ctx, n);
                    let ast = gen_bounded(ctx, &cfg, 25);
                    if cost(&ast) > 200 {
                        continue;
                    }
                    let p = build(ctx, u, &ast);
                    let q = m.count_states();
                    ev!(ctx, "machine {}: pattern {:?} from new state {}", i, ast, q);
                    m.create_state(q);
                    want.note(q);
                    let end = p.compile(m, q);
                    ensure!(end >= q, "wrong-end", "a pattern compiled from the new state {} ends on the state {}, which was there before", q, end);
                    ensure!(end < m.count_states(), "wrong-count", "a pattern ends on state {} of {} states", end, m.count_states());
                    let before: BTreeSet<u32> = want.trans.keys().chain(want.joins.keys()).chain(want.outs.keys()).cloned().collect();
                    for s in before {
                        check_state(ctx, u, m, want, !*exact, s)?;
                    }
                    // what the pattern added is not modelled here: take this machine out of the pool
                    let fresh = (Ndfa::new(), Machine::default(), true);
                    pool[i] = fresh;
                    ctx.probe("pattern-compiled-onto-a-machine");
                }
                _ => {}
            }
        }
        ctx.sample(|| format!("{} machine of {} transitions, joins {:?}, outputs {:?}", u.name, pool[0].1.trans.values().map(|v| v.len()).sum::<usize>(), pool[0].1.joins, pool[0].1.outs));
        for (m, want, exact) in &mut pool {
            let s: Vec<u32> = want.trans.keys().chain(want.joins.keys()).chain(want.outs.keys()).cloned().collect();
            for s in s {
                check_state(ctx, u, m, want, !*exact, s)?;
            }
            m.fix_overlapping_ranges();
            check_machine(ctx, u, m, want, true)?;
        }
        if joins > 0 {
            ctx.nontrivial();
        }
        Ok(())
    })
}

fn check_one<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>, m: &Ndfa<SymbolRange<S>, T>, want: &Machine, exact: bool) -> Res<()> {
    let n = m.count_states();
    ensure!(n == want.top + 1, "wrong-count", "the highest state mentioned is {}, count_states gives {}", want.top, n);
    let s = ctx.below(n as usize) as u32;
    check_state(ctx, u, m, want, !exact, s)
}
