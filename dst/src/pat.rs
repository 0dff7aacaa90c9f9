//! Patterns: the simulator's own syntax tree, its reference semantics, generators, and construction of the
//! library's patterns through its public constructors and combinators.

use crate::core::Ctx;
use crate::syms::{Sym, Universe};
use concordance::{exactly, IntoPattern, Pattern, PatternCombiner, PatternTransformer, ToPattern};

#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
    Eps,
    Lit(Vec<usize>),
    Range(usize, usize),
    /// at least n
    RepInf(u32, Box<Ast>),
    /// from a up to but not including b
    Rep(u32, u32, Box<Ast>),
    Seq(Vec<Ast>),
    Alt(Vec<Ast>),
}
use Ast::*;

/// A set of positions in an input of fixed length
#[derive(Clone, PartialEq)]
pub struct Bits(Vec<u64>);
impl Bits {
    pub fn empty(len: usize) -> Bits {
        Bits(vec![0; len / 64 + 1])
    }
    pub fn one(len: usize, at: usize) -> Bits {
        let mut b = Bits::empty(len);
        b.set(at);
        b
    }
    pub fn set(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64);
    }
    pub fn get(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    fn or(&mut self, o: &Bits) -> bool {
        let mut changed = false;
        for (a, b) in self.0.iter_mut().zip(o.0.iter()) {
            let n = *a | *b;
            changed |= n != *a;
            *a = n;
        }
        changed
    }
    fn is_empty(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
    pub fn max(&self) -> Option<usize> {
        for (w, x) in self.0.iter().enumerate().rev() {
            if *x != 0 {
                return Some(w * 64 + 63 - x.leading_zeros() as usize);
            }
        }
        None
    }
}

/// The set of positions where a string of the pattern starting in `from` can end: the definition of its language
pub fn ends(p: &Ast, input: &[usize], from: &Bits) -> Bits {
    let len = input.len();
    if from.is_empty() {
        return from.clone();
    }
    match p {
        Eps => from.clone(),
        Lit(v) => {
            let mut out = Bits::empty(len);
            for i in 0..=len {
                if from.get(i) && i + v.len() <= len && input[i..i + v.len()] == v[..] {
                    out.set(i + v.len());
                }
            }
            out
        }
        Range(lo, hi) => {
            let mut out = Bits::empty(len);
            for i in 0..len {
                if from.get(i) && *lo <= input[i] && input[i] <= *hi {
                    out.set(i + 1);
                }
            }
            out
        }
        RepInf(n, q) => {
            let mut cur = from.clone();
            for _ in 0..*n {
                cur = ends(q, input, &cur);
            }
            let mut acc = cur.clone();
            loop {
                cur = ends(q, input, &cur);
                if !acc.or(&cur) {
                    return acc;
                }
            }
        }
        Rep(a, b, q) => {
            let mut out = Bits::empty(len);
            let mut cur = from.clone();
            for k in 0..*b {
                if k >= *a {
                    out.or(&cur);
                }
                cur = ends(q, input, &cur);
            }
            out
        }
        Seq(v) => {
            let mut cur = from.clone();
            for q in v {
                cur = ends(q, input, &cur);
            }
            cur
        }
        Alt(v) => {
            let mut out = Bits::empty(len);
            for q in v {
                out.or(&ends(q, input, from));
            }
            out
        }
    }
}

/// Length of the longest prefix of `input` in the pattern's language
pub fn longest(p: &Ast, input: &[usize]) -> Option<usize> {
    ends(p, input, &Bits::one(input.len(), 0)).max()
}

/// Number of states a straightforward construction needs (including the extra copies made for repetition)
pub fn cost(p: &Ast) -> usize {
    match p {
        Eps => 0,
        Lit(v) => v.len(),
        Range(_, _) => 1,
        RepInf(n, q) => 1 + (*n as usize + 2) * cost(q).max(1),
        Rep(_, b, q) => 1 + *b as usize * cost(q).max(1),
        Seq(v) => v.iter().map(cost).sum(),
        Alt(v) => 1 + v.iter().map(cost).sum::<usize>(),
    }
}

// ---------------------------------------------------------------------------------------------------------
// Generators

pub struct GenCfg {
    /// symbols 0..n may appear in patterns
    pub n: usize,
    pub depth: usize,
    pub ranges: bool,
    pub reps: bool,
    pub degenerate: bool,
    pub maxlit: usize,
}

impl GenCfg {
    pub fn draw(ctx: &Ctx, n: usize) -> GenCfg {
        GenCfg {
            n,
            depth: ctx.range(1, 4),
            ranges: ctx.chance(2, 3),
            reps: ctx.chance(5, 6),
            degenerate: ctx.chance(1, 3),
            maxlit: *ctx.pick(&[2, 3, 3, 5]),
        }
    }
}

pub fn gen_ast(ctx: &Ctx, cfg: &GenCfg, depth: usize) -> Ast {
    let w_range = if cfg.ranges { 6 } else { 0 };
    let w_eps = if cfg.degenerate { 1 } else { 0 };
    if depth == 0 {
        return match ctx.weighted(&[6, w_range, w_eps]) {
            0 => gen_lit(ctx, cfg),
            1 => gen_range(ctx, cfg),
            _ => Eps,
        };
    }
    let w_rep = if cfg.reps { 5 } else { 0 };
    match ctx.weighted(&[4, w_range, w_eps, w_rep, w_rep / 2 + 1, 5, 5]) {
        0 => gen_lit(ctx, cfg),
        1 => gen_range(ctx, cfg),
        2 => Eps,
        3 => {
            let n = ctx.weighted(&[5, 5, 2, 1]) as u32;
            RepInf(n, Box::new(gen_ast(ctx, cfg, depth - 1)))
        }
        4 => {
            let a = ctx.weighted(&[4, 4, 2, 1]) as u32;
            let span = if cfg.degenerate { ctx.weighted(&[5, 5, 3, 2, 1, 1]) } else { ctx.weighted(&[0, 5, 4, 2, 1]) } as u32;
            let b = if cfg.degenerate && span == 0 { ctx.below(a as usize + 1) as u32 } else { a + span };
            Rep(a, b, Box::new(gen_ast(ctx, cfg, depth - 1)))
        }
        5 => {
            let k = if cfg.degenerate { ctx.range(0, 3) } else { ctx.range(1, 3) };
            Seq((0..k).map(|_| gen_ast(ctx, cfg, depth - 1)).collect())
        }
        _ => {
            let k = if cfg.degenerate { ctx.range(0, 4) } else { ctx.range(1, 4) };
            Alt((0..k).map(|_| gen_ast(ctx, cfg, depth - 1)).collect())
        }
    }
}

fn gen_lit(ctx: &Ctx, cfg: &GenCfg) -> Ast {
    let lo = if cfg.degenerate && ctx.chance(1, 6) { 0 } else { 1 };
    let k = ctx.range(lo, cfg.maxlit);
    Lit((0..k).map(|_| ctx.below(cfg.n)).collect())
}

fn gen_range(ctx: &Ctx, cfg: &GenCfg) -> Ast {
    let a = ctx.below(cfg.n);
    let b = ctx.below(cfg.n);
    Range(a.min(b), a.max(b))
}

/// A pattern that a straightforward compilation handles in reasonable time; `limit` bounds its states
pub fn gen_bounded(ctx: &Ctx, cfg: &GenCfg, limit: usize) -> Ast {
    for _ in 0..6 {
        let p = gen_ast(ctx, cfg, cfg.depth);
        if cost(&p) <= limit && crate::nfa::tractable(&[(p.clone(), 0)], cfg.n) {
            return p;
        }
    }
    Lit(vec![0])
}

/// A pattern that differs in one small way, so that much of what it compiles to is alike
pub fn vary(ctx: &Ctx, n: usize, p: &Ast) -> Ast {
    match p {
        Lit(v) if !v.is_empty() && ctx.chance(4, 5) => {
            let mut v = v.clone();
            let i = ctx.below(v.len());
            match ctx.below(3) {
                0 => v[i] = (v[i] + 1) % n,
                1 => {
                    v.remove(i);
                }
                _ => v.insert(i, ctx.below(n)),
            }
            Lit(v)
        }
        Range(_, _) if ctx.chance(4, 5) => {
            let a = ctx.below(n);
            Range(a, ctx.range(a, n - 1))
        }
        RepInf(k, q) => match ctx.below(3) {
            0 => RepInf(*k, Box::new(vary(ctx, n, q))),
            1 => Rep(*k, *k + 2, q.clone()),
            _ => RepInf((*k + 1) % 3, q.clone()),
        },
        Rep(a, b, q) => match ctx.below(3) {
            0 => Rep(*a, *b, Box::new(vary(ctx, n, q))),
            1 => Rep(if *a == 0 { 1 } else { 0 }, *b, q.clone()),
            _ => Rep(*a, *b + 1, q.clone()),
        },
        Seq(v) | Alt(v) if !v.is_empty() && ctx.chance(9, 10) => {
            let i = ctx.below(v.len());
            let mut w = v.clone();
            match ctx.below(4) {
                0 => w.reverse(),
                1 if w.len() > 1 => {
                    w.remove(i);
                }
                _ => w[i] = vary(ctx, n, &v[i]),
            }
            if let Seq(_) = p {
                Seq(w)
            } else {
                Alt(w)
            }
        }
        p => match ctx.below(3) {
            0 => Rep(0, 2, Box::new(p.clone())),
            1 => Seq(vec![p.clone(), Lit(vec![ctx.below(n)])]),
            _ => Alt(vec![p.clone(), Lit(vec![ctx.below(n)])]),
        },
    }
}

/// Sizes that ordinary patterns do not reach: long literals, large repetition counts, many alternatives or tokens.
/// The automata stay linear in these sizes.
pub fn gen_big(ctx: &Ctx, n: usize) -> Vec<(Ast, u32)> {
    ctx.probe("large-pattern");
    let size = *ctx.pick(&[255usize, 256, 257, 300, 520]);
    let word = |ctx: &Ctx, k: usize| -> Vec<usize> {
        match ctx.below(3) {
            0 => vec![ctx.below(n); k],
            1 => (0..k).map(|i| i % n).collect(),
            _ => (0..k).map(|_| ctx.below(n)).collect(),
        }
    };
    let x = ctx.below(n);
    let one = if ctx.chance(1, 2) { Lit(vec![x]) } else { Range(0, x) };
    match ctx.below(6) {
        0 => {
            let v = word(ctx, size);
            let k = ctx.range(1, size);
            vec![(Lit(v.clone()), 1), (Lit(v[..k].to_vec()), 2)]
        }
        1 => {
            let a = size as u32 - ctx.below(3) as u32;
            let b = a + ctx.below(40) as u32 + 1;
            let end = word(ctx, 2);
            vec![(Seq(vec![Rep(a, b, Box::new(one.clone())), Lit(end)]), 2), (one, 3)]
        }
        2 => vec![(Rep(ctx.below(3) as u32, size as u32, Box::new(one)), 1)],
        3 => vec![(RepInf(size as u32, Box::new(one.clone())), 1), (one, 0)],
        4 => {
            // many tokens
            let k = ctx.range(100, 300);
            let mut out: Vec<(Ast, u32)> = vec![];
            let mut seen = std::collections::BTreeSet::new();
            for i in 0..k {
                let mut v = vec![];
                let mut z = i;
                for _ in 0..ctx.range(4, 6) {
                    v.push(z % n);
                    z /= n;
                }
                if ctx.chance(1, 8) {
                    v.pop();
                }
                if seen.insert(v.clone()) || ctx.chance(1, 2) {
                    out.push((Lit(v), (i * 7 % 301) as u32));
                }
            }
            out
        }
        _ => {
            // many alternatives in one token
            let k = ctx.range(100, 300);
            let alts = (0..k)
                .map(|i| {
                    let mut z = i;
                    let mut v = vec![];
                    for _ in 0..5 {
                        v.push(z % n);
                        z /= n;
                    }
                    Lit(v)
                })
                .collect();
            vec![(RepInf(1, Box::new(Alt(alts))), 4)]
        }
    }
}

/// Patterns whose first states have many transitions: alternatives on different symbols and ranges that each go on in
/// their own way, so that their targets are different states
pub fn gen_wide(ctx: &Ctx, n: usize) -> Vec<(Ast, u32)> {
    ctx.probe("wide-pattern");
    let tokens = ctx.range(1, 3);
    let mut out = vec![];
    for t in 0..tokens {
        let mut alts = vec![];
        let step = ctx.range(1, 3);
        let wide = ctx.range(1, step + 1);
        let mut at = ctx.below(step + 1);
        while at < n {
            if !ctx.chance(1, 12) {
                let end = (at + ctx.below(wide)).min(n - 1);
                let first = if end == at && ctx.chance(1, 2) { Lit(vec![at]) } else { Range(at, end) };
                let rest = match ctx.weighted(&[3, 3, 2, 1]) {
                    0 => Lit(vec![ctx.below(n)]),
                    1 => Eps,
                    2 => RepInf(ctx.below(2) as u32, Box::new(Lit(vec![(at * 7 + 3) % n]))),
                    _ => {
                        let a = ctx.below(n);
                        Range(a, ctx.range(a, n - 1))
                    }
                };
                alts.push(Seq(vec![first, rest]));
            }
            at += step;
        }
        // a few that lie across the others
        for _ in 0..ctx.below(4) {
            let a = ctx.below(n);
            alts.push(Seq(vec![Range(a, ctx.range(a, n - 1)), Lit(vec![ctx.below(n)])]));
        }
        out.push((Alt(alts), (t * 5 % 7) as u32));
    }
    out
}

/// A string of the pattern's language (None when the language is empty)
pub fn gen_string(ctx: &Ctx, p: &Ast, budget: usize) -> Option<Vec<usize>> {
    match p {
        Eps => Some(vec![]),
        Lit(v) => Some(v.clone()),
        Range(lo, hi) => Some(vec![ctx.range(*lo, *hi)]),
        RepInf(n, q) => {
            let extra = if budget > 40 { ctx.weighted(&[3, 3, 2, 1, 1, 1]) } else { 0 };
            rep_string(ctx, q, *n as usize + extra, budget)
        }
        Rep(a, b, q) => {
            if a >= b {
                return None;
            }
            let k = ctx.range(*a as usize, *b as usize - 1);
            rep_string(ctx, q, k, budget)
        }
        Seq(v) => {
            let mut out = vec![];
            for q in v {
                let b = budget.saturating_sub(out.len());
                out.extend(gen_string(ctx, q, b)?);
            }
            Some(out)
        }
        Alt(v) => {
            if v.is_empty() {
                return None;
            }
            let s = ctx.below(v.len());
            for k in 0..v.len() {
                if let Some(x) = gen_string(ctx, &v[(s + k) % v.len()], budget) {
                    return Some(x);
                }
            }
            None
        }
    }
}

fn rep_string(ctx: &Ctx, q: &Ast, k: usize, budget: usize) -> Option<Vec<usize>> {
    let mut out = vec![];
    for _ in 0..k {
        let b = budget.saturating_sub(out.len());
        out.extend(gen_string(ctx, q, b)?);
    }
    Some(out)
}

/// An input that mixes strings of the patterns, fragments of them and arbitrary symbols of 0..all
pub fn gen_input(ctx: &Ctx, pats: &[&Ast], all: usize, max: usize) -> Vec<usize> {
    // patterns with long strings need long inputs
    let max = if pats.len() > 30 || pats.iter().any(|p| cost(p) > 150) { max.max(700) } else { max };
    let mut out: Vec<usize> = vec![];
    let pieces = ctx.range(0, if max > 100 { 30 } else { 6 });
    for _ in 0..pieces {
        if out.len() >= max {
            break;
        }
        match ctx.weighted(&[8, 2, 2, 2]) {
            0 => {
                if !pats.is_empty() {
                    let p = *ctx.pick(pats);
                    if let Some(s) = gen_string(ctx, p, 60) {
                        out.extend(s);
                    }
                }
            }
            1 => out.push(ctx.below(all)),
            2 => {
                // a fragment of a string
                if !pats.is_empty() {
                    let p = *ctx.pick(pats);
                    if let Some(s) = gen_string(ctx, p, 60) {
                        let k = ctx.range(0, s.len());
                        out.extend(&s[..k]);
                    }
                }
            }
            _ => {
                // a run of one symbol
                let s = ctx.below(all);
                let k = ctx.range(1, 9);
                for _ in 0..k {
                    out.push(s);
                }
            }
        }
    }
    out.truncate(max);
    if !out.is_empty() && ctx.chance(1, 4) {
        let i = ctx.below(out.len());
        out[i] = ctx.below(all);
    }
    out
}

// ---------------------------------------------------------------------------------------------------------
// Construction of the library's pattern from a tree, through varying public routes

pub fn build<S: Sym>(ctx: &Ctx, u: &Universe<S>, p: &Ast) -> Pattern<S> {
    let style = ctx.weighted(&[3, 3, 2]);
    build_styled(ctx, u, p, style)
}

fn build_styled<S: Sym>(ctx: &Ctx, u: &Universe<S>, p: &Ast, style: usize) -> Pattern<S> {
    let raw = match style {
        0 => true,
        1 => false,
        _ => ctx.chance(1, 2),
    };
    match p {
        Eps => Pattern::Epsilon,
        Lit(v) => {
            let c = u.conc(v);
            if raw {
                Pattern::Match(c)
            } else {
                match ctx.below(5) {
                    0 => exactly(&c),
                    1 => c.to_pattern(),
                    2 => c[..].to_pattern(),
                    3 => (&c[..]).into_pattern(),
                    _ => Box::new(Pattern::Match(c)).into_pattern(),
                }
            }
        }
        Range(lo, hi) => Pattern::MatchRange(u.syms[*lo].clone(), u.syms[*hi].clone()),
        RepInf(n, q) => {
            let inner = build_styled(ctx, u, q, style);
            if raw {
                Pattern::RepeatInfinite(*n, Box::new(inner))
            } else {
                inner.repeat_forever(*n)
            }
        }
        Rep(a, b, q) => {
            let inner = build_styled(ctx, u, q, style);
            if raw {
                Pattern::Repeat(*a..*b, Box::new(inner))
            } else {
                inner.repeat(*a..*b)
            }
        }
        Seq(v) => {
            let mut parts: Vec<Pattern<S>> = v.iter().map(|q| build_styled(ctx, u, q, style)).collect();
            if raw || parts.is_empty() {
                return Pattern::MatchAll(parts);
            }
            if ctx.chance(1, 3) {
                // nest to the right
                let mut acc = parts.pop().unwrap();
                while let Some(q) = parts.pop() {
                    acc = q.append(acc);
                }
                acc
            } else {
                let mut it = parts.into_iter();
                let mut acc = it.next().unwrap();
                for q in it {
                    acc = if ctx.chance(1, 4) { acc.append(&q) } else { acc.append(q) };
                }
                acc
            }
        }
        Alt(v) => {
            let mut parts: Vec<Pattern<S>> = v.iter().map(|q| build_styled(ctx, u, q, style)).collect();
            if raw || parts.is_empty() {
                return Pattern::MatchAny(parts);
            }
            if ctx.chance(1, 3) {
                let mut acc = parts.pop().unwrap();
                while let Some(q) = parts.pop() {
                    acc = q.or(acc);
                }
                acc
            } else {
                let mut it = parts.into_iter();
                let mut acc = it.next().unwrap();
                for q in it {
                    acc = if ctx.chance(1, 4) { acc.or(&q) } else { acc.or(q) };
                }
                acc
            }
        }
    }
}
