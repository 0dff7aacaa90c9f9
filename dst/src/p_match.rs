//! C01 longest match, C02 ties, C03 interleaved matches, C19 hand-built automata, C20 compiler contract, C21 hash seeds

use std::cmp::Ordering;
use std::fmt::Debug;
use std::rc::Rc;

use concordance::*;

use crate::core::{Ctx, Res};
use crate::env::{fresh_seed, with_hash_seed};
use crate::nfa::{tractable, tractable_nfa, Lazy, Nfa, Table};
use crate::p_tape::at_scale;
use crate::pat::*;
use crate::srcs::*;
use crate::syms::{Sym, Universe};
use crate::{any_universe, ensure, ev, fail, huge_universe, some_universe};

/// Token types: plain numbers, and a type whose order is the reverse of its number
pub trait TokT: Clone + Ord + Debug + 'static {
    fn make(k: u32) -> Self;
    /// Rank: lower compares lower
    fn rank(&self) -> u32;
}
impl TokT for u32 {
    fn make(k: u32) -> u32 {
        k
    }
    fn rank(&self) -> u32 {
        *self
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RevTok(pub u32);
impl PartialOrd for RevTok {
    fn partial_cmp(&self, o: &RevTok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for RevTok {
    fn cmp(&self, o: &RevTok) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl TokT for RevTok {
    fn make(k: u32) -> RevTok {
        RevTok(1000 - k)
    }
    fn rank(&self) -> u32 {
        1000 - self.0
    }
}
impl TokT for String {
    fn make(k: u32) -> String {
        format!("token{:04}", k)
    }
    fn rank(&self) -> u32 {
        self[5..].parse().unwrap()
    }
}

pub fn outcome<'a, O, St>(a: MatchAction<'a, O, St>, rank: &dyn Fn(&O) -> u32) -> Res<Option<(usize, u32)>> {
    match a {
        Accept(n, o) => Ok(Some((n, rank(o)))),
        Reject => Ok(None),
        More(_) => fail!("no-verdict", "a finished match still asks for more"),
    }
}

/// Asking an action whether a token was accepted says the same as looking at it
fn told<'a, St>(a: &MatchAction<'a, u32, St>, verdict: Option<(usize, u32)>) -> Res<()> {
    let token = match *a {
        More(_) => None,
        _ => verdict.map(|v| v.1),
    };
    for t in 0..9 {
        ensure!(
            a.is_accepted(&t) == (token == Some(t)),
            "is-accepted",
            "is_accepted({}) gives {} for {}",
            t,
            a.is_accepted(&t),
            match *a {
                Accept(n, o) => format!("Accept({}, {})", n, o),
                Reject => "Reject".to_string(),
                More(_) => "More".to_string(),
            }
        );
    }
    Ok(())
}

/// Feeds a match by hand until it gives a verdict or the reader reports no symbol
pub fn run_by_hand<'a, S: Ord, O>(dfa: &'a SymbolRangeDfa<S, O>, r: &mut dyn SymbolReader<S>) -> MatchAction<'a, O, SymbolRangeState<'a, S, O>> {
    let mut st = dfa.start();
    loop {
        st = match st {
            More(s) => match r.next_symbol() {
                Some(x) => s.next(x),
                None => return s.finish(),
            },
            done => return done,
        }
    }
}

// ---------------------------------------------------------------------------------------------------------
// C01

pub fn c01(ctx: &Ctx) -> Res<()> {
    match ctx.weighted(&[5000, 3, 1]) {
        0 => any_universe!(ctx, u => c01_on(ctx, &u)),
        1 => huge_universe!(ctx, u => {
            let ast = gen_wide(ctx, u.n()).swap_remove(0).0;
            c01_with(ctx, &u, ast)
        }),
        _ => some_universe!(ctx, u => deep_literal(ctx, &u, &|dfa| {
            if ctx.chance(1, 2) {
                with_hash_seed(fresh_seed(ctx), || DfaCompiler::build(dfa, SymbolRangeDfaBuilder::new()))
            } else {
                dfa
            }
        })),
    }
}

/// A literal so long that its states need more than 16 bits to number, with a prefix of it as another token
pub fn deep_literal<S: Sym>(ctx: &Ctx, u: &Universe<S>, then: &dyn Fn(SymbolRangeDfa<S, u32>) -> SymbolRangeDfa<S, u32>) -> Res<()> {
    ctx.probe("deep-literal");
    let len = 65_530 + ctx.below(5000);
    let short = ctx.range(1, len - 1);
    let (a, b) = (ctx.range(1, 7), ctx.range(0, 3));
    let word: Vec<usize> = (0..len).map(|i| (i / a + b * (i / 256)) % u.n()).collect();
    ev!(ctx, "symbols {} {:?}; literal of {} symbols (i/{} + {}*(i/256)), prefix of {}", u.name, u.syms, len, a, b, short);
    ctx.sample(|| format!("{} literal of {} symbols and a prefix of {}", u.name, len, short));
    let mut tm: TokenMatcher<S, u32> = TokenMatcher::new();
    tm.add_pattern(exactly(&u.conc(&word)), 4);
    tm.add_pattern(Pattern::Match(u.conc(&word[..short])), 2);
    let seed = fresh_seed(ctx);
    let dfa: SymbolRangeDfa<S, u32> = then(with_hash_seed(seed, || (&tm).prepare_to_match()));
    ctx.nontrivial();
    for _ in 0..3 {
        // the whole word, cut short, or with a wrong symbol
        let mut input = word.clone();
        let stop = match ctx.below(3) {
            0 => {
                input.push(0);
                len
            }
            1 => {
                let k = *ctx.pick(&[short - 1, short, short + 1, len - 1, 65_535.min(len), 65_536.min(len)]);
                input.truncate(k);
                k
            }
            _ => {
                let k = ctx.range(0, len - 1);
                input[k] = (input[k] + 1) % u.n();
                k
            }
        };
        let want = if stop == len {
            Some((len, 4))
        } else if stop >= short {
            Some((short, 2))
        } else {
            None
        };
        let mut r = VecReader::from_vec(u.conc(&input));
        let got = match ctx.below(2) {
            0 => outcome(match_pattern(dfa.start(), &mut r), &|o: &u32| *o)?,
            _ => outcome(run_by_hand(&dfa, &mut r), &|o: &u32| *o)?,
        };
        ctx.mix(stop as u64);
        ensure!(got == want, "wrong-length", "literal of {} symbols with the prefix {}: input that follows it for {} symbols gives {:?}, should give {:?}", len, short, stop, got, want);
    }
    Ok(())
}

fn compile_one<S: Sym>(ctx: &Ctx, u: &Universe<S>, ast: &Ast) -> (SymbolRangeDfa<S, u32>, &'static str) {
    let seed = fresh_seed(ctx);
    let pat = build(ctx, u, ast);
    let route = match ast {
        Ast::Lit(_) => ctx.below(5),
        _ => ctx.below(4),
    };
    let dfa = with_hash_seed(seed, || match route {
        4 => match ast {
            Ast::Lit(v) => u.conc(v)[..].to_ndfa(0u32).prepare_to_match(),
            _ => unreachable!(),
        },
        0 => pat.to_ndfa(0u32).prepare_to_match(),
        1 => {
            let p: &dyn ToPattern<S> = &pat;
            p.to_ndfa(0u32).prepare_to_match()
        }
        2 => DfaCompiler::build(pat.to_ndfa(0u32), SymbolRangeDfaBuilder::new()),
        _ => {
            let mut n = Ndfa::new();
            let end = pat.compile(&mut n, 0);
            n.set_output_symbol(end, 0u32);
            n.fix_overlapping_ranges();
            let c = DfaCompiler::new(n, SymbolRangeDfaBuilder::new());
            c.compile()
        }
    });
    (dfa, ["to_ndfa", "dyn-to_ndfa", "compiler", "by-hand", "slice-to_ndfa"][route])
}

/// Matches other token sets, much like the one under test, in between; each must get its own answer too
fn company<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>, toks: &[(Ast, u32)], input: &[usize]) -> Res<()> {
    if toks.len() > 8 || u.n() > 30 || toks.iter().any(|(p, _)| cost(p) > 150) || !ctx.chance(1, 8) {
        return Ok(());
    }
    ctx.probe("other-matchers-in-between");
    for _ in 0..ctx.range(1, 2) {
        let mut others = toks.to_vec();
        let i = ctx.below(others.len());
        others[i].0 = vary(ctx, u.n(), &others[i].0);
        if !tractable(&others, u.n()) {
            continue;
        }
        ev!(ctx, "in between: {:?} on {:?}", others, input);
        let d = prepare_tokens::<S, T>(ctx, u, &others);
        let mut r = VecReader::from_vec(u.conc(input));
        let got = outcome(match_pattern(d.start(), &mut r), &|o: &T| o.rank())?;
        let want = Nfa::of_tokens(&others).run(input).0;
        ensure!(got == want, "wrong-match", "tokens {:?} on {:?}: got {:?}, should be {:?}", others, input, got, want);
    }
    Ok(())
}

fn c01_on<S: Sym>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 2);
    let cfg = GenCfg::draw(ctx, n);
    let ast = if ctx.chance(1, 1500) { gen_big(ctx, n).swap_remove(0).0 } else { gen_bounded(ctx, &cfg, 70) };
    c01_with(ctx, u, ast)
}

fn c01_with<S: Sym>(ctx: &Ctx, u: &Universe<S>, ast: Ast) -> Res<()> {
    let toks = [(ast.clone(), 0u32)];
    let nfa = Nfa::of_tokens(&toks);
    ev!(ctx, "symbols {} {:?}", u.name, u.syms);
    ev!(ctx, "pattern {:?}", ast);
    ctx.sample(|| format!("{} pattern {:?}", u.name, ast));

    let mut dfas = vec![];
    for _ in 0..ctx.range(1, 2) {
        let (d, route) = compile_one(ctx, u, &ast);
        ev!(ctx, "compiled through {}", route);
        let t = Table::of_machine(&d, u, &|o: &u32| *o)?;
        let pairs = t.refines(&nfa, u.n())?;
        ctx.mix(pairs as u64);
        dfas.push(d);
    }

    if u.n() > 30 {
        first_symbols(ctx, u, &nfa, &dfas[0], &|o: &u32| *o)?;
    }
    if at_scale(ctx) {
        c01_long(ctx, u, &ast)?;
    }

    for _ in 0..ctx.range(1, 5) {
        let input = gen_input(ctx, &[&ast], u.n(), *ctx.pick(&[12, 30, 120]));
        let syms = u.conc(&input);
        let (base, k, mut desc) = {
            let (b, k, d) = base_reader(ctx, &syms);
            (b, k, d.to_string())
        };
        let layers = ctx.below(3);
        let mut reader = stack(ctx, base, layers, &mut desc);
        let want = longest(&ast, &input[..k]);
        let (model2, _) = nfa.run(&input[..k]);
        if want != model2.map(|m| m.0) {
            panic!("the two reference models disagree: {:?} {:?} on {:?} {:?}", want, model2, ast, &input[..k]);
        }
        company::<S, u32>(ctx, u, &toks, &input)?;
        let dfa = ctx.pick(&dfas);
        let entry = ctx.below(7);
        let got = match entry {
            0 => match outcome(match_pattern(dfa.start(), &mut reader), &|o: &u32| *o)? {
                Some((l, _)) => Some(l),
                None => None,
            },
            1 => outcome(run_by_hand(dfa, &mut reader), &|o: &u32| *o)?.map(|x| x.0),
            2 => matches_prepared(Src(reader), dfa),
            3 => matches(Src(reader), dfa.clone()),
            4 => {
                let p = build(ctx, u, &ast);
                let seed = fresh_seed(ctx);
                with_hash_seed(seed, || matches(Src(reader), p))
            }
            5 => {
                let p = build(ctx, u, &ast);
                let d: &dyn ToPattern<S> = &p;
                matches(Src(reader), d)
            }
            _ => {
                desc = "vec".into();
                let p = build(ctx, u, &ast);
                let cut = syms[..k].to_vec();
                if ctx.chance(1, 2) {
                    matches(&cut, p)
                } else {
                    let d: SymbolRangeDfa<S, ()> = p.prepare_to_match();
                    matches_prepared(&cut, &d)
                }
            }
        };
        ev!(ctx, "entry {} reader {} input {:?} delivered {} -> {:?}", entry, desc, input, k, got);
        ctx.mix(got.map(|g| g as u64 + 1).unwrap_or(0) ^ (entry as u64) << 32);
        if want.map_or(false, |w| w > 0) && k > 0 {
            ctx.nontrivial();
        }
        ensure!(
            got == want,
            "wrong-length",
            "pattern {:?} on symbols {:?} (delivered {:?}) through {} entry {}: got {:?}, longest match is {:?}",
            ast,
            u.conc(&input),
            u.conc(&input[..k]),
            desc,
            entry,
            got,
            want
        );
        // characters: a plain string as the pattern and as the source
        if let Some(s) = same::<Vec<S>, Vec<char>>(syms[..k].to_vec()) {
            let s: String = s.into_iter().collect();
            if let Some(p) = same::<Pattern<S>, Pattern<char>>(build(ctx, u, &ast)) {
                let got = matches(&s[..], p);
                ensure!(got == want, "wrong-length", "string source {:?}: got {:?}, longest match is {:?}", s, got, want);
            }
            if let Ast::Lit(v) = &ast {
                if let Some(lit) = same::<Vec<S>, Vec<char>>(u.conc(v)) {
                    let lit: String = lit.into_iter().collect();
                    let got = match ctx.below(3) {
                        0 => matches(&s[..], &lit[..]),
                        1 => matches(&s[..], (&lit[..]).into_pattern()),
                        _ => {
                            let d: SymbolRangeDfa<char, u32> = with_hash_seed(fresh_seed(ctx), || lit[..].to_ndfa(7u32).prepare_to_match());
                            matches_prepared(&s[..], &d)
                        }
                    };
                    ensure!(got == want, "wrong-length", "string pattern {:?} on {:?}: got {:?}, want {:?}", lit, s, got, want);
                }
            }
        }
    }
    Ok(())
}

/// Inputs that begin with each symbol there is
fn first_symbols<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>, nfa: &Nfa, dfa: &SymbolRangeDfa<S, T>, rank: &dyn Fn(&T) -> u32) -> Res<()> {
    let mut lazy = Lazy::new(nfa);
    for x in 0..u.n() {
        let input = vec![x, ctx.below(u.n())];
        let want = lazy.run(&input).0;
        let mut r = VecReader::from_vec(u.conc(&input));
        let got = outcome(match_pattern(dfa.start(), &mut r), rank)?;
        ensure!(got == want, "wrong-length", "input {:?} (#{:?}): got {:?}, the longest match is {:?}", u.conc(&input), input, got, want);
    }
    Ok(())
}

/// A match longer than any counter narrower than 32 bits
fn c01_long<S: Sym>(ctx: &Ctx, u: &Universe<S>, ast: &Ast) -> Res<()> {
    let ast = Ast::RepInf(1, Box::new(Ast::Alt(vec![ast.clone(), Ast::Lit(vec![0, 1])])));
    let toks = [(ast.clone(), 0u32)];
    if !tractable(&toks, u.n()) {
        return Ok(());
    }
    let nfa = Nfa::of_tokens(&toks);
    let mut lazy = Lazy::new(&nfa);
    let len = *ctx.pick(&[300, 5000, 66000, 140000]);
    let mut chunk = vec![];
    while chunk.len() < 50 {
        match gen_string(ctx, &ast, 60) {
            Some(s) => chunk.extend(s),
            None => return Ok(()),
        }
        chunk.extend([0, 1]);
    }
    let mut input = vec![];
    while input.len() < len {
        input.extend(chunk.iter().cloned());
    }
    input.extend(gen_input(ctx, &[&ast], u.n(), 20));
    let want = lazy.run(&input).0.map(|w| w.0);
    let (dfa, _) = compile_one(ctx, u, &ast);
    let syms = u.conc(&input);
    let entry = ctx.below(4);
    let got = match entry {
        0 => outcome(match_pattern(dfa.start(), &mut VecReader::from_vec(syms)), &|o: &u32| *o)?.map(|x| x.0),
        1 => outcome(run_by_hand(&dfa, &mut VecReader::from_vec(syms)), &|o: &u32| *o)?.map(|x| x.0),
        2 => matches_prepared(&syms, &dfa),
        _ => matches(&syms, dfa),
    };
    ctx.mix(got.unwrap_or(0) as u64);
    ensure!(got == want, "wrong-length", "pattern {:?} on {} symbols through entry {}: got {:?}, longest match is {:?}", ast, input.len(), entry, got, want);
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------
// C02

/// A set of token patterns that overlap a good deal
pub fn gen_tokens(ctx: &Ctx, n: usize, maxk: usize, limit: usize) -> Vec<(Ast, u32)> {
    if ctx.chance(1, if ctx.thorough() { 2000 } else { 900 }) {
        return gen_big(ctx, n);
    }
    if n > 30 {
        return gen_wide(ctx, n);
    }
    gen_small_tokens(ctx, n, maxk, limit)
}

pub fn gen_small_tokens(ctx: &Ctx, n: usize, maxk: usize, limit: usize) -> Vec<(Ast, u32)> {
    for _ in 0..6 {
        let cfg = GenCfg::draw(ctx, n);
        let k = ctx.range(1, maxk);
        let mut v: Vec<(Ast, u32)> = vec![];
        for _ in 0..k {
            let tok = match ctx.weighted(&[4, 1]) {
                0 => ctx.below(8) as u32,
                _ => 3,
            };
            let ast = if !v.is_empty() && ctx.chance(1, 4) {
                // the same pattern again, or a variation of it
                let old = ctx.pick(&v).0.clone();
                match ctx.weighted(&[3, 2, 2, 2]) {
                    0 => old,
                    1 => Ast::Alt(vec![old, gen_ast(ctx, &cfg, 1)]),
                    2 => Ast::Seq(vec![old, gen_ast(ctx, &cfg, 1)]),
                    _ => Ast::RepInf(1, Box::new(old)),
                }
            } else {
                gen_bounded(ctx, &cfg, 40)
            };
            v.push((ast, tok));
        }
        if v.iter().map(|(p, _)| cost(p)).sum::<usize>() <= limit && tractable(&v, n) {
            return v;
        }
    }
    vec![(Ast::Lit(vec![0]), 1), (Ast::Lit(vec![0, 1.min(n - 1)]), 0)]
}

pub fn prepare_tokens<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>, toks: &[(Ast, u32)]) -> SymbolRangeDfa<S, T> {
    let mut order: Vec<usize> = (0..toks.len()).collect();
    shuffle(ctx, &mut order);
    let mut tm: TokenMatcher<S, T> = TokenMatcher::new();
    for i in order {
        let p = build(ctx, u, &toks[i].0);
        if ctx.chance(1, 4) {
            tm.add_pattern(Box::new(p), T::make(toks[i].1));
        } else {
            tm.add_pattern(p, T::make(toks[i].1));
        }
    }
    let seed = fresh_seed(ctx);
    let route = ctx.below(3);
    with_hash_seed(seed, || match route {
        0 => (&tm).prepare_to_match(),
        1 => tm.to_ndfa().prepare_to_match(),
        _ => DfaCompiler::build(tm.to_ndfa(), SymbolRangeDfaBuilder::new()),
    })
}

pub fn shuffle<T>(ctx: &Ctx, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        // drawn so that the simplest choice keeps the order
        let j = i - ctx.below(i + 1);
        v.swap(i, j);
    }
}

pub fn c02(ctx: &Ctx) -> Res<()> {
    if ctx.chance(1, 2000) {
        return huge_universe!(ctx, u => {
            let toks = gen_wide(ctx, u.n());
            c02_with::<_, RevTok>(ctx, &u, toks)
        });
    }
    match ctx.below(3) {
        0 => some_universe!(ctx, u => c02_on::<_, u32>(ctx, &u)),
        1 => some_universe!(ctx, u => c02_on::<_, RevTok>(ctx, &u)),
        _ => some_universe!(ctx, u => c02_on::<_, String>(ctx, &u)),
    }
}

fn c02_on<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 2);
    let toks = gen_tokens(ctx, n, 6, 160);
    c02_with::<S, T>(ctx, u, toks)
}

fn c02_with<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>, toks: Vec<(Ast, u32)>) -> Res<()> {
    let nfa = Nfa::of_tokens(&toks);
    ev!(ctx, "symbols {} {:?}", u.name, u.syms);
    ev!(ctx, "tokens {:?}", toks);
    ctx.sample(|| format!("{} tokens {:?}", u.name, toks));
    let mut dfas: Vec<SymbolRangeDfa<S, T>> = vec![];
    for _ in 0..ctx.range(1, 3) {
        let d = prepare_tokens::<S, T>(ctx, u, &toks);
        let t = Table::of_machine(&d, u, &|o: &T| o.rank())?;
        let pairs = t.refines(&nfa, u.n())?;
        ctx.mix(pairs as u64);
        dfas.push(d);
    }
    if toks.len() < 40 && ctx.chance(1, 4) {
        dfas.push(c02_grown(ctx, u, &toks)?);
    }
    if u.n() > 30 {
        first_symbols(ctx, u, &nfa, &dfas[0], &|o: &T| o.rank())?;
    }
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
    for _ in 0..ctx.range(1, 5) {
        let input = gen_input(ctx, &asts, u.n(), *ctx.pick(&[10, 30, 80]));
        let syms = u.conc(&input);
        let (base, k, d) = base_reader(ctx, &syms);
        let mut desc = d.to_string();
        let layers = ctx.below(2);
        let mut reader = stack(ctx, base, layers, &mut desc);
        let (want, _) = nfa.run(&input[..k]);
        // how many tokens match that longest string
        if let Some((len, _)) = want {
            let ties = toks.iter().filter(|(p, _)| longest(p, &input[..k]) == Some(len)).map(|(_, t)| *t).collect::<std::collections::BTreeSet<u32>>().len();
            if ties > 1 {
                ctx.nontrivial();
                ctx.probe(if len == 0 { "tie-on-empty" } else { "tie" });
            }
        }
        // the definition, pattern by pattern
        let mut direct: Option<(usize, u32)> = None;
        for (p, t) in &toks {
            if let Some(l) = longest(p, &input[..k]) {
                direct = match direct {
                    Some((bl, bt)) if bl > l || (bl == l && bt <= *t) => Some((bl, bt)),
                    _ => Some((l, *t)),
                };
            }
        }
        if direct != want {
            panic!("the two reference models disagree: {:?} {:?} on {:?} {:?}", direct, want, toks, &input[..k]);
        }
        if !toks.is_empty() {
            company::<S, T>(ctx, u, &toks, &input)?;
        }
        let dfa = ctx.pick(&dfas);
        let got = match ctx.below(3) {
            0 => outcome(match_pattern(dfa.start(), &mut reader), &|o: &T| o.rank())?,
            1 => outcome(run_by_hand(dfa, &mut reader), &|o: &T| o.rank())?,
            _ => {
                let mut t = Tokenizer::new_prepared(reader, dfa);
                let r = t.next_token().map(|(r, o)| (r.end - r.start, o.rank()));
                match (r, want) {
                    // the tokenizer treats an empty match as none
                    (None, Some((0, x))) => Some((0, x)),
                    (r, _) => r,
                }
            }
        };
        ev!(ctx, "reader {} input {:?} delivered {} -> {:?}", desc, input, k, got);
        ctx.mix(got.map(|(l, t)| l as u64 * 100 + t as u64 + 1).unwrap_or(0));
        ensure!(
            got == want,
            "wrong-token",
            "tokens {:?} on {:?}: got {:?}, want {:?} (length, token rank)",
            toks,
            u.conc(&input[..k]),
            got,
            want
        );
    }
    Ok(())
}

/// One token set, prepared again and again as patterns are added to it
fn c02_grown<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>, toks: &[(Ast, u32)]) -> Res<SymbolRangeDfa<S, T>> {
    ctx.probe("token-set-prepared-while-it-grows");
    let mut order: Vec<usize> = (0..toks.len()).collect();
    shuffle(ctx, &mut order);
    let mut tm: TokenMatcher<S, T> = TokenMatcher::new();
    let mut added: Vec<(Ast, u32)> = vec![];
    let mut prepared: Vec<(SymbolRangeDfa<S, T>, usize)> = vec![];
    if ctx.chance(1, 4) {
        // a set without patterns matches nothing
        prepared.push(((&tm).prepare_to_match(), 0));
    }
    for (i, k) in order.iter().enumerate() {
        tm.add_pattern(build(ctx, u, &toks[*k].0), T::make(toks[*k].1));
        added.push(toks[*k].clone());
        let last = i + 1 == order.len();
        if last || ctx.chance(1, 2) {
            let seed = fresh_seed(ctx);
            let machine = ctx.chance(1, 2);
            let d = with_hash_seed(seed, || if machine { tm.to_ndfa().prepare_to_match() } else { (&tm).prepare_to_match() });
            ev!(ctx, "prepared after {} patterns", added.len());
            prepared.push((d, added.len()));
        }
    }
    for (d, k) in &prepared {
        let t = Table::of_machine(d, u, &|o: &T| o.rank())?;
        t.refines(&Nfa::of_tokens(&added[..*k]), u.n())?;
    }
    Ok(prepared.pop().unwrap().0)
}

// ---------------------------------------------------------------------------------------------------------
// C03

pub fn c03(ctx: &Ctx) -> Res<()> {
    if at_scale(ctx) {
        return some_universe!(ctx, u => c03_long(ctx, &u));
    }
    if ctx.chance(1, 4000) {
        return huge_universe!(ctx, u => c03_on(ctx, &u));
    }
    some_universe!(ctx, u => c03_on(ctx, &u))
}

fn c03_on<S: Sym>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 2);
    let toks = gen_tokens(ctx, n, 5, 140);
    let nfa = Nfa::of_tokens(&toks);
    let mut lazy = Lazy::new(&nfa);
    let dfa = prepare_tokens::<S, u32>(ctx, u, &toks);
    ev!(ctx, "tokens {:?}", toks);
    ctx.sample(|| format!("{} tokens {:?}", u.name, toks));
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();

    struct Run<'a, S: Ord + 'a> {
        id: usize,
        st: Option<MatchAction<'a, u32, SymbolRangeState<'a, S, u32>>>,
        fed: Vec<usize>,
        plan: Vec<usize>,
    }
    let rank = |o: &u32| *o;
    let mut live: Vec<Run<S>> = vec![];
    let mut next_id = 0;
    let mut verdicts = 0;
    let mut forks = 0;
    let w = ctx.swarm([4, 20, 3, 1, 3]);
    let big = toks.len() > 50 || asts.iter().any(|p| cost(p) > 150);
    let steps = ctx.range(10, if big { 3000 } else { 120 });
    for step in 0..steps + 40 {
        let closing = step >= steps;
        if closing && live.is_empty() {
            break;
        }
        let op = if closing { 4 } else { ctx.weighted(&w) };
        match op {
            0 => {
                if live.len() < 8 {
                    let plan = gen_input(ctx, &asts, u.n(), 20);
                    ev!(ctx, "start #{} plan {:?}", next_id, plan);
                    let st = dfa.start();
                    told(&st, None)?;
                    next_id += 1;
                    if let More(_) = st {
                        live.push(Run { id: next_id - 1, st: Some(st), fed: vec![], plan });
                        continue;
                    }
                    // a verdict at once is right only if no input makes a difference
                    let got = outcome(st, &rank)?;
                    let want = lazy.run(&[]).0;
                    ensure!(
                        got == want && !can_still_accept(&mut lazy, &[], u.n()),
                        "early-verdict",
                        "a match of tokens {:?} gave the verdict {:?} before any input",
                        toks,
                        got
                    );
                }
            }
            1 => {
                if live.is_empty() {
                    continue;
                }
                let i = ctx.below(live.len());
                let r = &mut live[i];
                let x = if r.fed.len() < r.plan.len() { r.plan[r.fed.len()] } else { ctx.below(u.n()) };
                r.fed.push(x);
                let st = match r.st.take() {
                    Some(More(s)) => s,
                    _ => fail!("harness", "no state"),
                };
                let next = st.next(u.syms[x].clone());
                ctx.mix(x as u64 + 10 * r.id as u64);
                told(&next, lazy.run(&r.fed).0)?;
                match next {
                    More(s) => {
                        ev!(ctx, "feed #{} {} -> more", r.id, x);
                        r.st = Some(More(s))
                    }
                    done => {
                        let got = outcome(done, &rank)?;
                        let (want, _) = lazy.run(&r.fed);
                        ev!(ctx, "feed #{} {} -> verdict {:?}", r.id, x, got);
                        ensure!(
                            got == want,
                            "wrong-verdict",
                            "match #{} fed {:?} of tokens {:?}: verdict {:?}, alone it would be {:?}",
                            r.id,
                            r.fed,
                            toks,
                            got,
                            want
                        );
                        ensure!(
                            !can_still_accept(&mut lazy, &r.fed, u.n()),
                            "early-verdict",
                            "match #{} fed {:?} of tokens {:?} gave its verdict {:?} although more input could change it",
                            r.id,
                            r.fed,
                            toks,
                            got
                        );
                        verdicts += 1;
                        live.remove(i);
                    }
                }
            }
            2 => {
                if live.is_empty() || live.len() >= 10 {
                    continue;
                }
                let i = ctx.below(live.len());
                let st = match &live[i].st {
                    Some(More(s)) => s.clone(),
                    _ => fail!("harness", "no state"),
                };
                let plan = if ctx.chance(1, 2) {
                    live[i].plan.clone()
                } else {
                    let mut p = live[i].fed.clone();
                    p.extend(gen_input(ctx, &asts, u.n(), 10));
                    p
                };
                ev!(ctx, "fork #{} as #{} after {} plan {:?}", live[i].id, next_id, live[i].fed.len(), plan);
                let fed = live[i].fed.clone();
                live.push(Run { id: next_id, st: Some(More(st)), fed, plan });
                next_id += 1;
                forks += 1;
                ctx.fault("match-forked");
            }
            3 => {
                if !live.is_empty() {
                    let i = ctx.below(live.len());
                    ev!(ctx, "abandon #{}", live[i].id);
                    live.remove(i);
                    ctx.fault("match-abandoned");
                }
            }
            _ => {
                if live.is_empty() {
                    continue;
                }
                let i = ctx.below(live.len());
                let r = live.remove(i);
                let st = match r.st {
                    Some(More(s)) => s,
                    _ => fail!("harness", "no state"),
                };
                let end = st.finish();
                let (want, _) = lazy.run(&r.fed);
                told(&end, want)?;
                let got = outcome(end, &rank)?;
                ev!(ctx, "finish #{} -> {:?}", r.id, got);
                ctx.mix(got.map(|(l, t)| l as u64 * 100 + t as u64 + 1).unwrap_or(0));
                ensure!(
                    got == want,
                    "wrong-verdict",
                    "match #{} fed {:?} of tokens {:?}: finished as {:?}, alone it would be {:?}",
                    r.id,
                    r.fed,
                    toks,
                    got,
                    want
                );
                verdicts += 1;
            }
        }
        if live.len() > 1 && forks > 0 && verdicts > 0 {
            ctx.nontrivial();
        }
    }
    Ok(())
}

/// A few matches at once, each fed tens of thousands of symbols, with copies made along the way
fn c03_long<S: Sym>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 2);
    let cfg = GenCfg::draw(ctx, n);
    let inner = gen_bounded(ctx, &cfg, 30);
    let mut toks = vec![(Ast::RepInf(1, Box::new(Ast::Alt(vec![inner.clone(), Ast::Lit(vec![0, 1]), Ast::Lit(vec![0])]))), 1)];
    toks.push((inner, 0));
    if !tractable(&toks, u.n()) {
        return Ok(());
    }
    let nfa = Nfa::of_tokens(&toks);
    let mut lazy = Lazy::new(&nfa);
    let dfa = prepare_tokens::<S, u32>(ctx, u, &toks);
    ev!(ctx, "tokens {:?}", toks);
    ctx.sample(|| format!("{} long matches of {:?}", u.name, toks));
    let mut chunk = vec![];
    for _ in 0..300 {
        if chunk.len() >= 40 {
            break;
        }
        match gen_string(ctx, &toks[0].0, 60) {
            Some(s) => chunk.extend(s),
            None => return Ok(()),
        }
    }
    let total = *ctx.pick(&[400, 1500, 5000, 66_500, 66_500, 140_000]);
    // what each live match has been fed: the longest accepted so far and where it stands are kept up as it goes
    struct Run<'a, S: Ord + 'a> {
        st: SymbolRangeState<'a, S, u32>,
        fed: usize,
        at: usize,
        best: Option<(usize, u32)>,
    }
    let rank = |o: &u32| *o;
    let mut live: Vec<Run<S>> = vec![];
    for _ in 0..2 {
        match dfa.start() {
            More(st) => live.push(Run { st, fed: 0, at: 0, best: lazy.out(0).map(|o| (0, o)) }),
            _ => fail!("early-verdict", "tokens {:?} gave a verdict before any input", toks),
        }
    }
    let mut done = 0;
    while let Some(i) = if live.is_empty() { None } else { Some(ctx.below(live.len())) } {
        // a burst of one match
        let burst = ctx.range(1, total / 2);
        let Run { st, mut fed, mut at, mut best } = live.swap_remove(i);
        let mut st = Some(st);
        let mut ended = None;
        for _ in 0..burst {
            if fed >= total {
                break;
            }
            let x = if ctx.thorough() && fed > 0 && fed % 50_021 == 0 { u.n() - 1 } else { chunk[fed % chunk.len()] };
            let next = st.take().unwrap().next(u.syms[x].clone());
            fed += 1;
            let to = lazy.step(at, x);
            if let Some(t) = to {
                at = t;
                if let Some(o) = lazy.out(t) {
                    best = Some((fed, o));
                }
            }
            match next {
                More(s) => st = Some(s),
                v => {
                    let got = outcome(v, &rank)?;
                    ensure!(got == best, "wrong-verdict", "after {} symbols of a long input the verdict is {:?}, should be {:?}", fed, got, best);
                    ensure!(to.is_none() || !more_from(&mut lazy, at, u.n()), "early-verdict", "after {} symbols of a long input the verdict {:?} came although more input could change it", fed, got);
                    ended = Some(got);
                    break;
                }
            }
            if to.is_none() {
                // no longer input can match: it is up to the matcher when to say so
                break;
            }
        }
        ev!(ctx, "one match has {} symbols, best {:?}, {}", fed, best, if ended.is_some() { "verdict" } else { "more" });
        ctx.mix(fed as u64);
        let st = match st {
            None => {
                done += 1;
                continue;
            }
            Some(st) => st,
        };
        if live.len() < 3 && ctx.chance(1, 3) {
            live.push(Run { st: st.clone(), fed, at, best });
            ctx.fault("match-forked");
        }
        if fed >= total || ctx.chance(1, 8) {
            let got = outcome(st.finish(), &rank)?;
            ensure!(got == best, "wrong-verdict", "a match finished after {} symbols gives {:?}, should give {:?}", fed, got, best);
            done += 1;
        } else if done < 12 {
            live.push(Run { st, fed, at, best });
        } else {
            break;
        }
    }
    if done > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

fn more_from(lazy: &mut Lazy, at: usize, n: usize) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![at];
    while let Some(s) = todo.pop() {
        for x in 0..n {
            if let Some(t) = lazy.step(s, x) {
                if lazy.out(t).is_some() {
                    return true;
                }
                if seen.insert(t) {
                    todo.push(t);
                }
            }
        }
    }
    false
}

/// Whether some longer input than `fed` is accepted
fn can_still_accept(lazy: &mut Lazy, fed: &[usize], n: usize) -> bool {
    let mut at = 0;
    for x in fed {
        match lazy.step(at, *x) {
            None => return false,
            Some(t) => at = t,
        }
    }
    more_from(lazy, at, n)
}

// ---------------------------------------------------------------------------------------------------------
// C19: hand-built automata

#[derive(Clone, Debug)]
pub enum Op {
    Trans(u32, usize, usize, u32),
    Create(u32),
    Join(u32, u32),
    Out(u32, u32),
}

/// A pattern compiled onto a hand-built machine: from a new state that `from` is joined to, to an end that gets an
/// output or is joined to a state
#[derive(Clone, Debug)]
pub struct Graft {
    from: u32,
    ast: Ast,
    out: Option<u32>,
    to: Option<u32>,
}

/// A machine whose joins form long chains, trees and rings
fn gen_joined_machine(ctx: &Ctx, n: usize, single: bool) -> Vec<Op> {
    ctx.probe("long-join-chain");
    let k = *ctx.pick(&[18u32, 40, 70, 130, 270]) + ctx.below(10) as u32;
    let shape = ctx.below(4);
    let mut ops = vec![];
    for i in 1..k {
        let (a, b) = match shape {
            0 => (i - 1, i),
            1 => ((i - 1) / 2, i),
            2 => (0, i),
            _ => (if ctx.chance(1, 5) { ctx.below(i as usize) as u32 } else { i - 1 }, i),
        };
        ops.push(Op::Join(a, b));
    }
    if ctx.chance(1, 3) {
        ops.push(Op::Join(k - 1, 0));
    }
    // what can be reached through the joins is towards their far end
    for _ in 0..ctx.range(2, 12) {
        let a = if ctx.chance(1, 2) { k - 1 - ctx.below(3) as u32 } else { ctx.below(k as usize) as u32 };
        let lo = ctx.below(n);
        let hi = if single || ctx.chance(1, 2) { lo } else { ctx.range(lo, n - 1) };
        ops.push(Op::Trans(a, lo, hi, ctx.below(k as usize + 3) as u32));
    }
    let mut has = std::collections::BTreeSet::new();
    for _ in 0..ctx.range(1, 3) {
        let s = if ctx.chance(1, 2) { k - 1 - ctx.below(3) as u32 } else { ctx.below(k as usize + 3) as u32 };
        if has.insert(s) {
            ops.push(Op::Out(s, ctx.below(6) as u32));
        }
    }
    ops
}

/// A machine with states that have transitions on hundreds of symbols, to hundreds of states
fn gen_wide_machine(ctx: &Ctx, n: usize, single: bool) -> Vec<Op> {
    ctx.probe("wide-machine");
    let k = ctx.range(10, n) as u32;
    let hubs: Vec<u32> = (0..ctx.range(1, 3)).map(|i| if i == 0 { 0 } else { ctx.below(k as usize) as u32 }).collect();
    let step = ctx.range(1, 3);
    let mut ops = vec![];
    let mut at = ctx.below(step + 1);
    while at < n {
        let end = if single || ctx.chance(2, 3) { at } else { (at + ctx.below(step + 1)).min(n - 1) };
        if !ctx.chance(1, 15) {
            ops.push(Op::Trans(*ctx.pick(&hubs), at, end, (at as u32 * 7 + 1) % k));
        }
        at += step;
    }
    if !single {
        for _ in 0..ctx.below(4) {
            let lo = ctx.below(n);
            ops.push(Op::Trans(*ctx.pick(&hubs), lo, ctx.range(lo, n - 1), ctx.below(k as usize) as u32));
        }
    }
    for _ in 0..ctx.below(4) {
        let lo = ctx.below(n);
        ops.push(Op::Trans(ctx.below(k as usize) as u32, lo, lo, ctx.below(k as usize) as u32));
    }
    for _ in 0..ctx.below(4) {
        ops.push(Op::Join(ctx.below(k as usize) as u32, if ctx.chance(1, 3) { *ctx.pick(&hubs) } else { ctx.below(k as usize) as u32 }));
    }
    let mut has = std::collections::BTreeSet::new();
    let often = ctx.range(1, 9) as u64;
    for s in 0..k {
        if ctx.chance(1, often) && has.insert(s) {
            ops.push(Op::Out(s, ctx.below(6) as u32));
        }
    }
    ops
}

pub fn gen_machine(ctx: &Ctx, n: usize, single: bool) -> Vec<Op> {
    if ctx.chance(1, if ctx.thorough() { 3000 } else { 1000 }) {
        return gen_joined_machine(ctx, n, single);
    }
    if n > 30 {
        return gen_wide_machine(ctx, n, single);
    }
    let states = ctx.range(1, 9) as u32;
    // some machines use widely spaced state numbers
    let spread = match ctx.weighted(&[250, 50, 2]) {
        0 => 1,
        1 => ctx.range(2, 9) as u32,
        _ => *ctx.pick(&[64, 255, 256, 300, 9000]),
    };
    let st = |ctx: &Ctx| ctx.below(states as usize) as u32 * spread;
    let mut ops = vec![];
    for _ in 0..ctx.range(1, 14) {
        let lo = ctx.below(n);
        let hi = if single || ctx.chance(1, 2) { lo } else { ctx.range(lo, n - 1) };
        ops.push(Op::Trans(st(ctx), lo, hi, st(ctx)));
    }
    let joins = ctx.weighted(&[2, 3, 3, 2, 2, 1, 1]) as u32;
    for _ in 0..joins {
        if ctx.chance(1, 4) {
            // a chain or a ring
            let len = ctx.range(2, 4);
            let mut cur = st(ctx);
            let first = cur;
            for _ in 0..len {
                let nx = st(ctx);
                ops.push(Op::Join(cur, nx));
                cur = nx;
            }
            if ctx.chance(1, 2) {
                ops.push(Op::Join(cur, first));
            }
        } else {
            ops.push(Op::Join(st(ctx), st(ctx)));
        }
    }
    let mut has = std::collections::BTreeSet::new();
    for _ in 0..ctx.range(1, 5) {
        let s = st(ctx);
        if has.insert(s) {
            ops.push(Op::Out(s, ctx.below(6) as u32));
        }
    }
    if ctx.chance(1, 3) {
        ops.push(Op::Create(st(ctx) + ctx.below(4) as u32));
    }
    ops
}

pub fn top_of(ops: &[Op]) -> u32 {
    ops.iter()
        .map(|o| match o {
            Op::Trans(a, _, _, b) => *a.max(b),
            Op::Create(a) => *a,
            Op::Join(a, b) => *a.max(b),
            Op::Out(a, _) => *a,
        })
        .max()
        .unwrap_or(0)
}

pub fn model_of(ops: &[Op]) -> Nfa {
    let mut m = Nfa::default();
    for _ in 0..=top_of(ops) {
        m.add();
    }
    for o in ops {
        match o {
            Op::Trans(a, lo, hi, b) => m.edges[*a as usize].push((*lo, *hi, *b as usize)),
            Op::Join(a, b) => m.eps[*a as usize].push(*b as usize),
            Op::Out(a, t) => m.out[*a as usize] = Some(*t),
            Op::Create(_) => {}
        }
    }
    m
}

pub fn apply<S: Sym, T: TokT>(m: &mut dyn MutableStateMachine<SymbolRange<S>, T>, u: &Universe<S>, op: &Op) {
    match op {
        Op::Trans(a, lo, hi, b) => m.add_transition(*a, SymbolRange::new(u.syms[*lo].clone(), u.syms[*hi].clone()), *b),
        Op::Create(a) => m.create_state(*a),
        Op::Join(a, b) => m.join_states(*a, *b),
        Op::Out(a, t) => m.set_output_symbol(*a, T::make(*t)),
    }
}

pub fn c19(ctx: &Ctx) -> Res<()> {
    if ctx.chance(1, 6000) {
        return huge_universe!(ctx, u => c19_on::<_, u32>(ctx, &u));
    }
    if ctx.chance(1, 4) {
        some_universe!(ctx, u => c19_on::<_, RevTok>(ctx, &u))
    } else {
        any_universe!(ctx, u => c19_on::<_, u32>(ctx, &u))
    }
}

fn c19_on<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 1);
    let single = ctx.chance(1, 4);
    let mut ops = gen_machine(ctx, n, single);
    let mut nfa = model_of(&ops);
    let top = top_of(&ops);
    let mut grafts: Vec<Graft> = vec![];
    if !single && ctx.chance(1, 4) {
        for _ in 0..ctx.range(1, 2) {
            let cfg = GenCfg::draw(ctx, n);
            let g = Graft {
                from: ctx.below(top as usize + 1) as u32,
                ast: gen_bounded(ctx, &cfg, 25),
                out: if ctx.chance(2, 3) { Some(ctx.below(6) as u32) } else { None },
                to: if ctx.chance(1, 2) { Some(ctx.below(top as usize + 1) as u32) } else { None },
            };
            let (a, b) = nfa.frag(&g.ast);
            nfa.eps[g.from as usize].push(a);
            let e = nfa.add();
            nfa.eps[b].push(e);
            nfa.out[e] = g.out;
            if let Some(t) = g.to {
                nfa.eps[e].push(t as usize);
            }
            grafts.push(g);
        }
        ctx.probe("pattern-compiled-onto-a-machine");
    }
    if !tractable_nfa(&nfa, n, if n > 30 { 1200 } else { 200 }) {
        return Ok(());
    }
    ctx.sample(|| format!("{} machine {:?} {:?}", u.name, ops, grafts));
    for _ in 0..ctx.range(1, 3) {
        shuffle(ctx, &mut ops);
        ev!(ctx, "build {:?} {:?}", ops, grafts);
        let pats: Vec<Pattern<S>> = grafts.iter().map(|g| build(ctx, u, &g.ast)).collect();
        let seed = fresh_seed(ctx);
        let fix_mid: Vec<bool> = ops.iter().map(|_| ctx.chance(1, 12)).collect();
        let skip_fix = single && ctx.chance(1, 2);
        let route = ctx.below(4);
        let built: Result<SymbolRangeDfa<S, T>, u32> = with_hash_seed(seed, || {
            let mut m: Ndfa<SymbolRange<S>, T> = Ndfa::new();
            for (o, f) in ops.iter().zip(fix_mid.iter()) {
                apply(&mut m, u, o);
                if *f {
                    m.fix_overlapping_ranges();
                }
            }
            // every state mentioned is counted
            if m.count_states() <= top {
                return Err(m.count_states());
            }
            for (g, p) in grafts.iter().zip(pats.iter()) {
                let q = m.count_states();
                m.create_state(q);
                m.join_states(g.from, q);
                let end = p.compile(&mut m, q);
                if m.count_states() <= end || m.count_states() <= q {
                    return Err(m.count_states());
                }
                let e = m.count_states();
                m.create_state(e);
                m.join_states(end, e);
                if let Some(t) = g.out {
                    m.set_output_symbol(e, T::make(t));
                }
                if let Some(t) = g.to {
                    m.join_states(e, t);
                }
            }
            if !skip_fix {
                m.fix_overlapping_ranges();
            }
            Ok(match route {
                0 => DfaCompiler::build(m, SymbolRangeDfaBuilder::new()),
                1 => {
                    let b: Box<dyn StateMachine<SymbolRange<S>, T>> = Box::new(m);
                    b.prepare_to_match()
                }
                2 => {
                    let r: Rc<dyn StateMachine<SymbolRange<S>, T>> = Rc::new(m);
                    DfaCompiler::build(r, SymbolRangeDfaBuilder::new())
                }
                _ => DfaCompiler::build(m.clone(), SymbolRangeDfaBuilder::new()),
            })
        });
        let dfa = match built {
            Ok(d) => d,
            Err(c) => fail!("lost-states", "machine {:?} {:?}: {} states are counted, state {} was mentioned", ops, grafts, c, top),
        };
        ctx.mix(seed);
        let t = Table::of_machine(&dfa, u, &|o: &T| o.rank())?;
        let pairs = t.refines(&nfa, u.n())?;
        ctx.mix(pairs as u64);
        if pairs > 2 && ops.iter().any(|o| matches!(o, Op::Join(_, _))) {
            ctx.nontrivial();
        }
        for _ in 0..ctx.range(1, 4) {
            let len = ctx.size(4, 12, 40);
            let input = random_walk(ctx, &nfa, n, u.n(), len);
            let (want, _) = nfa.run(&input);
            let mut r = VecReader::from_vec(u.conc(&input));
            let got = outcome(match_pattern(dfa.start(), &mut r), &|o: &T| o.rank())?;
            ev!(ctx, "input {:?} -> {:?}", input, got);
            ensure!(got == want, "wrong-match", "machine {:?} {:?} on {:?}: got {:?}, want {:?}", ops, grafts, input, got, want);
        }
    }
    Ok(())
}

/// An input that mostly follows the machine
pub fn random_walk(ctx: &Ctx, nfa: &Nfa, n: usize, all: usize, len: usize) -> Vec<usize> {
    let mut s = nfa.start();
    let mut out = vec![];
    for _ in 0..len {
        let ok: Vec<usize> = (0..n).filter(|x| !nfa.step(&s, *x).is_empty()).collect();
        let x = if ok.is_empty() || ctx.chance(1, 10) { ctx.below(all) } else { *ctx.pick(&ok) };
        out.push(x);
        s = nfa.step(&s, x);
        if s.is_empty() && ctx.chance(1, 2) {
            break;
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------------------
// C20: the compiler's contract with builders

/// A builder that records what it is told and checks the contract
pub struct Recorder<I> {
    states: Vec<(Vec<(I, u32)>, Vec<u32>)>,
    problems: Vec<String>,
}
impl<I: Ord + Clone + Debug> Recorder<I> {
    pub fn new() -> Recorder<I> {
        Recorder { states: vec![], problems: vec![] }
    }
}
pub struct Recorded<I> {
    pub states: Vec<(Vec<(I, u32)>, Vec<u32>)>,
    pub problems: Vec<String>,
}
impl<I: Ord + Clone + Debug, T: TokT> DfaBuilder<I, T, Recorded<I>> for Recorder<I> {
    fn start_state(&mut self) {
        self.states.push((vec![], vec![]));
    }
    fn transition(&mut self, symbol: I, target_state: StateId) {
        match self.states.last_mut() {
            None => self.problems.push("transition before the first state".into()),
            Some(s) => {
                if let Some((prev, _)) = s.0.last() {
                    if *prev >= symbol {
                        self.problems.push(format!("transition {:?} follows {:?}", symbol, prev));
                    }
                }
                s.0.push((symbol, target_state));
            }
        }
    }
    fn accept(&mut self, symbol: T) {
        match self.states.last_mut() {
            None => self.problems.push("output before the first state".into()),
            Some(s) => {
                if !s.1.is_empty() {
                    self.problems.push("second output for one state".into());
                }
                s.1.push(symbol.rank());
            }
        }
    }
    fn build(self) -> Recorded<I> {
        Recorded { states: self.states, problems: self.problems }
    }
}

impl<I: Ord + Clone + Debug> Recorded<I> {
    fn table(&self, includes: &dyn Fn(&I, usize) -> bool, n: usize) -> Res<Table> {
        ensure!(self.problems.is_empty(), "builder-contract", "{}", self.problems[0]);
        ensure!(!self.states.is_empty(), "builder-contract", "no states were started");
        let mut t = Table { next: vec![], out: vec![] };
        for (i, (tr, out)) in self.states.iter().enumerate() {
            for (s, to) in tr {
                ensure!((*to as usize) < self.states.len(), "builder-contract", "state {}: {:?} leads to state {} which was never started", i, s, to);
            }
            let mut row = vec![];
            for x in 0..n {
                let hits: Vec<usize> = tr.iter().filter(|(s, _)| includes(s, x)).map(|(_, to)| *to as usize).collect();
                ensure!(hits.len() <= 1, "builder-contract", "state {}: symbol #{} has {} transitions", i, x, hits.len());
                row.push(hits.first().cloned());
            }
            t.next.push(row);
            t.out.push(out.first().cloned());
        }
        Ok(t)
    }
}

pub fn c20(ctx: &Ctx) -> Res<()> {
    match ctx.weighted(&[5000, 3, 1]) {
        0 => {}
        1 => {
            return huge_universe!(ctx, u => {
                let toks = gen_wide(ctx, u.n());
                c20_with::<_, u32>(ctx, &u, toks)
            })
        }
        _ => return c20_deep(ctx),
    }
    if ctx.chance(1, 3) {
        return c20_plain(ctx);
    }
    if ctx.chance(1, 6) {
        return any_universe!(ctx, u => c20_direct::<_, u32>(ctx, &u));
    }
    if ctx.chance(1, 4) {
        return if ctx.chance(1, 3) {
            any_universe!(ctx, u => c20_machine::<_, RevTok>(ctx, &u))
        } else {
            any_universe!(ctx, u => c20_machine::<_, u32>(ctx, &u))
        };
    }
    if ctx.chance(1, 3) {
        any_universe!(ctx, u => c20_on::<_, RevTok>(ctx, &u))
    } else {
        any_universe!(ctx, u => c20_on::<_, u32>(ctx, &u))
    }
}

fn c20_on<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 2);
    let toks = gen_tokens(ctx, n, 5, 140);
    c20_with::<S, T>(ctx, u, toks)
}

/// More states than 16 bits can number: a word and a prefix of it
fn c20_deep(ctx: &Ctx) -> Res<()> {
    ctx.probe("deep-literal");
    let len = 65_530 + ctx.below(5000);
    let short = ctx.range(1, len - 1);
    let a = ctx.range(1, 7);
    let word: Vec<usize> = (0..len).map(|i| (i / a + i / 256) % 8).collect();
    ev!(ctx, "literal of {} symbols, prefix of {}", len, short);
    ctx.sample(|| format!("literal of {} symbols and a prefix of {}", len, short));
    let mut tm: TokenMatcher<usize, u32> = TokenMatcher::new();
    tm.add_pattern(exactly(&word), 4);
    tm.add_pattern(exactly(&word[..short]), 2);
    let seed = fresh_seed(ctx);
    let rec: Recorded<SymbolRange<usize>> = with_hash_seed(seed, || DfaCompiler::build(tm.to_ndfa(), Recorder::new()));
    let t = rec.table(&|r: &SymbolRange<usize>, x: usize| r.lowest <= x && x <= r.highest, 8)?;
    let mut at = 0;
    for i in 0..=len {
        let want = if i == short {
            Some(2)
        } else if i == len {
            Some(4)
        } else {
            None
        };
        ensure!(t.out[at] == want, "language", "after {} symbols of the word the output is {:?}, should be {:?}", i, t.out[at], want);
        for x in 0..8 {
            let on = i < len && word[i] == x;
            ensure!(t.next[at][x].is_some() == on, "language", "after {} symbols of the word, symbol {} leads to {:?}", i, x, t.next[at][x]);
        }
        if i < len {
            at = t.next[at][word[i]].unwrap();
        }
    }
    ctx.mix(at as u64);
    ctx.nontrivial();
    Ok(())
}

fn c20_with<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>, toks: Vec<(Ast, u32)>) -> Res<()> {
    let nfa = Nfa::of_tokens(&toks);
    ev!(ctx, "symbols {} {:?}", u.name, u.syms);
    ev!(ctx, "tokens {:?}", toks);
    ctx.sample(|| format!("{} tokens {:?}", u.name, toks));
    let mut tm: TokenMatcher<S, T> = TokenMatcher::new();
    for (p, t) in &toks {
        tm.add_pattern(build(ctx, u, p), T::make(*t));
    }
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
    c20_check::<S, T>(ctx, u, &nfa, &|| tm.to_ndfa(), &|| (&tm).prepare_to_match(), &|| gen_input(ctx, &asts, u.n(), 30))
}

/// A machine put together by hand, with several transitions between the same states
fn c20_machine<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 2);
    let mut ops = gen_machine(ctx, n, false);
    if ctx.chance(1, 2) {
        // more of the same: other symbols between states that are already connected
        let between: Vec<(u32, u32)> = ops.iter().filter_map(|o| if let Op::Trans(a, _, _, b) = o { Some((*a, *b)) } else { None }).collect();
        for _ in 0..ctx.range(1, 6) {
            let (a, b) = *ctx.pick(&between);
            let lo = ctx.below(n);
            let hi = (lo + ctx.below(3)).min(n - 1);
            ops.push(Op::Trans(a, lo, hi, b));
        }
    }
    let nfa = model_of(&ops);
    if !tractable_nfa(&nfa, n, if n > 30 { 1200 } else { 200 }) {
        return Ok(());
    }
    ctx.probe("hand-built-machine");
    shuffle(ctx, &mut ops);
    ev!(ctx, "symbols {} {:?}", u.name, u.syms);
    ev!(ctx, "machine {:?}", ops);
    ctx.sample(|| format!("{} machine {:?}", u.name, ops));
    let make = || {
        let mut m: Ndfa<SymbolRange<S>, T> = Ndfa::new();
        for o in &ops {
            apply(&mut m, u, o);
        }
        m.fix_overlapping_ranges();
        let b: Box<dyn StateMachine<SymbolRange<S>, T>> = Box::new(m);
        b
    };
    let table = || make().prepare_to_match();
    c20_check::<S, T>(ctx, u, &nfa, &make, &table, &|| random_walk(ctx, &nfa, n, u.n(), 20))
}

/// The table builder called directly, by the rules of the interface
fn c20_direct<S: Sym, T: TokT>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.n();
    let k = if ctx.chance(1, 400) { ctx.range(200, 400) } else { ctx.range(1, 8) };
    let mut nfa = Nfa::default();
    for _ in 0..k {
        nfa.add();
    }
    let mut states: Vec<(Vec<(usize, usize, usize)>, Option<u32>, usize)> = vec![];
    for s in 0..k {
        let favourite = ctx.below(k);
        let mut tr = vec![];
        let mut x = 0;
        while x < n {
            match ctx.below(4) {
                0 => x += 1,
                w => {
                    let hi = (x + ctx.below(w)).min(n - 1);
                    let to = if ctx.chance(1, 2) { favourite } else { ctx.below(k) };
                    tr.push((x, hi, to));
                    nfa.edges[s].push((x, hi, to));
                    x = hi + 1;
                }
            }
        }
        let out = if ctx.chance(1, 2) { Some(ctx.below(6) as u32) } else { None };
        nfa.out[s] = out;
        // the output may be named before, between or after the transitions
        let when = ctx.range(0, tr.len());
        states.push((tr, out, when));
    }
    ctx.probe("builder-called-directly");
    ev!(ctx, "symbols {} {:?}", u.name, u.syms);
    ev!(ctx, "states {:?}", states);
    ctx.sample(|| format!("{} built directly {:?}", u.name, states));
    let mut b: SymbolRangeDfaBuilder<S, T> = SymbolRangeDfaBuilder::new();
    for (tr, out, when) in &states {
        b.start_state();
        for (i, (lo, hi, to)) in tr.iter().enumerate() {
            if i == *when {
                if let Some(o) = out {
                    b.accept(T::make(*o));
                }
            }
            b.transition(SymbolRange::new(u.syms[*lo].clone(), u.syms[*hi].clone()), *to as u32);
        }
        if *when >= tr.len() {
            if let Some(o) = out {
                b.accept(T::make(*o));
            }
        }
    }
    let dfa = b.build();
    ensure!(dfa.count_states() as usize == k, "builder-contract", "{} states were started, the matcher has {}", k, dfa.count_states());
    let t = Table::of_machine(&dfa, u, &|o: &T| o.rank())?;
    for (s, (_, out, _)) in states.iter().enumerate() {
        ensure!(t.out[s] == *out, "builder-contract", "state {}: output {:?}, {:?} was asked for", s, t.out[s], out);
        for x in 0..n {
            let want = nfa.edges[s].iter().find(|(lo, hi, _)| *lo <= x && x <= *hi).map(|e| e.2);
            ensure!(t.next[s][x] == want, "builder-contract", "state {}: symbol #{} leads to {:?}, {:?} was asked for", s, x, t.next[s][x], want);
        }
    }
    let again: SymbolRangeDfa<S, T> = with_hash_seed(fresh_seed(ctx), || DfaCompiler::build(dfa.clone(), SymbolRangeDfaBuilder::new()));
    let pairs = Table::of_machine(&again, u, &|o: &T| o.rank())?.refines(&nfa, n)?;
    ctx.mix(pairs as u64);
    if pairs > 3 {
        ctx.nontrivial();
    }
    for _ in 0..ctx.range(1, 3) {
        let input = random_walk(ctx, &nfa, n, n, 20);
        let (want, _) = nfa.run(&input);
        for m in &[&dfa, &again] {
            let mut r = VecReader::from_vec(u.conc(&input));
            let got = outcome(match_pattern(m.start(), &mut r), &|o: &T| o.rank())?;
            ensure!(got == want, "wrong-match", "built directly, on {:?}: got {:?}, want {:?}", input, got, want);
        }
    }
    Ok(())
}

fn c20_check<S: Sym, T: TokT>(
    ctx: &Ctx,
    u: &Universe<S>,
    nfa: &Nfa,
    machine: &dyn Fn() -> Box<dyn StateMachine<SymbolRange<S>, T>>,
    table: &dyn Fn() -> SymbolRangeDfa<S, T>,
    input: &dyn Fn() -> Vec<usize>,
) -> Res<()> {
    let includes = |r: &SymbolRange<S>, x: usize| r.lowest <= u.syms[x] && u.syms[x] <= r.highest;

    let seed = fresh_seed(ctx);
    let rec: Recorded<SymbolRange<S>> = with_hash_seed(seed, || DfaCompiler::build(machine(), Recorder::new()));
    // ranges, not just their order
    for (i, (tr, _)) in rec.states.iter().enumerate() {
        for w in tr.windows(2) {
            ensure!(w[0].0.highest < w[1].0.lowest, "builder-contract", "state {}: {:?} and {:?} overlap", i, w[0].0, w[1].0);
        }
    }
    let t1 = rec.table(&includes, u.n())?;
    let pairs = t1.refines(nfa, u.n())?;
    ctx.mix(pairs as u64);
    if pairs > 3 {
        ctx.nontrivial();
    }

    // the table-driven matcher, and compiled again through the different routes
    let mut dfa: SymbolRangeDfa<S, T> = with_hash_seed(fresh_seed(ctx), table);
    let t2 = Table::of_machine(&dfa, u, &|o: &T| o.rank())?;
    t2.refines(nfa, u.n())?;
    for _ in 0..ctx.range(1, 3) {
        let route = ctx.below(4);
        ev!(ctx, "compile again route {}", route);
        dfa = match route {
            0 => DfaCompiler::build(dfa, SymbolRangeDfaBuilder::new()),
            1 => {
                let b: Box<dyn StateMachine<SymbolRange<S>, T>> = Box::new(dfa);
                b.prepare_to_match()
            }
            2 => {
                let r: Rc<dyn StateMachine<SymbolRange<S>, T>> = Rc::new(dfa);
                DfaCompiler::build(r, SymbolRangeDfaBuilder::new())
            }
            _ => {
                let rec: Recorded<SymbolRange<S>> = DfaCompiler::build(dfa.clone(), Recorder::new());
                rec.table(&includes, u.n())?.refines(nfa, u.n())?;
                dfa.prepare_to_match()
            }
        };
        let t = Table::of_machine(&dfa, u, &|o: &T| o.rank())?;
        t.refines(nfa, u.n())?;
    }
    for _ in 0..ctx.range(1, 3) {
        let input = input();
        let (want, _) = nfa.run(&input);
        let mut r = VecReader::from_vec(u.conc(&input));
        let got = outcome(match_pattern(dfa.start(), &mut r), &|o: &T| o.rank())?;
        ensure!(got == want, "wrong-match", "compiled again, on {:?}: got {:?}, want {:?}", input, got, want);
    }
    Ok(())
}

/// Machines over plain symbols (not ranges), compiled through a builder of our own
fn c20_plain(ctx: &Ctx) -> Res<()> {
    let n = ctx.range(1, 6);
    let mut ops = gen_machine(ctx, n, true);
    let nfa = model_of(&ops);
    if !tractable_nfa(&nfa, n, if n > 30 { 1200 } else { 200 }) {
        return Ok(());
    }
    shuffle(ctx, &mut ops);
    ev!(ctx, "plain machine {:?}", ops);
    ctx.sample(|| format!("plain-symbol machine {:?}", ops));
    let seed = fresh_seed(ctx);
    let rec: Recorded<String> = with_hash_seed(seed, || {
        let mut m: Ndfa<String, RevTok> = Ndfa::new();
        for o in &ops {
            match o {
                Op::Trans(a, x, _, b) => m.add_transition(*a, format!("s{}", x), *b),
                Op::Create(a) => m.create_state(*a),
                Op::Join(a, b) => m.join_states(*a, *b),
                Op::Out(a, t) => m.set_output_symbol(*a, RevTok::make(*t)),
            }
        }
        DfaCompiler::build(m, Recorder::new())
    });
    let t = rec.table(&|s: &String, x| *s == format!("s{}", x), n)?;
    let pairs = t.refines(&nfa, n)?;
    ctx.mix(pairs as u64);
    if pairs > 2 {
        ctx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------
// C21: hash seeds

pub fn c21(ctx: &Ctx) -> Res<()> {
    if ctx.chance(1, 4000) {
        return huge_universe!(ctx, u => c21_on(ctx, &u));
    }
    some_universe!(ctx, u => c21_on(ctx, &u))
}

fn c21_on<S: Sym>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 2);
    let k = ctx.range(2, 5);
    if ctx.chance(1, 2) {
        // one hand-built machine, several hash seeds
        let ops = gen_machine(ctx, n, false);
        let nfa = model_of(&ops);
        if !tractable_nfa(&nfa, n, if n > 30 { 1200 } else { 200 }) {
            return Ok(());
        }
        ev!(ctx, "machine {:?}", ops);
        ctx.sample(|| format!("machine {:?}", ops));
        type View<S> = (Vec<Option<u32>>, Vec<Vec<(S, S, u32)>>);
        let mut base: Option<(View<S>, Table)> = None;
        for _ in 0..k {
            let seed = fresh_seed(ctx);
            let (view, again, dfa): (View<S>, View<S>, SymbolRangeDfa<S, u32>) = with_hash_seed(seed, || {
                let mut m: Ndfa<SymbolRange<S>, u32> = Ndfa::new();
                for o in &ops {
                    apply(&mut m, u, o);
                }
                m.fix_overlapping_ranges();
                let look = |m: &Ndfa<SymbolRange<S>, u32>| {
                    let mut outs = vec![];
                    let mut trs = vec![];
                    for s in 0..m.count_states() {
                        outs.push(m.output_symbol_for_state(s).cloned());
                        let mut t: Vec<(S, S, u32)> =
                            m.get_transitions_for_state(s).into_iter().map(|(r, to)| (r.lowest, r.highest, to)).collect();
                        t.sort();
                        t.dedup();
                        trs.push(t);
                    }
                    (outs, trs)
                };
                let a = look(&m);
                let b = look(&m.clone());
                (a, b, DfaCompiler::build(m, SymbolRangeDfaBuilder::new()))
            });
            ctx.fault("hash-seed-changed");
            ctx.mix(seed);
            ensure!(view == again, "hash-dependent", "machine {:?}: asked twice, the answers differ: {:?} and {:?}", ops, view.0, again.0);
            let t = Table::of_dfa(&dfa, u)?;
            t.refines(&nfa, u.n())?;
            match &base {
                None => base = Some((view, t)),
                Some((v0, t0)) => {
                    ensure!(
                        *v0 == view,
                        "hash-dependent",
                        "machine {:?}: outputs/transitions differ between hash seeds: {:?} and {:?}",
                        ops,
                        v0.0,
                        view.0
                    );
                    let p = t0.equivalent(&t)?;
                    if p > 2 {
                        ctx.nontrivial();
                    }
                }
            }
        }
    } else {
        let toks = gen_tokens(ctx, n, 5, 140);
        ev!(ctx, "tokens {:?}", toks);
        ctx.sample(|| format!("tokens {:?}", toks));
        let nfa = Nfa::of_tokens(&toks);
        let mut tm: TokenMatcher<S, u32> = TokenMatcher::new();
        for (p, t) in &toks {
            tm.add_pattern(build(ctx, u, p), *t);
        }
        let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
        let input = gen_input(ctx, &asts, u.n(), 30);
        let mut base: Option<(Table, Option<(usize, u32)>)> = None;
        for _ in 0..k {
            let seed = fresh_seed(ctx);
            ctx.fault("hash-seed-changed");
            ctx.mix(seed);
            let (dfa, got) = with_hash_seed(seed, || {
                let d: SymbolRangeDfa<S, u32> = (&tm).prepare_to_match();
                let got = {
                    let mut r = VecReader::from_vec(u.conc(&input));
                    outcome(match_pattern(d.start(), &mut r), &|o: &u32| *o)
                };
                (d, got)
            });
            let got = got?;
            let t = Table::of_dfa(&dfa, u)?;
            t.refines(&nfa, u.n())?;
            match &base {
                None => {
                    let (want, _) = nfa.run(&input);
                    ensure!(got == want, "wrong-match", "tokens {:?} on {:?}: got {:?}, want {:?}", toks, input, got, want);
                    base = Some((t, got));
                }
                Some((t0, g0)) => {
                    ensure!(*g0 == got, "hash-dependent", "tokens {:?} on {:?}: {:?} under one hash seed, {:?} under another", toks, input, g0, got);
                    let p = t0.equivalent(&t)?;
                    if p > 3 {
                        ctx.nontrivial();
                    }
                }
            }
        }
    }
    Ok(())
}
