//! C18 pipelines under thread schedules: tasks on real threads, exactly one running, the run decides which

use concordance::*;

use crate::core::{Ctx, Res, Rng};
use std::cell::{Cell, RefCell};

use crate::env::{catch, fresh_seed, inject_panic, nested, run_coop, yield_now, Caught, ForceSend, Pick, YSym};
use crate::p_match::{gen_small_tokens, run_by_hand};
use crate::pat::*;
use crate::srcs::*;
use crate::{ensure, ev};

/// Shared by all tasks
struct Shared {
    matcher: TokenMatcher<YSym, u32>,
    pattern: Pattern<YSym>,
    dfa: SymbolRangeDfa<YSym, u32>,
    /// over the token numbers of `dfa`
    outer: SymbolRangeDfa<u32, u32>,
    single: SymbolRangeDfa<YSym, ()>,
}

#[derive(Clone, Debug)]
struct Spec {
    kind: usize,
    seed: u64,
    input: Vec<usize>,
    /// the source fails (reports no symbol) here, if it does
    fail_at: Option<usize>,
    /// extra yields per symbol (a slow source)
    slow: u32,
}

fn source(spec: &Spec) -> impl SymbolReader<YSym> {
    let mut at = 0;
    let input = spec.input.clone();
    let (fail, slow) = (spec.fail_at, spec.slow);
    FnReader(move || {
        for _ in 0..=slow {
            yield_now();
        }
        if Some(at) == fail || at >= input.len() {
            return None;
        }
        at += 1;
        Some(YSym(input[at - 1] as u32))
    })
}

fn task(sh: &Shared, spec: &Spec) -> Vec<String> {
    let mut out = vec![];
    let mut rng = Rng::new(spec.seed);
    match spec.kind {
        0 => {
            // compile, then match
            let d: SymbolRangeDfa<YSym, u32> = (&sh.matcher).prepare_to_match();
            yield_now();
            let mut r = source(spec);
            loop {
                match match_pattern(d.start(), &mut r) {
                    Accept(l, t) if l > 0 => out.push(format!("{} {}", l, t)),
                    Accept(l, t) => {
                        out.push(format!("{} {}", l, t));
                        break;
                    }
                    Reject => {
                        out.push("reject".into());
                        break;
                    }
                    More(_) => {
                        out.push("more".into());
                        break;
                    }
                }
                if out.len() > 30 {
                    break;
                }
            }
        }
        1 => {
            // tokenize with the shared matcher
            let mut t = Tokenizer::new_prepared(source(spec), &sh.dfa);
            for _ in 0..200 {
                if rng.below(4) == 0 {
                    let r = t.next_token();
                    out.push(format!("{:?} at {}", r, t.get_source_position()));
                    if r.is_none() {
                        out.push(format!("skip {:?}", t.skip_input().map(|s| s.0)));
                    }
                } else {
                    match t.next() {
                        Some(x) => out.push(format!("{:?}", x)),
                        None => break,
                    }
                }
            }
            out.push(format!("end {} {}", t.get_source_position(), t.at_end_of_reader()));
        }
        2 => {
            // a tokenizer reading from another tokenizer's tokens
            let inner = Tokenizer::new_prepared(source(spec), &sh.dfa);
            let inner = FnReader({
                let mut t = inner;
                move || Iterator::next(&mut t).map(|x| x.1)
            });
            let outer = Tokenizer::new_prepared(inner, &sh.outer);
            for x in outer {
                out.push(format!("{:?}", x));
            }
            // and stacked directly, through the reader interface of the tokenizer
            let inner = Tokenizer::new_prepared(source(spec), &sh.dfa);
            let mut outer = Tokenizer::new_prepared(inner, &sh.outer);
            for _ in 0..20 {
                match outer.next() {
                    Some(x) => out.push(format!("direct {:?}", x)),
                    None => break,
                }
            }
            out.push(format!("direct end {} {}", outer.get_source_position(), outer.at_end_of_reader()));
        }
        3 => {
            // both halves of a split stream feed tokenizers
            let mut src = source(spec);
            let (a, b) = src.split();
            let mut ta = Tokenizer::new_prepared(a, &sh.dfa);
            let mut tb = Tokenizer::new_prepared(b, &sh.dfa);
            let (mut da, mut db) = (false, false);
            for _ in 0..400 {
                if da && db {
                    break;
                }
                if rng.below(2) == 0 {
                    if !da {
                        let r = ta.next();
                        da = r.is_none();
                        out.push(format!("a {:?}", r));
                    }
                } else if !db {
                    let r = tb.next();
                    db = r.is_none();
                    out.push(format!("b {:?}", r));
                }
            }
        }
        4 => {
            // a matcher inside a symbol mapping
            let mapped = source(spec).map_symbols(|s: YSym| {
                let v = vec![s.clone(), s];
                let n = matches_prepared(&v, &sh.single).unwrap_or(9) as u32;
                YSym((v[0].0 + n) % 6)
            });
            let t = Tokenizer::new_prepared(mapped, &sh.dfa);
            for x in t {
                out.push(format!("{:?}", x));
            }
        }
        5 => {
            // trees
            let mut r = source(spec);
            let s: TaggedStream<YSym, u32> = TaggedStream::from_tokenized_reader(&mut r, &sh.dfa);
            out.push(format!("{:?}", s));
            let s2 = s.tokenize(&sh.dfa, |x| match x {
                TagSymbol::Untagged(b) => b,
                TagSymbol::Tagged(t, inner) => {
                    let _ = inner.len();
                    YSym(t % 6)
                }
            });
            out.push(format!("{:?}", s2));
        }
        6 => {
            // several matches in progress, fed in turn, some duplicated
            let mut states = vec![sh.dfa.start(), sh.dfa.start()];
            let mut r = source(spec);
            let mut n = 0;
            while let Some(x) = r.next_symbol() {
                n += 1;
                let mut next = vec![];
                for (i, s) in states.into_iter().enumerate() {
                    match s {
                        More(st) => {
                            let copy = if next.len() < 5 && rng.below(5) == 0 { Some(st.clone()) } else { None };
                            let fed = st.next(x.clone());
                            match fed {
                                Accept(l, t) => out.push(format!("{} {}: accept {} {}", n, i, l, t)),
                                Reject => out.push(format!("{} {}: reject", n, i)),
                                m => next.push(m),
                            }
                            if let Some(c) = copy {
                                match c.finish() {
                                    Accept(l, t) => out.push(format!("{} {}: would accept {} {}", n, i, l, t)),
                                    _ => out.push(format!("{} {}: would reject", n, i)),
                                }
                            }
                        }
                        done => out.push(format!("{} {}: at once {}", n, i, if let Accept(l, _) = done { l as i64 } else { -1 })),
                    }
                }
                if rng.below(3) == 0 {
                    next.push(sh.dfa.start());
                }
                states = next;
                if states.is_empty() {
                    break;
                }
            }
            for s in states {
                if let More(st) = s {
                    match st.finish() {
                        Accept(l, t) => out.push(format!("accept {} {}", l, t)),
                        _ => out.push("reject".into()),
                    }
                }
            }
        }
        _ => {
            // from the pattern, through an ad-hoc matcher
            let p = sh.pattern.clone();
            let mut r = source(spec);
            let d: SymbolRangeDfa<YSym, ()> = p.prepare_to_match();
            match run_by_hand(&d, &mut r) {
                Accept(l, _) => out.push(format!("accept {}", l)),
                _ => out.push("reject".into()),
            }
            out.push(format!("{:?}", matches(Src(source(spec)), sh.pattern.clone())));
        }
    }
    out
}

fn ypat(p: &Ast) -> Pattern<YSym> {
    match p {
        Ast::Eps => Pattern::Epsilon,
        Ast::Lit(v) => Pattern::Match(v.iter().map(|x| YSym(*x as u32)).collect()),
        Ast::Range(a, b) => Pattern::MatchRange(YSym(*a as u32), YSym(*b as u32)),
        Ast::RepInf(n, q) => Pattern::RepeatInfinite(*n, Box::new(ypat(q))),
        Ast::Rep(a, b, q) => Pattern::Repeat(*a..*b, Box::new(ypat(q))),
        Ast::Seq(v) => Pattern::MatchAll(v.iter().map(ypat).collect()),
        Ast::Alt(v) => Pattern::MatchAny(v.iter().map(ypat).collect()),
    }
}

pub fn c18(ctx: &Ctx) -> Res<()> {
    let toks = gen_small_tokens(ctx, 5, 4, 60);
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
    let mut matcher: TokenMatcher<YSym, u32> = TokenMatcher::new();
    for (p, t) in &toks {
        matcher.add_pattern(ypat(p), *t);
    }
    let dfa = (&matcher).prepare_to_match();
    let mut om: TokenMatcher<u32, u32> = TokenMatcher::new();
    om.add_pattern(Pattern::MatchRange(0u32, 3).repeat_forever(2), 50);
    om.add_pattern(Pattern::MatchRange(2u32, 7), 51);
    om.add_pattern(Pattern::Match(vec![toks[0].1, toks[0].1]), 49);
    let sh = Shared {
        pattern: ypat(&toks[0].0),
        dfa,
        outer: (&om).prepare_to_match(),
        single: Pattern::MatchRange(YSym(0), YSym(2)).prepare_to_match(),
        matcher,
    };
    let k = ctx.range(2, 5);
    let mut specs = vec![];
    for _ in 0..k {
        let mut input = gen_input(ctx, &asts, 6, *ctx.pick(&[8, 20, 40]));
        if input.is_empty() {
            input.push(0);
        }
        let fail_at = if ctx.chance(1, 5) { Some(ctx.below(input.len())) } else { None };
        if fail_at.is_some() {
            ctx.fault("source-fails");
        }
        let slow = ctx.weighted(&[6, 2, 1, 1]) as u32 * 2;
        if slow > 0 {
            ctx.fault("source-slow");
        }
        specs.push(Spec { kind: ctx.below(8), seed: ctx.draw(1 << 30), input, fail_at, slow });
    }
    ev!(ctx, "tokens {:?}", toks);
    for (i, s) in specs.iter().enumerate() {
        ev!(ctx, "task {}: {:?}", i, s);
    }
    ctx.sample(|| format!("{} tasks of kinds {:?} sharing tokens {:?}", k, specs.iter().map(|s| s.kind).collect::<Vec<_>>(), toks));

    // each task alone
    let alone: Vec<Vec<String>> = specs.iter().map(|s| task(&sh, s)).collect();

    if ctx.chance(1, 3) {
        return c18_nested(ctx, &sh, &specs, &alone);
    }

    // all together
    let shr = ForceSend(&sh);
    let stride = *ctx.pick(&[1u32, 2, 7, 30]);
    let tasks: Vec<(u64, u32, Box<dyn FnOnce() -> Vec<String> + '_>)> = specs
        .iter()
        .map(|s| {
            let sh: &Shared = shr.get();
            let f: Box<dyn FnOnce() -> Vec<String> + '_> = Box::new(move || task(sh, s));
            (fresh_seed(ctx), stride, f)
        })
        .collect();
    let mut cancelled = vec![false; k];
    let mode = ctx.below(3);
    let cancels = ctx.chance(1, 3);
    let mut switches = 0u64;
    let mut last = usize::MAX;
    let mut budget = 3000u64;
    let prio: Vec<usize> = (0..k).map(|_| ctx.below(100)).collect();
    let mut prio = prio;
    let results = run_coop(tasks, |alive| {
        budget = budget.saturating_sub(1);
        // when the budget of choices is spent, finish in order
        let id = if budget == 0 {
            alive[0]
        } else {
            match mode {
                // any task at any point
                0 => alive[ctx.below(alive.len())],
                // long stretches with occasional switches
                1 => {
                    if alive.contains(&last) && !ctx.chance(1, 8) {
                        last
                    } else {
                        alive[ctx.below(alive.len())]
                    }
                }
                // priorities with a few changes
                _ => {
                    if ctx.chance(1, 30) {
                        let v = alive[ctx.below(alive.len())];
                        prio[v] = ctx.below(100);
                    }
                    *alive.iter().max_by_key(|i| prio[**i]).unwrap()
                }
            }
        };
        if id != last {
            switches += 1;
        }
        last = id;
        ctx.mix(id as u64 + 1);
        if cancels && budget > 0 && !cancelled[id] && ctx.chance(1, 60) {
            cancelled[id] = true;
            ctx.fault("task-cancelled");
            return Pick::Cancel(id);
        }
        Pick::Run(id)
    });
    if switches > 5 {
        ctx.nontrivial();
    }
    for (i, r) in results.into_iter().enumerate() {
        match r {
            Caught::Injected(_) => {
                ensure!(cancelled[i], "harness", "task {} was cancelled by no one", i);
            }
            Caught::Panic(p) => crate::fail!("panic", "task {} {:?} panicked among others, but not alone: {}", i, specs[i], p),
            Caught::Value(v) => {
                ensure!(
                    v == alone[i],
                    "not-independent",
                    "task {} {:?} obtained {:?} among others, alone {:?}",
                    i,
                    specs[i],
                    v,
                    alone[i]
                );
            }
        }
    }
    // the shared matchers are unharmed
    for (i, s) in specs.iter().enumerate() {
        let again = task(&sh, s);
        ensure!(again == alone[i], "not-independent", "task {} {:?} run alone afterwards obtained {:?}, before {:?}", i, s, again, alone[i]);
    }
    Ok(())
}

/// The same on one thread: a task is suspended at a yield point while another runs, to its end, inside it
fn c18_nested(ctx: &Ctx, sh: &Shared, specs: &[Spec], alone: &[Vec<String>]) -> Res<()> {
    let k = specs.len();
    let results: RefCell<Vec<Option<Caught<Vec<String>>>>> = RefCell::new((0..k).map(|_| None).collect());
    let cancelled = RefCell::new(vec![false; k]);
    let stack: RefCell<Vec<usize>> = RefCell::new(vec![]);
    let next = Cell::new(0usize);
    // how many more yield points until the next decision
    let wait = Cell::new(0u64);
    let cancels = ctx.chance(1, 3);
    let reach = *ctx.pick(&[3u64, 20, 200, 1000]);
    let run_next = || {
        let id = next.get();
        next.set(id + 1);
        wait.set(ctx.draw(reach));
        stack.borrow_mut().push(id);
        ctx.mix(id as u64 + 1);
        let r = catch(|| task(sh, &specs[id]));
        stack.borrow_mut().pop();
        results.borrow_mut()[id] = Some(r);
    };
    let at_yield = || {
        if wait.get() > 0 {
            wait.set(wait.get() - 1);
            return;
        }
        if next.get() >= k {
            return;
        }
        wait.set(ctx.draw(reach));
        if cancels && ctx.chance(1, 6) {
            let top = stack.borrow().last().copied();
            if let Some(top) = top {
                cancelled.borrow_mut()[top] = true;
                ctx.fault("task-cancelled");
                inject_panic("cancel");
            }
        }
        if !stack.borrow().is_empty() {
            ctx.fault("task-nested");
            ctx.nontrivial();
        }
        run_next();
    };
    nested(&at_yield, || {
        while next.get() < k {
            run_next();
        }
    });
    for (i, r) in results.into_inner().into_iter().enumerate() {
        match r {
            Some(Caught::Value(v)) => ensure!(v == alone[i], "not-independent", "task {} {:?} obtained {:?} among others, alone {:?}", i, specs[i], v, alone[i]),
            Some(Caught::Injected(_)) => ensure!(cancelled.borrow()[i], "harness", "task {} was cancelled by no one", i),
            Some(Caught::Panic(p)) => crate::fail!("panic", "task {} {:?} panicked among others, but not alone: {}", i, specs[i], p),
            None => crate::fail!("harness", "task {} did not run", i),
        }
    }
    for (i, s) in specs.iter().enumerate() {
        let again = task(sh, s);
        ensure!(again == alone[i], "not-independent", "task {} {:?} run alone afterwards obtained {:?}, before {:?}", i, s, again, alone[i]);
    }
    Ok(())
}
