//! C14 a saved matcher reloads as the same matcher or not at all

use concordance::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;

use crate::core::{Ctx, Res};
use crate::env::{catch, fresh_seed, with_hash_seed, Caught};
use crate::nfa::{Nfa, Table};
use crate::p_match::{deep_literal, gen_tokens, outcome, prepare_tokens, TokT};
use crate::pat::*;
use crate::srcs::*;
use crate::syms::{Sym, Universe};
use crate::{ensure, ev, fail};

pub fn c14(ctx: &Ctx) -> Res<()> {
    use crate::syms::*;
    if ctx.chance(1, 30) {
        return match ctx.below(3) {
            0 => c14_unit(ctx, &chars(ctx)),
            1 => c14_unit(ctx, &u8s(ctx)),
            _ => c14_unit(ctx, &i32s(ctx)),
        };
    }
    if ctx.chance(1, 4000) {
        return if ctx.chance(1, 2) { c14_on::<_, u32>(ctx, &huge_u32s(ctx)) } else { c14_on::<_, String>(ctx, &huge_chars(ctx)) };
    }
    if ctx.chance(1, 40_000) {
        let json = ctx.chance(1, 2);
        ev!(ctx, "stored as {}", if json { "json" } else { "bincode" });
        return deep_literal(ctx, &u8s(ctx), &|dfa| {
            if json {
                serde_json::from_slice(&serde_json::to_vec(&dfa).unwrap()).expect("the stored matcher does not load")
            } else {
                bincode::deserialize(&bincode::serialize(&dfa).unwrap()).expect("the stored matcher does not load")
            }
        });
    }
    match ctx.below(6) {
        0 => c14_on::<_, u32>(ctx, &chars(ctx)),
        1 => c14_on::<_, u32>(ctx, &u8s(ctx)),
        2 => c14_on::<_, String>(ctx, &i32s(ctx)),
        3 => c14_on::<_, u32>(ctx, &customs(ctx)),
        4 => c14_on::<_, String>(ctx, &chars(ctx)),
        _ => c14_on::<_, u32>(ctx, &u64s(ctx)),
    }
}

/// Matchers of a plain pattern, whose output is `()`
fn c14_unit<S: Sym + Serialize + DeserializeOwned>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    let n = u.draw_n(ctx, 2);
    let cfg = GenCfg::draw(ctx, n);
    let ast = gen_bounded(ctx, &cfg, 40);
    let nfa = Nfa::of_tokens(&[(ast.clone(), 0)]);
    let p = build(ctx, u, &ast);
    let seed = fresh_seed(ctx);
    let dfa: Dfa<S, ()> = with_hash_seed(seed, || p.prepare_to_match());
    let inputs: Vec<Vec<usize>> = (0..3).map(|_| gen_input(ctx, &[&ast], u.n(), 20)).collect();
    ctx.sample(|| format!("{} unit-output matcher of {:?}", u.name, ast));
    let json = ctx.chance(1, 2);
    ev!(ctx, "unit-output matcher of {:?} stored as {}", ast, if json { "json" } else { "bincode" });
    let again: Option<Dfa<S, ()>> = if json {
        let b = serde_json::to_vec(&dfa).unwrap();
        serde_json::from_slice(&b).ok()
    } else {
        let b = bincode::serialize(&dfa).unwrap();
        let k = ctx.below(b.len());
        ctx.fault("stored-form-truncated");
        if let Caught::Value(Some(d)) = catch(|| bincode::deserialize::<Dfa<S, ()>>(&b[..k]).ok()) {
            same_unit(u, &d, &nfa, &inputs, &format!("loaded from {} of {} bytes", k, b.len()))?;
        }
        bincode::deserialize(&b).ok()
    };
    ctx.nontrivial();
    let d = match again {
        Some(d) => d,
        None => fail!("does-not-load", "the stored matcher of {:?} does not load", ast),
    };
    if json {
        let before = Table::of_machine(&dfa, u, &|_: &()| 0)?;
        let after = Table::of_machine(&d, u, &|_: &()| 0)?;
        if before != after && before.next == after.next && after.out.iter().all(|o| o.is_none()) {
            fail!("unit-output-json", "the matcher of {:?}, whose output is (), accepts nothing after it is stored as JSON and reloaded", ast);
        }
    }
    same_unit(u, &d, &nfa, &inputs, "the matcher loaded again")
}

fn same_unit<S: Sym>(u: &Universe<S>, d: &Dfa<S, ()>, nfa: &Nfa, inputs: &[Vec<usize>], what: &str) -> Res<()> {
    match catch(|| -> Res<()> {
        let t = Table::of_machine(d, u, &|_: &()| 0)?;
        t.refines(nfa, u.n())?;
        for input in inputs {
            let got = matches_prepared(&u.conc(input), d);
            let want = nfa.run(input).0.map(|w| w.0);
            ensure!(got == want, "reload-differs", "{}: on {:?} it gives {:?}, the original {:?}", what, input, got, want);
        }
        Ok(())
    }) {
        Caught::Value(Ok(())) => Ok(()),
        Caught::Value(Err(v)) => fail!("reload-differs", "{}: {}", what, v.msg),
        Caught::Panic(p) => fail!("reload-differs", "{}: using it panics: {}", what, p),
        Caught::Injected(_) => unreachable!(),
    }
}

type Dfa<S, T> = SymbolRangeDfa<S, T>;

/// Whether a loaded matcher is the original one in every respect a user can see
fn same_matcher<S: Sym, T: TokT>(
    ctx: &Ctx,
    u: &Universe<S>,
    d: &Dfa<S, T>,
    nfa: &Nfa,
    inputs: &[Vec<usize>],
    what: &str,
) -> Res<()> {
    let r = catch(|| -> Res<()> {
        let t = Table::of_machine(d, u, &|o: &T| o.rank())?;
        let pairs = t.refines(nfa, u.n())?;
        ctx.mix(pairs as u64);
        for input in inputs {
            let mut r = VecReader::from_vec(u.conc(input));
            let got = outcome(match_pattern(d.start(), &mut r), &|o: &T| o.rank())?;
            let (want, _) = nfa.run(input);
            ensure!(got == want, "reload-differs", "{}: on {:?} it gives {:?}, the original {:?}", what, input, got, want);
        }
        Ok(())
    });
    match r {
        Caught::Value(Ok(())) => Ok(()),
        Caught::Value(Err(v)) => fail!("reload-differs", "{}: {}", what, v.msg),
        Caught::Panic(p) => fail!("reload-differs", "{}: using it panics: {}", what, p),
        Caught::Injected(_) => unreachable!(),
    }
}

/// Paths of all named components of a stored form
fn named(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                out.push(at.clone());
                named(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                named(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn remove(v: &mut Value, path: &[String]) {
    match v {
        Value::Object(m) => {
            if path.len() == 1 {
                m.remove(&path[0]);
            } else if let Some(x) = m.get_mut(&path[0]) {
                remove(x, &path[1..]);
            }
        }
        Value::Array(a) => {
            if let Ok(i) = path[0].parse::<usize>() {
                if path.len() > 1 && i < a.len() {
                    remove(&mut a[i], &path[1..]);
                }
            }
        }
        _ => {}
    }
}

fn c14_on<S, T>(ctx: &Ctx, u: &Universe<S>) -> Res<()>
where
    S: Sym + Serialize + DeserializeOwned,
    T: TokT + Serialize + DeserializeOwned,
{
    let n = u.draw_n(ctx, 2);
    let toks = gen_tokens(ctx, n, 4, 60);
    let nfa = Nfa::of_tokens(&toks);
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
    let inputs: Vec<Vec<usize>> = (0..3).map(|_| gen_input(ctx, &asts, u.n(), 20)).collect();
    let dfa = prepare_tokens::<S, T>(ctx, u, &toks);
    ev!(ctx, "tokens {:?}", toks);
    ctx.sample(|| format!("{} tokens {:?}", u.name, toks));
    same_matcher(ctx, u, &dfa, &nfa, &inputs, "the original matcher")?;
    let json = ctx.chance(1, 2);

    // stored and loaded, possibly several times, elsewhere
    let mut stored: Vec<u8> = if json { serde_json::to_vec(&dfa).unwrap() } else { bincode::serialize(&dfa).unwrap() };
    for i in 0..ctx.range(1, 3) {
        let seed = fresh_seed(ctx);
        let again: Result<(Dfa<S, T>, Vec<u8>), String> = with_hash_seed(seed, || {
            let d: Dfa<S, T> = if json {
                serde_json::from_slice(&stored).map_err(|e| e.to_string())?
            } else {
                bincode::deserialize(&stored).map_err(|e| e.to_string())?
            };
            let s = if json { serde_json::to_vec(&d).unwrap() } else { bincode::serialize(&d).unwrap() };
            Ok((d, s))
        });
        match again {
            Err(e) => fail!("does-not-load", "the stored matcher does not load: {}", e),
            Ok((d, s)) => {
                same_matcher(ctx, u, &d, &nfa, &inputs, &format!("the matcher loaded {} times", i + 1))?;
                stored = s;
            }
        }
    }
    // a loaded matcher is still a state machine that can be compiled again
    if ctx.chance(1, 3) {
        let d: Dfa<S, T> = if json { serde_json::from_slice(&stored).unwrap() } else { bincode::deserialize(&stored).unwrap() };
        let d = DfaCompiler::build(d, SymbolRangeDfaBuilder::new());
        same_matcher(ctx, u, &d, &nfa, &inputs, "the matcher loaded and compiled again")?;
    }

    let load = |b: &[u8]| -> Option<Dfa<S, T>> {
        let r = catch(|| if json { serde_json::from_slice(b).ok() } else { bincode::deserialize(b).ok() });
        match r {
            Caught::Value(d) => d,
            // refusing by a panic is also not producing a matcher
            _ => None,
        }
    };

    // cut short: every place when small, else a sample
    let cuts: Vec<usize> = if stored.len() <= 150 || ctx.thorough() && stored.len() <= 600 {
        (0..stored.len()).collect()
    } else {
        (0..60).map(|_| ctx.below(stored.len())).collect()
    };
    for k in cuts {
        ctx.fault("stored-form-truncated");
        if let Some(d) = load(&stored[..k]) {
            ev!(ctx, "loads when cut to {} of {} bytes", k, stored.len());
            same_matcher(ctx, u, &d, &nfa, &inputs, &format!("loaded from {} of {} bytes", k, stored.len()))?;
        }
    }
    if stored.len() > 60 {
        ctx.nontrivial();
    }

    // lost components
    let whole: Value = serde_json::to_value(&dfa).unwrap();
    let mut paths = vec![];
    named(&whole, &mut vec![], &mut paths);
    let few: Vec<Vec<String>> = if paths.len() <= 12 {
        paths
    } else {
        let mut v: Vec<Vec<String>> = paths.iter().filter(|p| p.len() == 1).cloned().collect();
        for _ in 0..10 {
            v.push(ctx.pick(&paths).clone());
        }
        v
    };
    for p in few {
        let mut v = whole.clone();
        remove(&mut v, &p);
        ctx.fault("stored-component-lost");
        let text = serde_json::to_vec(&v).unwrap();
        let d: Option<Dfa<S, T>> = match catch(|| {
            if ctx.chance(1, 2) {
                serde_json::from_slice(&text).ok()
            } else {
                serde_json::from_value(v.clone()).ok()
            }
        }) {
            Caught::Value(d) => d,
            _ => None,
        };
        if let Some(d) = d {
            ev!(ctx, "loads without {:?}", p);
            same_matcher(ctx, u, &d, &nfa, &inputs, &format!("loaded without component {}", p.join("/")))?;
        }
    }

    // through a stream that fragments, is interrupted and fails
    let (src, log) = SimRead::draw(ctx, stored.clone(), ctx.chance(1, 2));
    let r = catch(|| if json { serde_json::from_reader(src).ok() } else { bincode::deserialize_from(src).ok() });
    let d: Option<Dfa<S, T>> = match r {
        Caught::Value(d) => d,
        _ => None,
    };
    let broken = log.borrow().events > 0;
    match d {
        Some(d) => same_matcher(ctx, u, &d, &nfa, &inputs, "loaded from a faulty stream")?,
        None => ensure!(broken, "does-not-load", "the stored matcher does not load from an intact but fragmented stream"),
    }
    Ok(())
}
