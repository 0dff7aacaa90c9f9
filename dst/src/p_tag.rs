//! C15 tagging, C16 refused tagging, C17 tokenizing tagged streams

use std::cell::RefCell;
use std::ops::Range;
use std::rc::Rc;

use concordance::*;

use crate::core::{Ctx, Res};
use crate::env::{catch, inject_panic, Caught};
use crate::nfa::{Lazy, Nfa};
use crate::p_match::{gen_tokens, prepare_tokens};
use crate::pat::*;
use crate::srcs::*;
use crate::syms::{Sym, Universe};
use crate::{ensure, ev, fail, some_universe};

type TS<B> = TaggedStream<B, u32>;

/// The reference tree; leaves are universe indices
#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Leaf(usize),
    Tag(u32, Vec<M>),
}

fn leaves(v: &[M], out: &mut Vec<usize>) {
    for m in v {
        match m {
            M::Leaf(i) => out.push(*i),
            M::Tag(_, x) => leaves(x, out),
        }
    }
}

/// Reads a stream back: by reading its symbols, and by length and index
fn read_back<S: Sym>(u: &Universe<S>, s: &TS<S>) -> Res<Vec<M>> {
    // twice per level, so deep trees are read by index only below the top levels
    read_to(u, s, 0)
}

fn read_to<S: Sym>(u: &Universe<S>, s: &TS<S>, depth: usize) -> Res<Vec<M>> {
    fn one<S: Sym>(u: &Universe<S>, t: &TagSymbol<S, u32>, depth: usize) -> Res<M> {
        match t {
            TagSymbol::Untagged(b) => match u.index_of(b) {
                Some(i) => Ok(M::Leaf(i)),
                None => fail!("invented-symbol", "symbol {:?} was never in the stream", b),
            },
            TagSymbol::Tagged(t, inner) => Ok(M::Tag(*t, read_to(u, inner, depth + 1)?)),
        }
    }
    let mut by_read = vec![];
    let mut r = s.read_symbols();
    let deep = depth > 1;
    let mut at = 0;
    while let Some(t) = SymbolReader::next_symbol(&mut r) {
        if deep {
            // the same symbol, as far as it can be told without going down both ways
            let same = at < s.len()
                && match (&t, &s[at]) {
                    (TagSymbol::Untagged(a), TagSymbol::Untagged(b)) => a == b,
                    (TagSymbol::Tagged(a, x), TagSymbol::Tagged(b, y)) => a == b && x.len() == y.len(),
                    _ => false,
                };
            ensure!(same, "views-differ", "reading and indexing differ at {} of {}, {} levels down", at, s.len(), depth);
        }
        by_read.push(one(u, &t, depth)?);
        at += 1;
    }
    if deep {
        ensure!(at == s.len(), "views-differ", "{} symbols are read, the length is {}, {} levels down", at, s.len(), depth);
        return Ok(by_read);
    }
    let mut by_index = vec![];
    for i in 0..s.len() {
        by_index.push(one(u, &s[i], depth)?);
    }
    ensure!(by_read == by_index, "views-differ", "reading gives {:?}, indexing gives {:?}", by_read, by_index);
    Ok(by_read)
}

fn expect<S: Sym>(u: &Universe<S>, s: &TS<S>, m: &[M], what: &str) -> Res<()> {
    let got = read_back(u, s)?;
    ensure!(s.len() == m.len(), "wrong-length", "{}: length is {}, should be {}", what, s.len(), m.len());
    ensure!(got == m, "wrong-structure", "{}: the stream is {:?}, should be {:?}", what, got, m);
    Ok(())
}

fn m_tag(v: &[M], r: &Range<usize>, t: u32) -> Vec<M> {
    let mut out = v[..r.start].to_vec();
    out.push(M::Tag(t, v[r.clone()].to_vec()));
    out.extend(v[r.end..].iter().cloned());
    out
}

fn m_tags(v: &[M], tags: &[(Range<usize>, u32)]) -> Vec<M> {
    let mut out = vec![];
    let mut at = 0;
    for (r, t) in tags {
        out.extend(v[at..r.start].iter().cloned());
        out.push(M::Tag(*t, v[r.clone()].to_vec()));
        at = r.end;
    }
    out.extend(v[at..].iter().cloned());
    out
}

/// Number of symbols and tags
fn weight(v: &[M]) -> usize {
    v.iter()
        .map(|m| match m {
            M::Leaf(_) => 1,
            M::Tag(_, x) => 1 + weight(x),
        })
        .sum()
}

/// Another way to the same tree: all symbols first, then the tags from the innermost outwards
fn rebuild<S: Sym>(u: &Universe<S>, v: &[M]) -> TS<S> {
    fn inwards<S: Sym>(s: &mut TS<S>, v: &[M], at: usize) {
        for (i, m) in v.iter().enumerate() {
            if let M::Tag(t, x) = m {
                inwards(s, x, at + i);
                s.tag(*t, at + i..at + i + x.len());
            }
        }
    }
    let mut l = vec![];
    leaves(v, &mut l);
    let mut s: TS<S> = TaggedStream::from_reader(&mut u.conc(&l).iter());
    inwards(&mut s, v, 0);
    s
}

/// Makes one small change to a tree
fn alter(ctx: &Ctx, u: usize, v: &mut Vec<M>) {
    let i = ctx.below(v.len() + 1);
    if i == v.len() {
        v.push(if ctx.chance(1, 2) { M::Leaf(ctx.below(u)) } else { M::Tag(ctx.below(5) as u32, vec![]) });
        return;
    }
    match ctx.below(3) {
        0 => match &mut v[i] {
            M::Leaf(x) => *x = (*x + 1) % u,
            M::Tag(_, x) => alter(ctx, u, x),
        },
        1 => match &mut v[i] {
            M::Leaf(_) => {
                v.remove(i);
            }
            M::Tag(t, _) => *t += 1,
        },
        _ => {
            let m = v.remove(i);
            let t = ctx.below(5) as u32;
            v.insert(i, M::Tag(t, vec![m]));
        }
    }
}

/// Builds a stream from a simulated reader that may be cut off or stall
fn from_source<S: Sym>(ctx: &Ctx, u: &Universe<S>, max: usize) -> (TS<S>, Vec<M>) {
    let n = if max >= 300 { max } else { ctx.size(5, 15, max) };
    let idx: Vec<usize> = (0..n).map(|_| ctx.below(u.n())).collect();
    let (mut r, k, d) = base_reader(ctx, &u.conc(&idx));
    let s: TS<S> = TaggedStream::from_reader(&mut r);
    ev!(ctx, "stream of {:?} from {} ({} delivered)", idx, d, k);
    (s, idx[..k].iter().map(|i| M::Leaf(*i)).collect())
}

fn valid_range(ctx: &Ctx, len: usize) -> Range<usize> {
    let a = ctx.below(len + 1);
    let b = match ctx.weighted(&[5, 1, 1]) {
        0 => (a + ctx.below(5)).min(len),
        1 => a,
        _ => len,
    };
    a..b
}

fn valid_tags(ctx: &Ctx, len: usize) -> Vec<(Range<usize>, u32)> {
    let mut out = vec![];
    let mut at = 0;
    for _ in 0..ctx.below(if len >= 250 { len / 2 } else { 6 }) {
        if ctx.chance(2, 3) {
            at += ctx.below(4);
        }
        if at > len {
            break;
        }
        let end = (at + ctx.below(4)).min(len);
        out.push((at..end, ctx.below(5) as u32));
        at = end;
    }
    out
}

pub fn c15(ctx: &Ctx) -> Res<()> {
    some_universe!(ctx, u => tags_on(ctx, &u, false))
}

pub fn c16(ctx: &Ctx) -> Res<()> {
    some_universe!(ctx, u => tags_on(ctx, &u, true))
}

/// A history of a pool of streams
fn tags_on<S: Sym>(ctx: &Ctx, u: &Universe<S>, refuse: bool) -> Res<()> {
    let scale = ctx.chance(1, 20_000);
    if scale {
        ctx.probe("large-scale");
    }
    let mut pool: Vec<(TS<S>, Vec<M>)> = vec![from_source(ctx, u, if scale { *ctx.pick(&[300, 600, 2000, 5000, 66_000]) } else { 60 })];
    let w = ctx.swarm([6, 5, 2, 2, 2, 1]);
    let steps = ctx.range(3, 25);
    if scale && ctx.chance(1, 2) {
        // nest deeply: each tag takes in the one before
        let depth = ctx.range(20, 400);
        for d in 0..depth {
            let p = &mut pool[0];
            let len = p.1.len();
            let a = d % 2;
            let r = a.min(len)..(a + 2).min(len);
            p.0.tag(d as u32 % 5, r.clone());
            p.1 = m_tag(&p.1, &r, d as u32 % 5);
        }
        ctx.probe("deep-nesting");
    }
    let mut done = 0;
    let mut refused = 0;
    expect(u, &pool[0].0, &pool[0].1, "from reader")?;
    ctx.sample(|| format!("{} symbols, {} operations {:?}", pool[0].1.len(), steps, w));
    for _ in 0..steps {
        let i = ctx.below(pool.len());
        if refuse && ctx.chance(1, 2) {
            refused += refuse_one(ctx, u, &mut pool, i)? as usize;
        }
        let len = pool[i].1.len();
        match ctx.weighted(&w) {
            0 => {
                let r = valid_range(ctx, len);
                let t = ctx.below(5) as u32;
                ev!(ctx, "tag {} in #{}: {:?}", t, i, r);
                let p = &mut pool[i];
                let (s, r2) = (&mut p.0, r.clone());
                match catch(|| s.tag(t, r2)) {
                    Caught::Value(()) => {}
                    Caught::Panic(m) => fail!("refused-valid", "tag({:?}) on {} symbols was refused: {}", r, len, m),
                    Caught::Injected(_) => unreachable!(),
                }
                p.1 = m_tag(&p.1, &r, t);
                expect(u, &p.0, &p.1, "after tag")?;
                done += 1;
            }
            1 => {
                let tags = valid_tags(ctx, len);
                ev!(ctx, "with_tags in #{}: {:?}", i, tags);
                let new = match catch(|| pool[i].0.with_tags(tags.iter().cloned())) {
                    Caught::Value(s) => s,
                    Caught::Panic(m) => fail!("refused-valid", "with_tags({:?}) on {} symbols was refused: {}", tags, len, m),
                    Caught::Injected(_) => unreachable!(),
                };
                let m = m_tags(&pool[i].1, &tags);
                expect(u, &new, &m, "result of with_tags")?;
                expect(u, &pool[i].0, &pool[i].1, "original after with_tags")?;
                pool.push((new, m));
                done += 1;
            }
            2 => {
                // a single tag symbol
                let r = valid_range(ctx, len);
                let t = ctx.below(5) as u32;
                let sym = match catch(|| pool[i].0.tag_range(r.clone(), t)) {
                    Caught::Value(s) => s,
                    Caught::Panic(m) => fail!("refused-valid", "tag_range({:?}) on {} symbols was refused: {}", r, len, m),
                    Caught::Injected(_) => unreachable!(),
                };
                match sym {
                    TagSymbol::Tagged(t2, inner) => {
                        ensure!(t2 == t, "wrong-structure", "tag_range gave tag {} for {}", t2, t);
                        expect(u, &inner, &pool[i].1[r], "inside tag_range")?;
                    }
                    _ => fail!("wrong-structure", "tag_range gave an untagged symbol"),
                }
            }
            3 => {
                // continue inside a tag
                let inner: Vec<(TS<S>, Vec<M>)> = (0..len)
                    .filter_map(|k| match (&pool[i].0[k], &pool[i].1[k]) {
                        (TagSymbol::Tagged(_, s), M::Tag(_, m)) => Some((s.clone(), m.clone())),
                        _ => None,
                    })
                    .collect();
                if !inner.is_empty() {
                    let p = ctx.pick(&inner).clone();
                    ev!(ctx, "inner stream of #{} as #{}", i, pool.len());
                    expect(u, &p.0, &p.1, "inner stream")?;
                    pool.push(p);
                }
            }
            4 => {
                // a tagged stream is a source of symbols like any other: read it, and build from what it delivers
                let mut r = pool[i].0.read_symbols();
                let k = ctx.range(0, len);
                let mut got = 0;
                for _ in 0..k {
                    if SymbolReader::next_symbol(&mut r).is_some() {
                        got += 1;
                    }
                }
                ensure!(got == k, "wrong-length", "read {} symbols of {}", got, k);
                if pool.len() < 6 {
                    let c = pool[i].clone();
                    ensure!(c.0 == pool[i].0, "views-differ", "a clone is not equal to its original");
                    pool.push(c);
                }
            }
            _ => {
                if pool.len() < 6 {
                    pool.push(from_source(ctx, u, 30));
                }
            }
        }
        // nothing touched the others
        let j = ctx.below(pool.len());
        expect(u, &pool[j].0, &pool[j].1, "another stream")?;
        // streams are equal when they are the same tree, however they came to be it
        if !refuse && ctx.chance(1, 4) {
            let k = ctx.below(pool.len());
            let same = pool[j].1 == pool[k].1;
            ensure!((pool[j].0 == pool[k].0) == same, "wrong-equality", "{:?} and {:?} are equal: {}", pool[j].1, pool[k].1, !same);
            if weight(&pool[j].1) <= 120 {
                let mut m = pool[j].1.clone();
                if ctx.chance(1, 2) {
                    alter(ctx, u.n(), &mut m);
                }
                let s = match catch(|| rebuild(u, &m)) {
                    Caught::Value(s) => s,
                    Caught::Panic(p) => fail!("valid-refused", "building {:?} from the inside outwards panics: {}", m, p),
                    Caught::Injected(_) => unreachable!(),
                };
                expect(u, &s, &m, "a stream built from the inside outwards")?;
                let same = pool[j].1 == m;
                ensure!((pool[j].0 == s) == same && (pool[j].0 != s) != same, "wrong-equality", "{:?} and {:?}, built from the inside outwards, are equal: {}", pool[j].1, m, !same);
            }
        }
        let mut l = vec![];
        leaves(&pool[j].1, &mut l);
        ctx.mix((pool[j].1.len() * 1000 + l.len()) as u64);
        while pool.len() > 6 {
            pool.remove(0);
        }
    }
    if (!refuse && done > 1) || (refuse && refused > 1) {
        ctx.nontrivial();
    }
    Ok(())
}

fn bad_range(ctx: &Ctx, len: usize) -> Range<usize> {
    match ctx.below(5) {
        0 => {
            let a = ctx.below(len + 1);
            a..len + 1 + ctx.below(4)
        }
        1 => {
            // reversed
            let a = ctx.range(1, len.max(1));
            a..ctx.below(a)
        }
        2 => len + 1..len + 1 + ctx.below(3),
        3 => ctx.below(len + 1)..usize::MAX - ctx.below(3),
        _ => usize::MAX..usize::MAX,
    }
}

/// Makes one request that must be refused
fn refuse_one<S: Sym>(ctx: &Ctx, u: &Universe<S>, pool: &mut Vec<(TS<S>, Vec<M>)>, i: usize) -> Res<bool> {
    let len = pool[i].1.len();
    let which = ctx.below(5);
    let mut what;
    let carried_out = match which {
        0 => {
            let r = bad_range(ctx, len);
            what = format!("tag({:?}) on {} symbols", r, len);
            let s = &mut pool[i].0;
            !matches!(catch(|| s.tag(1, r)), Caught::Panic(_))
        }
        1 => {
            let r = bad_range(ctx, len);
            what = format!("tag_range({:?}) on {} symbols", r, len);
            !matches!(catch(|| pool[i].0.tag_range(r, 1)), Caught::Panic(_))
        }
        2 => {
            // a list with one bad entry
            let mut tags = valid_tags(ctx, len);
            let at = ctx.range(0, tags.len());
            tags.insert(at, (bad_range(ctx, len), 9));
            what = format!("with_tags({:?}) on {} symbols", tags, len);
            !matches!(catch(|| pool[i].0.with_tags(tags.into_iter())), Caught::Panic(_))
        }
        3 => {
            // overlapping or going backwards
            let mut tags: Vec<(Range<usize>, u32)> = valid_tags(ctx, len).into_iter().filter(|(r, _)| r.end > r.start).collect();
            if tags.is_empty() {
                return Ok(false);
            }
            let k = ctx.below(tags.len());
            let r = tags[k].0.clone();
            let bad = match ctx.below(4) {
                0 => r.clone(),
                1 => r.end - 1..len.max(r.end),
                2 => 0..r.start.min(1),
                _ => r.start..r.start,
            };
            // `bad` comes after r and starts before its end
            if bad.start >= r.end || bad.start > bad.end {
                return Ok(false);
            }
            tags.insert(k + 1, (bad, 9));
            // entries behind the bad one stay sorted after r, so the list breaks only at the bad entry
            what = format!("with_tags({:?}) on {} symbols", tags, len);
            !matches!(catch(|| pool[i].0.with_tags(tags.into_iter())), Caught::Panic(_))
        }
        _ => {
            // the list of tags or the mapping fails part-way
            let tags = valid_tags(ctx, len);
            let stop = ctx.range(0, tags.len());
            what = format!("with_tags({:?}) failing at {}", tags, stop);
            let mut k = 0;
            let it = tags.clone().into_iter().chain(std::iter::repeat((len..len, 0))).map(move |t| {
                if k >= stop {
                    inject_panic("tag list");
                }
                k += 1;
                t
            });
            ctx.fault("tag-list-fails");
            let r = catch(|| pool[i].0.with_tags(it.take(stop + 1)));
            let mut ok = matches!(r, Caught::Injected(_));
            if ok && len > 0 && ctx.chance(1, 2) {
                let stop = ctx.below(len);
                what = format!("tokenize with a mapping failing at {}", stop);
                let mut tm: TokenMatcher<u32, u32> = TokenMatcher::new();
                tm.add_pattern(Pattern::MatchRange(0u32, 9).repeat_forever(1), 3);
                let dfa = (&tm).prepare_to_match();
                let mut k = 0;
                ctx.fault("mapping-fails");
                let r = catch(|| {
                    pool[i].0.tokenize(&dfa, |_| {
                        if k == stop {
                            inject_panic("mapping");
                        }
                        k += 1;
                        1u32
                    })
                });
                ok = matches!(r, Caught::Injected(_));
            }
            !ok
        }
    };
    ev!(ctx, "{}: {}", what, if carried_out { "carried out" } else { "refused" });
    if which < 4 {
        ctx.fault("invalid-tagging-request");
    }
    ensure!(!carried_out, "accepted-invalid", "{} was not refused", what);
    expect(u, &pool[i].0, &pool[i].1, &format!("after the refused {}", what))?;
    Ok(true)
}

// ---------------------------------------------------------------------------------------------------------
// C17

pub fn c17(ctx: &Ctx) -> Res<()> {
    some_universe!(ctx, u => c17_on(ctx, &u))
}

/// Token ranges that iterating a tokenizer over `input` finds
fn tokens_of(lazy: &mut Lazy, input: &[usize]) -> Vec<(Range<usize>, u32)> {
    let mut out = vec![];
    let mut pos = 0;
    while pos < input.len() {
        match lazy.run(&input[pos..]).0 {
            Some((l, t)) if l > 0 => {
                out.push((pos..pos + l, t));
                pos += l;
            }
            _ => pos += 1,
        }
    }
    out
}

fn c17_on<S: Sym>(ctx: &Ctx, u: &Universe<S>) -> Res<()> {
    // base symbols are 0..4 of the universe, tags are mapped to 4..8
    let toks = gen_tokens(ctx, 4, 4, 100);
    let nfa = Nfa::of_tokens(&toks);
    let mut lazy = Lazy::new(&nfa);
    let dfa = prepare_tokens::<S, u32>(ctx, u, &toks);
    let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
    let input = gen_input(ctx, &asts, 4, *ctx.pick(&[12, 30, 80]));
    let syms = u.conc(&input);
    let (mut r, k, desc) = base_reader(ctx, &syms);
    ev!(ctx, "tokens {:?} input {:?} from {} ({} delivered)", toks, input, desc, k);
    ctx.sample(|| format!("{} tokens {:?} over {} symbols from {}", u.name, toks, k, desc));
    let leaf: Vec<M> = input[..k].iter().map(|i| M::Leaf(*i)).collect();
    let tags = tokens_of(&mut lazy, &input[..k]);
    let m1 = m_tags(&leaf, &tags);

    // directly from a reader
    let direct: TS<S> = TaggedStream::from_tokenized_reader(&mut r, &dfa);
    expect(u, &direct, &m1, "from_tokenized_reader")?;

    // in two steps
    let (mut r2, _) = SimReader::ending(syms[..k].to_vec(), syms[k..].to_vec());
    let plain: TS<S> = TaggedStream::from_reader(&mut r2);
    expect(u, &plain, &leaf, "from_reader")?;
    let mut cur = plain;
    let mut m = leaf;
    let levels = ctx.range(1, 4);
    for level in 0..levels {
        let (lt, lnfa, ldfa);
        let (lazy2_nfa, d): (&Nfa, &SymbolRangeDfa<S, u32>) = if level == 0 {
            (&nfa, &dfa)
        } else {
            // tokens over tags (and base symbols)
            lt = {
                let mut v = gen_tokens(ctx, u.n(), 3, 80);
                if ctx.chance(1, 2) {
                    let t = 4 + ctx.below(4);
                    v.push((Ast::RepInf(1, Box::new(Ast::Alt(vec![Ast::Lit(vec![t]), Ast::Range(0, 1)]))), 6));
                    if !crate::nfa::tractable(&v, u.n()) {
                        v.pop();
                    }
                }
                v
            };
            lnfa = Nfa::of_tokens(&lt);
            ldfa = prepare_tokens::<S, u32>(ctx, u, &lt);
            (&lnfa, &ldfa)
        };
        let mapped: Vec<usize> = m
            .iter()
            .map(|x| match x {
                M::Leaf(i) => *i,
                M::Tag(t, _) => 4 + (*t as usize % 4),
            })
            .collect();
        let mut lz = Lazy::new(lazy2_nfa);
        let tags = tokens_of(&mut lz, &mapped);
        let want = m_tags(&m, &tags);
        // every element is mapped once, left to right
        let seen: Rc<RefCell<Vec<TagSymbol<S, u32>>>> = Rc::new(RefCell::new(vec![]));
        let s2 = seen.clone();
        let new = cur.tokenize(d, |t| {
            s2.borrow_mut().push(t.clone());
            match t {
                TagSymbol::Untagged(b) => b,
                TagSymbol::Tagged(t, _) => u.syms[4 + (t as usize % 4)].clone(),
            }
        });
        ev!(ctx, "level {}: {:?} -> {:?}", level, mapped, tags);
        expect(u, &new, &want, &format!("tokens at level {}", level))?;
        expect(u, &cur, &m, "the original after tokenizing")?;
        let seen = seen.borrow();
        ensure!(seen.len() == cur.len(), "mapping-calls", "{} mapping calls for {} symbols", seen.len(), cur.len());
        for (i, s) in seen.iter().enumerate() {
            ensure!(*s == cur[i], "mapping-calls", "mapping call {} was given {:?}, the stream has {:?}", i, s, cur[i]);
        }
        ctx.mix(tags.len() as u64 * 10 + level as u64);
        if level > 0 && !tags.is_empty() {
            ctx.nontrivial();
            ctx.probe("second-level-tag");
        }
        cur = new;
        m = want;
    }
    let mut l = vec![];
    leaves(&m, &mut l);
    ensure!(l == input[..k], "lost-symbols", "flattened, the stream is {:?}, it was {:?}", l, &input[..k]);
    Ok(())
}
