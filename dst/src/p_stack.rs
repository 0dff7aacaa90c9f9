//! C26 readers and tokenizers stacked on one another

use std::io::Read;
use std::rc::Rc;

use concordance::*;

use crate::core::{Ctx, Res};
use crate::env::{catch, Caught};
use crate::nfa::{Lazy, Nfa};
use crate::p_match::{gen_tokens, prepare_tokens};
use crate::pat::*;
use crate::srcs::*;
use crate::syms::{u32s, Universe};
use crate::{ensure, ev, fail};

/// What a reader answers, request by request; no symbol for ever after
type Seq = Vec<Option<usize>>;

struct Matcher {
    toks: Vec<(Ast, u32)>,
    nfa: Nfa,
    dfa: Rc<SymbolRangeDfa<u32, u32>>,
    /// an input and its answer, asked now and then from within other requests
    probe: (Vec<u32>, Option<usize>),
}

struct World {
    u: Rc<Universe<u32>>,
    pool: Vec<Rc<Matcher>>,
}

/// A reader and what it should answer from now on
struct Consumer {
    r: Dyn<u32>,
    seq: Seq,
    pos: usize,
    desc: String,
}

struct Halves {
    raw: *mut Dyn<u32>,
}
impl Drop for Halves {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.raw)) }
    }
}
/// A half that shares ownership of what was split
struct Half {
    half: SplitSymbolReader<'static, u32>,
    _keep: Rc<Halves>,
}
impl SymbolReader<u32> for Half {
    fn next_symbol(&mut self) -> Option<u32> {
        self.half.next_symbol()
    }
}

/// A tokenizer that shares ownership of its matcher
struct Tok {
    t: Tokenizer<'static, u32, u32, Dyn<u32>>,
    _dfa: Rc<SymbolRangeDfa<u32, u32>>,
}
impl Tok {
    fn new(r: Dyn<u32>, m: &Matcher) -> Tok {
        let dfa: &'static SymbolRangeDfa<u32, u32> = unsafe { &*Rc::as_ptr(&m.dfa) };
        Tok { t: Tokenizer::new_prepared(r, dfa), _dfa: m.dfa.clone() }
    }
}
impl SymbolReader<u32> for Tok {
    fn next_symbol(&mut self) -> Option<u32> {
        self.t.next_symbol()
    }
}
impl Iterator for Tok {
    type Item = (std::ops::Range<usize>, u32);
    fn next(&mut self) -> Option<Self::Item> {
        self.t.next()
    }
}

fn until_none(seq: &[Option<usize>]) -> Vec<usize> {
    seq.iter().take_while(|x| x.is_some()).map(|x| x.unwrap()).collect()
}

/// (start, length, token) of the tokens from the left; goes on past symbols that start none if `skipping`
fn tokens(m: &Matcher, input: &[usize], skipping: bool) -> Vec<(usize, usize, u32)> {
    let mut lazy = Lazy::new(&m.nfa);
    let mut pos = 0;
    let mut out = vec![];
    while pos < input.len() {
        match lazy.run(&input[pos..]).0.filter(|w| w.0 > 0) {
            Some((l, t)) => {
                out.push((pos, l, t));
                pos += l;
            }
            None if skipping => pos += 1,
            None => break,
        }
    }
    out
}

impl World {
    fn n(&self) -> usize {
        self.u.n()
    }

    fn base(&self, ctx: &Ctx) -> (Dyn<u32>, Seq, &'static str) {
        let n = self.n();
        let m = ctx.pick(&self.pool).clone();
        let asts: Vec<&Ast> = m.toks.iter().map(|(p, _)| p).collect();
        let mut idx = vec![];
        for _ in 0..ctx.range(1, 4) {
            idx.extend(gen_input(ctx, &asts, n, 40));
        }
        let conc = self.u.conc(&idx);
        let whole: Seq = idx.iter().map(|i| Some(*i)).collect();
        match ctx.below(6) {
            0 => (slice_reader(conc), whole, "iter"),
            1 => (Box::new(VecReader::from_vec(conc)), whole, "vecreader"),
            2 => {
                let mut items: Vec<Option<u32>> = vec![];
                for s in conc {
                    while ctx.chance(1, 4) {
                        items.push(None);
                    }
                    items.push(Some(s));
                }
                (Box::new(items.into_iter().filter_map(|x| x)), whole, "filtermap")
            }
            3 => {
                let u = self.u.clone();
                let bytes: Vec<u8> = idx.iter().map(|i| *i as u8).collect();
                let errors = ctx.chance(1, 2);
                let (r, _) = SimRead::draw(ctx, bytes, errors);
                let k = r.until_none();
                let b = ByteSymbolReader::new(r.bytes());
                (Box::new(Tape::new(b.map_symbols(move |x: u8| u.syms[x as usize]))), whole[..k].to_vec(), "bytes+tape")
            }
            4 => {
                let u = self.u.clone();
                let s: String = idx.iter().map(|i| std::char::from_u32(0x3b1 + *i as u32).unwrap()).collect();
                (Box::new(chars_reader(s).map_symbols(move |c: char| u.syms[c as usize - 0x3b1])), whole, "chars")
            }
            _ => {
                let mut seq = vec![];
                for x in whole {
                    while ctx.chance(1, 15) {
                        ctx.fault("source-stall");
                        seq.push(None);
                    }
                    seq.push(x);
                }
                let script = seq.iter().map(|x| x.map(|i| self.u.syms[i])).collect();
                let (r, _) = SimReader::new(script, None);
                (Box::new(r), seq, "sim")
            }
        }
    }

    /// A function on symbols; now and then it runs a match of its own
    fn mapping(&self, ctx: &Ctx) -> (Vec<usize>, Box<dyn FnMut(u32) -> u32>) {
        let n = self.n();
        let table: Vec<usize> = match ctx.below(3) {
            0 => (0..n).collect(),
            1 => {
                let k = ctx.range(1, n - 1);
                (0..n).map(|i| (i + k) % n).collect()
            }
            _ => (0..n).map(|_| ctx.below(n)).collect(),
        };
        let (u, t) = (self.u.clone(), table.clone());
        let m = ctx.pick(&self.pool).clone();
        let ask = ctx.chance(1, 4);
        let f = move |x: u32| {
            if ask {
                let got = matches_prepared(&m.probe.0, &m.dfa);
                if got != m.probe.1 {
                    panic!("a match run by a mapping function gave {:?}, should give {:?}", got, m.probe.1);
                }
            }
            u.syms[t[u.index_of(&x).expect("symbol of the universe")]]
        };
        (table, Box::new(f))
    }

    /// Adds one layer
    fn layer(&self, ctx: &Ctx, c: Consumer) -> Consumer {
        let Consumer { r, seq, pos, mut desc } = c;
        let n = self.n();
        let rest: Seq = seq[pos.min(seq.len())..].to_vec();
        let (r, seq): (Dyn<u32>, Seq) = match ctx.weighted(&[10, 3, 2, 2, 3, 2, 5, 2]) {
            0 => {
                // a tokenizer, read as a stream of tokens
                let m = ctx.pick(&self.pool).clone();
                let toks = tokens(&m, &until_none(&rest), false);
                let seq = toks.iter().map(|t| Some(t.2 as usize % n)).collect();
                let direct = m.toks.iter().all(|t| (t.1 as usize) < n && self.u.syms[t.1 as usize] == t.1) && ctx.chance(1, 2);
                let u = self.u.clone();
                ctx.probe("token-stream");
                desc.push_str("+tokenizer");
                if direct {
                    (Box::new(Tok::new(r, &m)), seq)
                } else if ctx.chance(1, 2) {
                    (Box::new(Tok::new(r, &m).map_symbols(move |t: u32| u.syms[t as usize % n])), seq)
                } else {
                    let owned = prepare_tokens::<u32, u32>(ctx, &self.u, &m.toks);
                    (Box::new(Tokenizer::new(r, owned).map_symbols(move |t: u32| u.syms[t as usize % n])), seq)
                }
            }
            1 => {
                desc.push_str("+map");
                let (t, f) = self.mapping(ctx);
                (Box::new(r.map_symbols(f)), rest.iter().map(|x| x.map(|i| t[i])).collect())
            }
            2 => {
                desc.push_str("+tape");
                let mut t = Tape::new(r);
                let seq = until_none(&rest);
                if ctx.chance(1, 2) {
                    let mut k = 0;
                    for _ in 0..ctx.range(1, 12) {
                        k += t.next_symbol().is_some() as usize;
                    }
                    let back = ctx.range(0, k);
                    t.rewind(back);
                    (Box::new(t), seq[(k - back).min(seq.len())..].iter().map(|i| Some(*i)).collect())
                } else {
                    (Box::new(t), seq.into_iter().map(Some).collect())
                }
            }
            3 => {
                desc.push_str("+box");
                (Box::new(r), rest)
            }
            4 => {
                // an iterator's filter
                desc.push_str("+filter");
                let (t, mut f) = self.mapping(ctx);
                let gone = ctx.below(n);
                let u = self.u.clone();
                let mut r = r;
                let it = std::iter::from_fn(move || r.next_symbol());
                let it = it.filter_map(move |x| if u.syms[gone] == x { None } else { Some(f(x)) });
                (Box::new(it), rest.iter().filter(|x| **x != Some(gone)).map(|x| x.map(|i| t[i])).collect())
            }
            5 => {
                // collected and read again
                desc.push_str("+collected");
                let mut r = r;
                let v = r.to_vec();
                (Box::new(VecReader::from_vec(v)), until_none(&rest).into_iter().map(Some).collect())
            }
            6 => {
                // a tokenizer, read as an iterator that goes past what does not match
                let m = ctx.pick(&self.pool).clone();
                let toks = tokens(&m, &until_none(&rest), true);
                ctx.probe("token-iterator");
                desc.push_str("+iterated");
                let modulus = ctx.range(2, 9);
                let u = self.u.clone();
                let it = Tok::new(r, &m).filter_map(move |(range, t)| {
                    if range.start % modulus == 1 {
                        None
                    } else {
                        Some(u.syms[(t as usize + (range.end - range.start) * 3 + range.start) % n])
                    }
                });
                let seq = toks.iter().filter(|t| t.0 % modulus != 1).map(|t| Some((t.2 as usize + t.1 * 3 + t.0) % n)).collect();
                (Box::new(it), seq)
            }
            _ => {
                // a tagged stream: tokens become tags, the rest stays
                let m = ctx.pick(&self.pool).clone();
                let input = until_none(&rest);
                let toks = tokens(&m, &input, true);
                ctx.probe("tagged-layer");
                desc.push_str("+tagged");
                let mut r = r;
                let tagged: TaggedStream<u32, u32> = TaggedStream::from_reader(&mut r);
                let tagged = tagged.tokenize(&m.dfa, |s| if let TagSymbol::Untagged(x) = s { x } else { panic!("tag in an untagged stream") });
                let u = self.u.clone();
                let flat: Vec<u32> = tagged
                    .read_symbols()
                    .map_symbols(|s| match s {
                        TagSymbol::Untagged(x) => x,
                        TagSymbol::Tagged(t, inside) => u.syms[(t as usize + inside.len()) % n],
                    })
                    .to_vec();
                let mut seq = vec![];
                let mut done = 0;
                for (s, l, t) in toks {
                    seq.extend(input[done..s].iter().map(|i| Some(*i)));
                    seq.push(Some((t as usize + l) % n));
                    done = s + l;
                }
                seq.extend(input[done..].iter().map(|i| Some(*i)));
                (slice_reader(flat), seq)
            }
        };
        Consumer { r, seq, pos: 0, desc }
    }

    fn read(&self, ctx: &Ctx, who: usize, c: &mut Consumer) -> Res<()> {
        let got = c.r.next_symbol();
        let want = c.seq.get(c.pos).cloned().unwrap_or(None).map(|i| self.u.syms[i]);
        ev!(ctx, "{} ({}) at {} -> {:?}", who, c.desc, c.pos, got);
        ctx.mix(((who as u64) << 32) | c.pos as u64);
        ensure!(got == want, "wrong-symbol", "reader {} ({}) at {} gave {:?}, should give {:?}", who, c.desc, c.pos, got, want);
        c.pos += 1;
        Ok(())
    }

    /// The last thing that is done with a reader
    fn finish(&self, ctx: &Ctx, who: usize, c: Consumer) -> Res<()> {
        let Consumer { mut r, seq, pos, desc } = c;
        let rest = until_none(&seq[pos.min(seq.len())..]);
        let m = ctx.pick(&self.pool).clone();
        match ctx.below(4) {
            0 => {
                let got = r.to_vec();
                ev!(ctx, "{} ({}) collected -> {:?}", who, desc, got);
                ensure!(got == self.u.conc(&rest), "wrong-symbol", "collecting reader {} ({}) from {} gave {:?}, should give {:?}", who, desc, pos, got, self.u.conc(&rest));
            }
            1 => {
                let want = Lazy::new(&m.nfa).run(&rest).0;
                let got = match match_pattern(m.dfa.start(), &mut r) {
                    Accept(l, t) => Some((l, *t)),
                    Reject => None,
                    More(_) => fail!("no-verdict", "matching reader {} ({}) came to no verdict", who, desc),
                };
                ev!(ctx, "{} ({}) matched -> {:?}", who, desc, got);
                ensure!(got == want, "wrong-match", "matching reader {} ({}) from {} against {:?} gave {:?}, should give {:?}", who, desc, pos, m.toks, got, want);
            }
            2 => {
                let want = Lazy::new(&m.nfa).run(&rest).0.map(|w| w.0);
                let got = matches_prepared(Src(r), &m.dfa);
                ensure!(got == want, "wrong-match", "matching reader {} ({}) from {} against {:?} gave {:?}, should give {:?}", who, desc, pos, m.toks, got, want);
            }
            _ => {
                let want: Vec<_> = tokens(&m, &rest, true).into_iter().map(|(s, l, t)| (s..s + l, t)).collect();
                let got: Vec<_> = Tok::new(r, &m).collect();
                ev!(ctx, "{} ({}) tokenized -> {:?}", who, desc, got);
                ensure!(got == want, "wrong-token", "tokenizing reader {} ({}) from {} with {:?} gave {:?}, should give {:?}", who, desc, pos, m.toks, got, want);
            }
        }
        Ok(())
    }
}

pub fn c26(ctx: &Ctx) -> Res<()> {
    let u = u32s(ctx);
    let n = ctx.range(2, u.n());
    let u = Universe { syms: u.syms[..n].to_vec(), name: u.name };
    let mut pool = vec![];
    for _ in 0..ctx.range(1, 3) {
        let toks = gen_tokens(ctx, n, 4, 90);
        let dfa = prepare_tokens::<u32, u32>(ctx, &u, &toks);
        let nfa = Nfa::of_tokens(&toks);
        let asts: Vec<&Ast> = toks.iter().map(|(p, _)| p).collect();
        let input = gen_input(ctx, &asts, n, 12);
        let answer = Lazy::new(&nfa).run(&input).0.map(|w| w.0);
        pool.push(Rc::new(Matcher { probe: (u.conc(&input), answer), toks, nfa, dfa: Rc::new(dfa) }));
    }
    let w = World { u: Rc::new(u), pool };
    let (r, seq, name) = w.base(ctx);
    ctx.sample(|| format!("{} {} symbols {:?}, matchers {:?}", name, w.u.name, seq, w.pool.iter().map(|m| &m.toks).collect::<Vec<_>>()));
    let mut all = vec![Consumer { r, seq, pos: 0, desc: name.to_string() }];
    let mut layers = 0;
    let most = *ctx.pick(&[3, 5, 8, 12]);
    let weights = ctx.swarm([8, 6, 3, 1, 1]);
    let whole = catch(|| -> Res<()> {
        for _ in 0..ctx.below(4) {
            layers += 1;
            let c = w.layer(ctx, all.pop().unwrap());
            ev!(ctx, "layer: {} gives {:?}", c.desc, c.seq);
            all.push(c);
        }
        for _ in 0..ctx.range(4, 90) {
            if all.is_empty() {
                break;
            }
            let i = ctx.below(all.len());
            match ctx.weighted(&weights) {
                0 => {
                    for _ in 0..ctx.range(1, 6) {
                        if all[i].pos < all[i].seq.len() + 3 {
                            w.read(ctx, i, &mut all[i])?;
                        }
                    }
                }
                1 => {
                    if layers < most {
                        layers += 1;
                        let c = all.remove(i);
                        let c = w.layer(ctx, c);
                        ev!(ctx, "layer: {} gives {:?}", c.desc, c.seq);
                        all.insert(i, c);
                    }
                }
                2 => {
                    if all.len() < 4 {
                        let Consumer { r, seq, pos, desc } = all.remove(i);
                        let seq: Seq = seq[pos.min(seq.len())..].to_vec();
                        let raw = Box::into_raw(Box::new(r));
                        let keep = Rc::new(Halves { raw });
                        let (a, b) = unsafe { (*raw).split() };
                        ev!(ctx, "split: {}", desc);
                        for (half, tag) in vec![(a, "+first"), (b, "+second")] {
                            all.push(Consumer { r: Box::new(Half { half, _keep: keep.clone() }), seq: seq.clone(), pos: 0, desc: desc.clone() + tag });
                        }
                    }
                }
                3 => {
                    let c = all.remove(i);
                    w.finish(ctx, i, c)?;
                    ctx.probe("finished-reader");
                }
                _ => {
                    let c = all.remove(i);
                    ev!(ctx, "drop: {}", c.desc);
                }
            }
        }
        while let Some(mut c) = all.pop() {
            if ctx.chance(1, 3) {
                w.finish(ctx, all.len(), c)?;
            } else {
                while c.pos < c.seq.len() + 2 {
                    w.read(ctx, all.len(), &mut c)?;
                }
            }
        }
        Ok(())
    });
    if layers >= 2 {
        ctx.nontrivial();
    }
    match whole {
        Caught::Value(r) => r,
        Caught::Panic(m) => fail!("panic", "{}", m),
        Caught::Injected(_) => fail!("panic", "unexpected failure"),
    }
}
