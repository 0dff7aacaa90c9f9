//! Simulated sources (symbol readers, byte streams, storage) and the stacks of real readers put on top of them.

use std::any::Any;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

use concordance::*;

use crate::core::Ctx;
use crate::env::yield_now;
use crate::syms::Sym;

/// What a simulated source was asked
#[derive(Clone, Debug, Default)]
pub struct SrcLog {
    /// calls of next_symbol
    pub pulls: usize,
    /// symbols handed out
    pub given: usize,
    /// reports of "no symbol"
    pub nones: usize,
    /// calls made after the first report of "no symbol"
    pub after_none: usize,
    /// hard errors and transient ends (byte streams)
    pub events: usize,
}
pub type Log = Rc<RefCell<SrcLog>>;

pub type Dyn<S> = Box<dyn SymbolReader<S>>;

/// A scripted symbol source. `None` entries are reports of "no symbol"; after the script it repeats `tail` for
/// ever, or reports "no symbol" for ever.
pub struct SimReader<S> {
    script: Vec<Option<S>>,
    at: usize,
    tail: Option<S>,
    log: Log,
}

impl<S: Clone> SimReader<S> {
    pub fn new(script: Vec<Option<S>>, tail: Option<S>) -> (SimReader<S>, Log) {
        let log: Log = Rc::new(RefCell::new(SrcLog::default()));
        (SimReader { script, at: 0, tail, log: log.clone() }, log)
    }
    /// Delivers `syms`, then ends; asked again it would deliver `poison`
    pub fn ending(syms: Vec<S>, poison: Vec<S>) -> (SimReader<S>, Log) {
        let mut script: Vec<Option<S>> = syms.into_iter().map(Some).collect();
        script.push(None);
        script.extend(poison.into_iter().map(Some));
        SimReader::new(script, None)
    }
}

impl<S: Clone> SymbolReader<S> for SimReader<S> {
    fn next_symbol(&mut self) -> Option<S> {
        yield_now();
        let mut l = self.log.borrow_mut();
        l.pulls += 1;
        if l.nones > 0 {
            l.after_none += 1;
        }
        let r = if self.at < self.script.len() {
            self.at += 1;
            self.script[self.at - 1].clone()
        } else {
            self.tail.clone()
        };
        match r {
            Some(_) => l.given += 1,
            None => l.nones += 1,
        }
        r
    }
}

/// A source that makes its symbols on the fly
pub struct FnReader<F>(pub F);
impl<S, F: FnMut() -> Option<S>> SymbolReader<S> for FnReader<F> {
    fn next_symbol(&mut self) -> Option<S> {
        (self.0)()
    }
}

/// A source for the entry points that take one
pub struct Src<R>(pub R);
impl<'a, S, R: SymbolReader<S> + 'a> SymbolSource<'a, S> for Src<R> {
    type SymbolReader = R;
    fn read_symbols(self) -> R {
        self.0
    }
}

// ---------------------------------------------------------------------------------------------------------
// Byte streams

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Eintr,
    WouldBlock,
    Hard,
    ZeroRead,
}

/// A simulated byte stream: fragments its reads and fails between bytes as planned
pub struct SimRead {
    pub data: Vec<u8>,
    pub at: usize,
    /// faults raised before the byte at the given offset is delivered
    pub plan: Vec<(usize, Fault)>,
    pub plan_at: usize,
    pub ctx: Ctx,
    pub log: Log,
    pub fragment: bool,
}

impl SimRead {
    /// `errors`: whether hard errors, would-block and transient ends may be planned
    pub fn draw(ctx: &Ctx, data: Vec<u8>, errors: bool) -> (SimRead, Log) {
        let mut plan = vec![];
        let rate = *ctx.pick(&[0u64, 1, 3, 8]);
        if rate > 0 {
            for i in 0..=data.len() {
                let mut k = 0;
                while k < 3 && ctx.chance(rate, 20) {
                    let f = if errors {
                        match ctx.weighted(&[4, 2, 2, 2]) {
                            0 => Fault::Eintr,
                            1 => Fault::WouldBlock,
                            2 => Fault::Hard,
                            _ => Fault::ZeroRead,
                        }
                    } else {
                        Fault::Eintr
                    };
                    plan.push((i, f));
                    k += 1;
                }
            }
        }
        let log: Log = Rc::new(RefCell::new(SrcLog::default()));
        (
            SimRead { data, at: 0, plan, plan_at: 0, ctx: ctx.clone(), log: log.clone(), fragment: ctx.chance(2, 3) },
            log,
        )
    }
    /// Number of bytes delivered before the first report of no symbol
    pub fn until_none(&self) -> usize {
        self.plan.iter().find(|(_, f)| *f != Fault::Eintr).map(|(i, _)| *i).unwrap_or(self.data.len())
    }
}

impl io::Read for SimRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        yield_now();
        let mut l = self.log.borrow_mut();
        l.pulls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.plan_at < self.plan.len() && self.plan[self.plan_at].0 <= self.at {
            let f = self.plan[self.plan_at].1;
            self.plan_at += 1;
            return match f {
                Fault::Eintr => {
                    self.ctx.fault("read-eintr");
                    Err(io::Error::from(io::ErrorKind::Interrupted))
                }
                Fault::WouldBlock => {
                    self.ctx.fault("read-would-block");
                    l.events += 1;
                    Err(io::Error::from(io::ErrorKind::WouldBlock))
                }
                Fault::Hard => {
                    self.ctx.fault("read-io-error");
                    l.events += 1;
                    Err(io::Error::new(io::ErrorKind::Other, "simulated disk error"))
                }
                Fault::ZeroRead => {
                    self.ctx.fault("read-transient-eof");
                    l.events += 1;
                    Ok(0)
                }
            };
        }
        let limit = if self.plan_at < self.plan.len() { self.plan[self.plan_at].0.min(self.data.len()) } else { self.data.len() };
        let avail = limit - self.at;
        if avail == 0 {
            l.events += 1;
            l.nones += 1;
            return Ok(0);
        }
        let mut k = avail.min(buf.len());
        if self.fragment && k > 1 {
            let short = self.ctx.range(1, k);
            if short < k {
                self.ctx.fault("read-short");
            }
            k = short;
        }
        buf[..k].copy_from_slice(&self.data[self.at..self.at + k]);
        self.at += k;
        l.given += k;
        Ok(k)
    }
}

// ---------------------------------------------------------------------------------------------------------
// Stacks of real readers

struct OwnedIter<S: 'static> {
    it: std::slice::Iter<'static, S>,
    _v: Box<[S]>,
}
impl<S: Clone> SymbolReader<S> for OwnedIter<S> {
    fn next_symbol(&mut self) -> Option<S> {
        // the library's reader for slice iterators
        SymbolReader::next_symbol(&mut self.it)
    }
}
pub fn slice_reader<S: Clone + 'static>(v: Vec<S>) -> Dyn<S> {
    let b = v.into_boxed_slice();
    let s: &'static [S] = unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) };
    Box::new(OwnedIter { it: s.iter(), _v: b })
}

struct OwnedChars {
    it: std::str::Chars<'static>,
    _s: Box<str>,
}
impl SymbolReader<char> for OwnedChars {
    fn next_symbol(&mut self) -> Option<char> {
        SymbolReader::next_symbol(&mut self.it)
    }
}
pub fn chars_reader(s: String) -> Dyn<char> {
    let b = s.into_boxed_str();
    let st: &'static str = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(b.as_ptr(), b.len())) };
    Box::new(OwnedChars { it: st.read_symbols(), _s: b })
}

/// Passes a value of one concrete type where another is expected, when they are the same type
pub fn same<A: 'static, B: 'static>(a: A) -> Option<B> {
    let any: Box<dyn Any> = Box::new(a);
    any.downcast::<B>().ok().map(|b| *b)
}

/// One half of a split reader that owns the reader it came from. The other half is dropped at once, read to
/// the end, or kept unread, as drawn.
pub struct OwnedSplit<S: Clone + 'static> {
    pub half: Option<SplitSymbolReader<'static, S>>,
    other: Option<SplitSymbolReader<'static, S>>,
    other_reads: u8,
    raw: *mut Dyn<S>,
}
impl<S: Clone + 'static> OwnedSplit<S> {
    pub fn new(src: Dyn<S>, which: bool, other_mode: u8) -> OwnedSplit<S> {
        let raw = Box::into_raw(Box::new(src));
        let (a, b) = unsafe { (*raw).split() };
        let (h, o) = if which { (b, a) } else { (a, b) };
        OwnedSplit { half: Some(h), other: if other_mode == 0 { None } else { Some(o) }, other_reads: other_mode, raw }
    }
}
impl<S: Clone + 'static> SymbolReader<S> for OwnedSplit<S> {
    fn next_symbol(&mut self) -> Option<S> {
        let r = self.half.as_mut().unwrap().next_symbol();
        // the other half follows
        if self.other_reads == 2 {
            if let Some(o) = self.other.as_mut() {
                let _ = o.next_symbol();
            }
        }
        r
    }
}
impl<S: Clone + 'static> Drop for OwnedSplit<S> {
    fn drop(&mut self) {
        self.half = None;
        self.other = None;
        unsafe { drop(Box::from_raw(self.raw)) }
    }
}

/// A reader of `syms` made from the library's own readers (the last one simulated), and what it should deliver
/// before its first report of no symbol
pub fn base_reader<S: Sym>(ctx: &Ctx, syms: &[S]) -> (Dyn<S>, usize, &'static str) {
    let n = syms.len();
    match ctx.below(8) {
        0 => (slice_reader(syms.to_vec()), n, "iter"),
        1 => (Box::new(VecReader::from_vec(syms.to_vec())), n, "vecreader"),
        2 => {
            // interspersed items that are filtered out
            let mut items: Vec<Option<S>> = vec![];
            for s in syms {
                while ctx.chance(1, 4) {
                    items.push(None);
                }
                items.push(Some(s.clone()));
            }
            (Box::new(items.into_iter().filter_map(|x| x)), n, "filtermap")
        }
        3 => {
            if let Some(chars) = same::<Vec<S>, Vec<char>>(syms.to_vec()) {
                let s: String = chars.into_iter().collect();
                if let Some(r) = same::<Dyn<char>, Dyn<S>>(chars_reader(s)) {
                    return (r, n, "chars");
                }
            }
            if let Some(bytes) = same::<Vec<S>, Vec<u8>>(syms.to_vec()) {
                let (r, _) = SimRead::draw(ctx, bytes, true);
                let k = r.until_none();
                let b: Dyn<u8> = Box::new(ByteSymbolReader::from(r));
                if let Some(r) = same::<Dyn<u8>, Dyn<S>>(b) {
                    return (r, k, "bytes");
                }
            }
            (slice_reader(syms.to_vec()), n, "iter")
        }
        4 => {
            let (r, _) = SimReader::ending(syms.to_vec(), vec![]);
            (Box::new(r), n, "sim")
        }
        7 => {
            // an iterator that comes to an end and goes on if asked again, filtered
            let k = ctx.range(0, n);
            ctx.fault("source-stall");
            let mut script: Vec<Option<S>> = syms.iter().cloned().map(Some).collect();
            script.insert(k, None);
            let mut at = 0;
            let it = std::iter::from_fn(move || {
                at += 1;
                script.get(at - 1).cloned().unwrap_or(None)
            });
            (Box::new(it.filter_map(|x| Some(x))), k, "filtermap-stall")
        }
        5 => {
            // the source is cut off early; asked again it would go on
            let k = ctx.range(0, n);
            ctx.fault("source-cut-off");
            let (r, _) = SimReader::ending(syms[..k].to_vec(), syms[k..].to_vec());
            (Box::new(r), k, "sim-cut")
        }
        _ => {
            // stalls: reports no symbol once and then resumes
            let k = ctx.range(0, n);
            ctx.fault("source-stall");
            let mut script: Vec<Option<S>> = syms.iter().cloned().map(Some).collect();
            script.insert(k, None);
            let (r, _) = SimReader::new(script, None);
            (Box::new(r), k, "sim-stall")
        }
    }
}

/// Puts `k` layers of the library's adaptors on top of a reader; none of them changes the symbols
pub fn stack<S: Sym>(ctx: &Ctx, mut r: Dyn<S>, k: usize, desc: &mut String) -> Dyn<S> {
    for _ in 0..k {
        r = match ctx.below(5) {
            0 => {
                desc.push_str("+box");
                Box::new(r)
            }
            1 => {
                desc.push_str("+map");
                Box::new(r.map_symbols(|x: S| x))
            }
            2 => {
                desc.push_str("+tape");
                let mut t = Tape::new(r);
                if ctx.chance(1, 2) {
                    // look ahead and go back
                    let want = ctx.size(3, 8, 30);
                    let mut got = 0;
                    for _ in 0..want {
                        if t.next_symbol().is_some() {
                            got += 1;
                        } else {
                            break;
                        }
                    }
                    t.rewind(got);
                    if ctx.chance(1, 2) {
                        t.cut();
                    }
                }
                Box::new(t)
            }
            3 => {
                desc.push_str("+split");
                Box::new(OwnedSplit::new(r, ctx.chance(1, 2), ctx.below(3) as u8))
            }
            _ => {
                desc.push_str("+fnmap");
                let mut f = r;
                Box::new(FnReader(move || f.next_symbol()).map_symbols(|x: S| x))
            }
        };
    }
    r
}
