//! C25 a read that fails part-way costs nothing but that read

use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;

use concordance::*;

use crate::core::{Ctx, Res};
use crate::env::{catch, inject_panic, Caught};
use crate::srcs::FnReader;
use crate::{ensure, ev, fail};

/// What the source will do: `Some` gives a symbol, `None` fails the request without giving one. It ends after the last.
struct World {
    script: Vec<Option<u32>>,
    /// the symbols that are given
    given: Vec<u32>,
    /// how far in the script the source is
    at: Cell<usize>,
    /// how many symbols it has given
    frontier: Cell<usize>,
    /// failures raised so far
    raised: Cell<usize>,
    /// failures that came out at a caller
    seen: Cell<usize>,
    /// a source that is asked for more than one symbol at a time may fail earlier than the symbol asked for
    ahead: bool,
}

impl World {
    fn next(&self, ctx: &Ctx) -> Option<u32> {
        let at = self.at.get();
        if at >= self.script.len() {
            return None;
        }
        self.at.set(at + 1);
        match self.script[at] {
            None => {
                self.raised.set(self.raised.get() + 1);
                ctx.fault("source-panics");
                inject_panic("source")
            }
            Some(x) => {
                self.frontier.set(self.frontier.get() + 1);
                Some(x)
            }
        }
    }
    /// Whether a request for the symbol at `pos` meets a failure
    fn fails_at(&self, pos: usize) -> bool {
        pos == self.frontier.get() && self.at.get() < self.script.len() && self.script[self.at.get()].is_none()
    }
}

/// A byte stream over the same script
struct PanicRead {
    w: Rc<World>,
    ctx: Ctx,
    most: usize,
}
impl io::Read for PanicRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.w.next(&self.ctx) {
            None => Ok(0),
            Some(x) => {
                buf[0] = x as u8;
                let mut k = 1;
                while k < buf.len().min(self.most) {
                    let at = self.w.at.get();
                    match self.w.script.get(at) {
                        Some(Some(_)) => {
                            buf[k] = self.w.next(&self.ctx).unwrap() as u8;
                            k += 1;
                        }
                        _ => break,
                    }
                }
                Ok(k)
            }
        }
    }
}

struct Sim {
    ctx: Ctx,
    w: Rc<World>,
    /// added by mapping functions
    budget: Cell<usize>,
}

type R<'a> = &'a mut (dyn SymbolReader<u32> + 'a);

impl Sim {
    /// One request at a reader that stands at `pos`; gives the position afterwards
    fn read(&self, what: &str, pos: usize, shift: u32, ask: impl FnOnce() -> Option<u32>) -> Res<usize> {
        let w = &self.w;
        let will_fail = w.fails_at(pos);
        let buffered = pos < w.frontier.get();
        let raised = w.raised.get();
        let got = catch(ask);
        self.ctx.mix(pos as u64 * 4 + will_fail as u64);
        match got {
            Caught::Panic(m) => fail!("unexpected-panic", "{} at {}: {}", what, pos, m),
            Caught::Injected(_) => {
                ev!(self.ctx, "{} at {} -> fails", what, pos);
                w.seen.set(w.seen.get() + 1);
                ensure!(w.raised.get() == raised + 1, "failure-repeated", "{} at {} failed although the source did not", what, pos);
                ensure!(!buffered || w.ahead, "failure-misplaced", "{} at {} asked the source, which has given {} symbols already", what, pos, w.frontier.get());
                self.ctx.nontrivial();
                Ok(pos)
            }
            Caught::Value(v) => {
                ev!(self.ctx, "{} at {} -> {:?}", what, pos, v);
                ensure!(w.raised.get() == raised, "failure-hidden", "{} at {} gave {:?} although the source failed", what, pos, v);
                ensure!(w.ahead || !will_fail, "failure-hidden", "{} at {} gave {:?} without asking the source, which was to fail", what, pos, v);
                let want = w.given.get(pos).map(|x| x + shift);
                ensure!(v == want, "wrong-symbol", "{} at {} gave {:?}, should give {:?} ({} failures so far)", what, pos, v, want, w.seen.get());
                Ok(if v.is_some() { pos + 1 } else { pos })
            }
        }
    }

    /// Uses a reader that stands at `pos`; gives its position afterwards
    fn use_reader(&self, r: R, pos: usize, depth: usize) -> Res<usize> {
        let mut pos = pos;
        let steps = self.ctx.range(1, 5);
        for _ in 0..steps {
            if self.budget.get() == 0 {
                break;
            }
            self.budget.set(self.budget.get() - 1);
            let kinds: &[u32] = if depth == 0 { &[6, 1, 0, 0, 0] } else { &[5, 1, 4, 4, 2] };
            pos = match self.ctx.weighted(kinds) {
                0 => self.read("reading", pos, 0, || r.next_symbol())?,
                1 => self.collect(r, pos)?,
                2 => self.tape(r, pos, depth - 1)?,
                3 => self.split(r, pos, depth - 1)?,
                _ => {
                    let mut b = FnReader(|| r.next_symbol()).map_symbols(|x: u32| x + 1000);
                    let mut p = pos;
                    for _ in 0..self.ctx.range(1, 4) {
                        p = self.read("mapped reading", p, 1000, || b.next_symbol())?;
                    }
                    p
                }
            };
        }
        Ok(pos)
    }

    /// Everything that is left, or everything up to the failure
    fn collect(&self, r: R, pos: usize) -> Res<usize> {
        let w = &self.w;
        let tagged = self.ctx.chance(1, 2);
        let mut lent = FnReader(|| r.next_symbol());
        let got = catch(|| {
            if tagged {
                let s: TaggedStream<u32, u32> = TaggedStream::from_reader(&mut lent);
                (0..s.len()).map(|i| if let TagSymbol::Untagged(x) = s[i] { x } else { u32::MAX }).collect::<Vec<u32>>()
            } else {
                lent.to_vec()
            }
        });
        match got {
            Caught::Panic(m) => fail!("unexpected-panic", "collecting from {}: {}", pos, m),
            Caught::Injected(_) => {
                ev!(self.ctx, "collecting from {} -> fails at {}", pos, w.frontier.get());
                w.seen.set(w.seen.get() + 1);
                self.ctx.nontrivial();
                Ok(w.frontier.get().max(pos))
            }
            Caught::Value(v) => {
                ev!(self.ctx, "collecting from {} -> {:?}", pos, v);
                ensure!(v[..] == w.given[pos.min(w.given.len())..], "wrong-symbol", "collecting from {} gave {:?}, should give {:?}", pos, v, &w.given[pos..]);
                Ok(pos + v.len())
            }
        }
    }

    fn tape(&self, r: R, start: usize, depth: usize) -> Res<usize> {
        let mut t = Tape::new(FnReader(|| r.next_symbol()));
        ev!(self.ctx, "tape at {}", start);
        // positions are counted from the start of the whole stream
        let (mut pos, mut low, mut far) = (start, start, start);
        let mut ended = false;
        for _ in 0..self.ctx.range(3, 30) {
            match self.ctx.weighted(&[8, 4, 1, 1, 2, 1]) {
                0 => {
                    let p = self.read("reading a tape", pos, 0, || t.next_symbol())?;
                    ended = ended || (p == pos && pos == self.w.given.len() && !self.w.fails_at(pos));
                    pos = p;
                    far = far.max(pos);
                }
                1 => {
                    let k = self.ctx.below(pos - low + 1);
                    ev!(self.ctx, "rewind {} from {}", k, pos);
                    if let Caught::Panic(m) = catch(|| t.rewind(k)) {
                        fail!("refused-rewind", "rewinding {} from {} (cut at {}, {} failures so far) was refused: {}", k, pos, low, self.w.seen.get(), m);
                    }
                    pos -= k;
                }
                2 => {
                    t.cut();
                    low = pos;
                }
                3 => {
                    let k = pos - low + 1 + self.ctx.below(3);
                    ensure!(matches!(catch(|| t.rewind(k)), Caught::Panic(_)), "accepted-rewind", "rewinding {} from {} (cut at {}) was accepted", k, pos, low);
                }
                4 => {
                    if depth > 0 {
                        let p = self.use_reader(&mut t, pos, depth)?;
                        pos = p;
                        far = far.max(pos);
                    }
                }
                _ => {
                    let e = t.at_end_of_reader();
                    ensure!(!e || pos == self.w.given.len(), "invented-end", "a tape at {} of {} says it is at the end", pos, self.w.given.len());
                }
            }
            let p = t.get_source_position();
            ensure!(p == pos - start, "position", "a tape that started at {} and stands at {} says it is at {} ({} failures so far)", start, pos, p, self.w.seen.get());
        }
        let _ = ended;
        Ok(far)
    }

    fn split(&self, r: R, start: usize, depth: usize) -> Res<usize> {
        let mut lent = FnReader(|| r.next_symbol());
        let (a, b) = lent.split();
        ev!(self.ctx, "split at {}", start);
        let mut half = [Some(a), Some(b)];
        let mut pos = [start, start];
        for _ in 0..self.ctx.range(3, 30) {
            let i = self.ctx.below(2);
            if half[i].is_none() {
                if half[1 - i].is_none() {
                    break;
                }
                continue;
            }
            match self.ctx.weighted(&[14, 2, 1, 1]) {
                0 => {
                    let h = half[i].as_mut().unwrap();
                    pos[i] = self.read(["reading a first half", "reading a second half"][i], pos[i], 0, || h.next_symbol())?;
                }
                1 => {
                    if depth > 0 {
                        pos[i] = self.use_reader(half[i].as_mut().unwrap(), pos[i], depth)?;
                    }
                }
                2 => {
                    // dropped where it stands, or while a failure passes through whoever owns it
                    ev!(self.ctx, "drop half {} at {}", i, pos[i]);
                    half[i] = None;
                }
                _ => {
                    let h = half[i].take().unwrap();
                    let k = self.ctx.range(1, 8);
                    let got: Rc<RefCell<Vec<u32>>> = Rc::new(RefCell::new(vec![]));
                    let g2 = got.clone();
                    let end = catch(move || {
                        let mut h = h;
                        for _ in 0..k {
                            if let Some(x) = h.next_symbol() {
                                g2.borrow_mut().push(x);
                            }
                        }
                    });
                    let got = got.borrow().clone();
                    match end {
                        Caught::Panic(m) => fail!("unexpected-panic", "a half that is given away at {}: {}", pos[i], m),
                        Caught::Injected(_) => {
                            self.w.seen.set(self.w.seen.get() + 1);
                            self.ctx.fault("half-dropped-by-failure");
                            self.ctx.nontrivial();
                        }
                        Caught::Value(()) => {}
                    }
                    ev!(self.ctx, "half {} is given away at {}, gives {:?}", i, pos[i], got);
                    let to = (pos[i] + got.len()).min(self.w.given.len());
                    ensure!(got[..] == self.w.given[pos[i]..to], "wrong-symbol", "a half given away at {} gives {:?}, should give {:?}", pos[i], got, &self.w.given[pos[i]..to]);
                    pos[i] = to;
                }
            }
        }
        // whichever is left sees all that it has not seen
        if self.ctx.chance(1, 3) {
            for i in 0..2 {
                if let Some(h) = half[i].as_mut() {
                    let mut tries = 0;
                    while pos[i] < self.w.given.len() && tries < self.w.script.len() + 2 {
                        pos[i] = self.read("reading a half to its end", pos[i], 0, || h.next_symbol())?;
                        tries += 1;
                    }
                }
            }
        }
        Ok(pos[0].max(pos[1]))
    }
}

pub fn c25(ctx: &Ctx) -> Res<()> {
    let n = ctx.size(8, 30, 120);
    let every = ctx.range(2, 12) as u64;
    let mut script = vec![];
    let mut given = vec![];
    for i in 0..n {
        while ctx.chance(1, every) {
            script.push(None);
        }
        script.push(Some(i as u32 % 251));
        given.push(i as u32 % 251);
    }
    if ctx.chance(1, 4) {
        script.push(None);
    }
    let kind = ctx.below(4);
    ctx.sample(|| format!("{} symbols, {} failures, source {}", n, script.len() - n, kind));
    let w = Rc::new(World { script, given, at: Cell::new(0), frontier: Cell::new(0), raised: Cell::new(0), seen: Cell::new(0), ahead: kind == 2 });
    let sim = Sim { ctx: ctx.clone(), w: w.clone(), budget: Cell::new(200) };
    let (w2, c2) = (w.clone(), ctx.clone());
    let plain = FnReader(move || w2.next(&c2));
    let mut base: Box<dyn SymbolReader<u32>> = match kind {
        0 => Box::new(plain),
        1 => Box::new(plain.map_symbols(|x: u32| x)),
        2 => {
            let mut b = ByteSymbolReader::new(io::Read::bytes(PanicRead { w: w.clone(), ctx: ctx.clone(), most: ctx.range(1, 9) }));
            Box::new(FnReader(move || b.next_symbol().map(|x| x as u32)))
        }
        _ => {
            let b: Box<dyn SymbolReader<u32>> = Box::new(plain);
            Box::new(b)
        }
    };
    let mut pos = 0;
    for _ in 0..ctx.range(1, 4) {
        pos = sim.use_reader(&mut *base, pos, 3)?;
    }
    // in the end everything has been given, in spite of the failures
    let mut tries = 0;
    while pos < n && tries < w.script.len() + 2 {
        pos = sim.read("reading on", pos, 0, || base.next_symbol())?;
        tries += 1;
    }
    ensure!(pos == n, "symbols-lost", "{} of {} symbols came out", pos, n);
    ensure!(w.seen.get() == w.raised.get(), "failure-hidden", "the source failed {} times, callers saw {}", w.raised.get(), w.seen.get());
    Ok(())
}
