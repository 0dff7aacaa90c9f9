//! C07 both halves see the whole stream, C08 dropping halves

use concordance::*;

use crate::core::{Ctx, Res};
use crate::p_tape::at_scale;
use crate::srcs::*;
use crate::{ensure, ev, fail};

/// Symbol carrying its place in the source
type S = u32;

struct Node {
    /// on the heap at a fixed address: its halves borrow it
    reader: Option<Box<Dyn<S>>>,
    parent: Option<usize>,
    /// live halves of this node
    halves: Vec<usize>,
    /// number of symbols of the source before this node's position
    pos: usize,
    /// reports of no symbol since the last symbol
    nones: usize,
    /// reports of no symbol that were given before this reader was split off
    skipped: usize,
}

struct Tree {
    nodes: Vec<Node>,
    n: usize,
    /// number of reports of no symbol planned before symbol i
    gaps: Vec<usize>,
    /// halves must meet every report of no symbol, not only no more than there were
    exact: bool,
}

impl Tree {
    fn readable(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].reader.is_some() && self.nodes[*i].halves.is_empty()).collect()
    }

    fn read(&mut self, ctx: &Ctx, i: usize) -> Res<()> {
        let r = self.nodes[i].reader.as_mut().unwrap().next_symbol();
        let node = &mut self.nodes[i];
        ev!(ctx, "read {} at {} -> {:?}", i, node.pos, r);
        ctx.mix((i * 1000 + node.pos) as u64 ^ r.is_some() as u64);
        match r {
            Some(x) => {
                ensure!(
                    node.pos < self.n && x == node.pos as u32,
                    "wrong-symbol",
                    "reader {} gave symbol {} of the stream, its next one is {} of {}",
                    i,
                    x,
                    node.pos,
                    self.n
                );
                if self.exact {
                    ensure!(
                        node.nones + node.skipped == self.gaps[node.pos],
                        "missed-report",
                        "reader {} reported no symbol {} times before symbol {}, the source {} times",
                        i,
                        node.nones + node.skipped,
                        node.pos,
                        self.gaps[node.pos]
                    );
                }
                node.pos += 1;
                node.nones = 0;
                node.skipped = 0;
            }
            None => {
                node.nones += 1;
                if node.pos < self.n {
                    ensure!(
                        node.nones + if self.exact { node.skipped } else { 0 } <= self.gaps[node.pos],
                        "invented-end",
                        "reader {} reported no symbol {} times before symbol {}, the source {} times",
                        i,
                        node.nones,
                        node.pos,
                        self.gaps[node.pos]
                    );
                }
            }
        }
        Ok(())
    }

    fn split(&mut self, ctx: &Ctx, i: usize) {
        let p: *mut Dyn<S> = &mut **self.nodes[i].reader.as_mut().unwrap();
        // sound as long as the halves are dropped before the node, which `close` sees to
        let (a, b) = unsafe { (*p).split() };
        let pos = self.nodes[i].pos;
        let skipped = self.nodes[i].nones + self.nodes[i].skipped;
        ev!(ctx, "split {} at {} into {} and {}", i, pos, self.nodes.len(), self.nodes.len() + 1);
        for h in [a, b] {
            let k = self.nodes.len();
            self.nodes.push(Node { reader: Some(Box::new(Box::new(h))), parent: Some(i), halves: vec![], pos, nones: 0, skipped });
            self.nodes[i].halves.push(k);
        }
    }

    /// Drops a half that is not itself split
    fn close(&mut self, ctx: &Ctx, i: usize) {
        ev!(ctx, "drop {} at {}", i, self.nodes[i].pos);
        ctx.mix(i as u64 + 77);
        self.nodes[i].reader = None;
        let pos = self.nodes[i].pos;
        let nones = self.nodes[i].nones + self.nodes[i].skipped;
        if let Some(p) = self.nodes[i].parent {
            let p = &mut self.nodes[p];
            p.halves.retain(|h| *h != i);
            if pos > p.pos {
                p.pos = pos;
                p.nones = nones;
                p.skipped = 0;
            } else if pos == p.pos && nones > p.nones + p.skipped {
                p.nones = nones;
                p.skipped = 0;
            }
        }
    }
}

impl Drop for Tree {
    fn drop(&mut self) {
        // halves before what they were split from, whatever happened
        for i in (0..self.nodes.len()).rev() {
            if std::thread::panicking() {
                // leave them: the reader that panicked may be borrowed
                std::mem::forget(self.nodes[i].reader.take());
            } else {
                self.nodes[i].reader = None;
            }
        }
    }
}

fn history(ctx: &Ctx, drops: bool) -> Res<()> {
    let scale = at_scale(ctx);
    let n = if scale { *ctx.pick(&[300, 600, 5000, 70000]) + ctx.below(20) } else { ctx.size(6, 20, 60) };
    let burst = if scale { *ctx.pick(&[100, 300, 5000, 70000]) } else { 8 };
    let mut gaps = vec![0usize; n + 1];
    if scale {
        for _ in 0..ctx.below(4) {
            let i = ctx.range(0, n);
            gaps[i] = ctx.range(1, 2);
            ctx.fault("source-stall");
        }
    } else if ctx.chance(1, 2) {
        for g in gaps.iter_mut() {
            if ctx.chance(1, 8) {
                *g = ctx.range(1, 2);
                ctx.fault("source-stall");
            }
        }
    }
    let mut script: Vec<Option<u32>> = vec![];
    for i in 0..=n {
        for _ in 0..gaps[i] {
            script.push(None);
        }
        if i < n {
            script.push(Some(i as u32));
        }
    }
    let (src, log) = SimReader::new(script, None);
    let src: Dyn<S> = if ctx.chance(1, 3) { Box::new(src.map_symbols(|x: u32| x)) } else { Box::new(src) };
    let mut t = Tree { nodes: vec![Node { reader: Some(Box::new(src)), parent: None, halves: vec![], pos: 0, nones: 0, skipped: 0 }], n, gaps, exact: true };
    for _ in 0..ctx.weighted(&[5, 1, 1]) {
        t.read(ctx, 0)?;
    }
    t.split(ctx, 0);
    let w = if drops { ctx.swarm([20, 6, 2, 3]) } else { ctx.swarm([20, 6, 2, 0]) };
    let steps = ctx.range(5, 120).min(if scale { 40 } else { 120 });
    ctx.sample(|| format!("stream of {} symbols, {} operations, weights {:?}", n, steps, w));
    let mut favourite = 1;
    let mut dropped = 0;
    for _ in 0..steps {
        let can = t.readable();
        match ctx.weighted(&w) {
            0 => {
                let i = if can.contains(&favourite) && ctx.chance(1, 2) { favourite } else { *ctx.pick(&can) };
                t.read(ctx, i)?;
            }
            1 => {
                let i = *ctx.pick(&can);
                favourite = i;
                for _ in 0..ctx.range(1, burst) {
                    t.read(ctx, i)?;
                    if t.nodes[i].pos >= n {
                        break;
                    }
                }
            }
            2 => {
                // split a half again, or the original once its halves are gone
                if t.nodes.iter().filter(|x| x.reader.is_some()).count() < 9 {
                    let i = *ctx.pick(&can);
                    t.split(ctx, i);
                    ctx.probe("split-again");
                }
            }
            _ => {
                let halves: Vec<usize> = can.iter().cloned().filter(|i| t.nodes[*i].parent.is_some()).collect();
                if !halves.is_empty() {
                    let i = *ctx.pick(&halves);
                    let before = log.borrow().pulls;
                    t.close(ctx, i);
                    ensure!(log.borrow().pulls == before, "consumption", "dropping half {} read from the source", i);
                    ctx.fault("split-half-dropped");
                    dropped += 1;
                }
            }
        }
    }
    // now every half gets the rest of the stream
    loop {
        let can = t.readable();
        let open: Vec<usize> = can.iter().cloned().filter(|i| t.nodes[*i].pos < n).collect();
        if open.is_empty() || (drops && ctx.chance(1, 20)) {
            break;
        }
        let i = *ctx.pick(&open);
        for _ in 0..ctx.range(1, burst + 2) {
            t.read(ctx, i)?;
            if t.nodes[i].pos >= n {
                break;
            }
        }
    }
    for i in t.readable() {
        for _ in 0..2 {
            t.read(ctx, i)?;
        }
    }
    // take the tree apart; each reader that becomes free goes on after its furthest half
    loop {
        let halves: Vec<usize> = t.readable().into_iter().filter(|i| t.nodes[*i].parent.is_some()).collect();
        if halves.is_empty() {
            break;
        }
        let i = *ctx.pick(&halves);
        let p = t.nodes[i].parent.unwrap();
        t.close(ctx, i);
        if drops && t.nodes[p].halves.is_empty() {
            for _ in 0..ctx.range(1, 3) {
                t.read(ctx, p)?;
            }
        }
    }
    if t.nodes[0].reader.is_none() {
        fail!("harness", "the root is gone");
    }
    while t.nodes[0].pos < n {
        t.read(ctx, 0)?;
    }
    t.read(ctx, 0)?;
    ensure!(log.borrow().given == n, "consumption", "{} symbols were taken from a source of {}", log.borrow().given, n);
    if n > 3 && (!drops || dropped > 0) {
        ctx.nontrivial();
    }
    Ok(())
}

pub fn c07(ctx: &Ctx) -> Res<()> {
    history(ctx, false)
}

pub fn c08(ctx: &Ctx) -> Res<()> {
    history(ctx, true)
}
