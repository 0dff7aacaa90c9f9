//! Plain nondeterministic automata over universe indices: the second reference model (also of hand-built
//! machines), used for lock-step simulation and for comparison with a compiled automaton on the whole product.

use crate::core::Res;
use crate::pat::Ast;
use crate::syms::{Sym, Universe};
use crate::{ensure, fail};
use concordance::{StateMachine, SymbolRange, SymbolRangeDfa};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Default, Debug)]
pub struct Nfa {
    pub eps: Vec<Vec<usize>>,
    /// (lowest, highest, target)
    pub edges: Vec<Vec<(usize, usize, usize)>>,
    pub out: Vec<Option<u32>>,
}

pub type Set = Vec<usize>;

impl Nfa {
    pub fn add(&mut self) -> usize {
        self.eps.push(vec![]);
        self.edges.push(vec![]);
        self.out.push(None);
        self.eps.len() - 1
    }
    /// Sorted closure
    pub fn close(&self, from: impl IntoIterator<Item = usize>) -> Set {
        let mut seen = vec![false; self.eps.len()];
        let mut stack: Vec<usize> = from.into_iter().collect();
        let mut out = vec![];
        while let Some(s) = stack.pop() {
            if !seen[s] {
                seen[s] = true;
                out.push(s);
                stack.extend(self.eps[s].iter().cloned());
            }
        }
        out.sort();
        out
    }
    pub fn start(&self) -> Set {
        self.close(vec![0])
    }
    pub fn step(&self, s: &Set, sym: usize) -> Set {
        let mut t = vec![];
        for q in s {
            for (lo, hi, to) in &self.edges[*q] {
                if *lo <= sym && sym <= *hi {
                    t.push(*to);
                }
            }
        }
        self.close(t)
    }
    pub fn output(&self, s: &Set) -> Option<u32> {
        s.iter().filter_map(|q| self.out[*q]).min()
    }

    /// Fragment for a pattern from a fresh start to a fresh end
    pub fn frag(&mut self, p: &Ast) -> (usize, usize) {
        let s = self.add();
        let e = self.add();
        match p {
            Ast::Eps => self.eps[s].push(e),
            Ast::Lit(v) => {
                let mut cur = s;
                for x in v {
                    let n = self.add();
                    self.edges[cur].push((*x, *x, n));
                    cur = n;
                }
                self.eps[cur].push(e);
            }
            Ast::Range(lo, hi) => self.edges[s].push((*lo, *hi, e)),
            Ast::RepInf(n, q) => {
                let mut cur = s;
                for _ in 0..*n {
                    let (a, b) = self.frag(q);
                    self.eps[cur].push(a);
                    cur = b;
                }
                let l = self.add();
                self.eps[cur].push(l);
                let (a, b) = self.frag(q);
                self.eps[l].push(a);
                self.eps[b].push(l);
                self.eps[l].push(e);
            }
            Ast::Rep(lo, hi, q) => {
                let mut cur = s;
                for k in 0..*hi {
                    if k >= *lo {
                        self.eps[cur].push(e);
                    }
                    let (a, b) = self.frag(q);
                    self.eps[cur].push(a);
                    cur = b;
                }
            }
            Ast::Seq(v) => {
                let mut cur = s;
                for q in v {
                    let (a, b) = self.frag(q);
                    self.eps[cur].push(a);
                    cur = b;
                }
                self.eps[cur].push(e);
            }
            Ast::Alt(v) => {
                for q in v {
                    let (a, b) = self.frag(q);
                    self.eps[s].push(a);
                    self.eps[b].push(e);
                }
            }
        }
        (s, e)
    }

    /// The automaton of a set of (pattern, token) pairs. Bounded repetitions get one copy more than any accepted
    /// string uses, so that "no state left" means "no partial match left, counting up to the stated bound".
    pub fn of_tokens(pats: &[(Ast, u32)]) -> Nfa {
        let mut n = Nfa::default();
        let s = n.add();
        for (p, tok) in pats {
            let (a, b) = n.frag(p);
            n.eps[s].push(a);
            let e = n.add();
            n.out[e] = Some(*tok);
            n.eps[b].push(e);
        }
        n
    }

    /// Longest match at the start of `input`: (length and token, symbols read before no state was left or the input ended)
    pub fn run(&self, input: &[usize]) -> (Option<(usize, u32)>, usize) {
        let mut s = self.start();
        let mut best = self.output(&s).map(|o| (0, o));
        for (i, x) in input.iter().enumerate() {
            s = self.step(&s, *x);
            if !s.iter().any(|_| true) {
                return (best, i);
            }
            if let Some(o) = self.output(&s) {
                best = Some((i + 1, o));
            }
        }
        (best, input.len())
    }
}

/// A lazily determinised automaton, for repeated runs over long inputs
pub struct Lazy<'a> {
    pub nfa: &'a Nfa,
    ids: HashMap<Set, usize>,
    sets: Vec<Set>,
    outs: Vec<Option<u32>>,
    next: Vec<BTreeMap<usize, Option<usize>>>,
}

impl<'a> Lazy<'a> {
    pub fn new(nfa: &'a Nfa) -> Lazy<'a> {
        let mut l = Lazy { nfa, ids: HashMap::new(), sets: vec![], outs: vec![], next: vec![] };
        let s = nfa.start();
        l.id(s);
        l
    }
    fn id(&mut self, s: Set) -> usize {
        if let Some(i) = self.ids.get(&s) {
            return *i;
        }
        let i = self.sets.len();
        self.ids.insert(s.clone(), i);
        self.outs.push(self.nfa.output(&s));
        self.sets.push(s);
        self.next.push(BTreeMap::new());
        i
    }
    pub fn step(&mut self, at: usize, sym: usize) -> Option<usize> {
        if let Some(r) = self.next[at].get(&sym) {
            return *r;
        }
        let t = self.nfa.step(&self.sets[at], sym);
        let r = if t.is_empty() { None } else { Some(self.id(t)) };
        self.next[at].insert(sym, r);
        r
    }
    /// As `Nfa::run`
    pub fn run(&mut self, input: &[usize]) -> (Option<(usize, u32)>, usize) {
        let mut at = 0;
        let mut best = self.outs[0].map(|o| (0, o));
        for (i, x) in input.iter().enumerate() {
            match self.step(at, *x) {
                None => return (best, i),
                Some(n) => {
                    at = n;
                    if let Some(o) = self.outs[n] {
                        best = Some((i + 1, o));
                    }
                }
            }
        }
        (best, input.len())
    }
    pub fn out(&self, at: usize) -> Option<u32> {
        self.outs[at]
    }
}

/// Whether the subset construction stays small (with the copies a straightforward compilation makes)
pub fn tractable(pats: &[(Ast, u32)], n: usize) -> bool {
    let doubled: Vec<(Ast, u32)> = pats.iter().map(|(p, t)| (unroll(p), *t)).collect();
    let nfa = Nfa::of_tokens(&doubled);
    nfa.eps.len() <= 1500 && tractable_nfa(&nfa, n, 220)
}

fn unroll(p: &Ast) -> Ast {
    match p {
        Ast::RepInf(n, q) => Ast::RepInf(n + 1, Box::new(unroll(q))),
        Ast::Rep(a, b, q) => Ast::Rep(*a, *b, Box::new(unroll(q))),
        Ast::Seq(v) => Ast::Seq(v.iter().map(unroll).collect()),
        Ast::Alt(v) => Ast::Alt(v.iter().map(unroll).collect()),
        x => x.clone(),
    }
}

pub fn tractable_nfa(nfa: &Nfa, n: usize, limit: usize) -> bool {
    let mut seen: HashSet<Set> = HashSet::new();
    let mut todo = vec![nfa.start()];
    seen.insert(todo[0].clone());
    while let Some(s) = todo.pop() {
        for x in 0..n {
            let t = nfa.step(&s, x);
            if !t.is_empty() && !seen.contains(&t) {
                if seen.len() >= limit {
                    return false;
                }
                seen.insert(t.clone());
                todo.push(t);
            }
        }
    }
    true
}

// ---------------------------------------------------------------------------------------------------------
// A compiled automaton as seen through the public state machine interface, projected to universe indices

#[derive(Clone, Debug, PartialEq)]
pub struct Table {
    /// target of every state and universe index
    pub next: Vec<Vec<Option<usize>>>,
    pub out: Vec<Option<u32>>,
}

impl Table {
    /// Reads a compiled automaton; fails if it is not deterministic, not ordered or has dangling targets
    pub fn of_machine<S: Sym, O>(
        m: &dyn StateMachine<SymbolRange<S>, O>,
        u: &Universe<S>,
        key: &dyn Fn(&O) -> u32,
    ) -> Res<Table> {
        let n = m.count_states() as usize;
        ensure!(n >= 1, "no-states", "compiled automaton has no states");
        let mut t = Table { next: vec![], out: vec![] };
        for s in 0..n {
            let tr = m.get_transitions_for_state(s as u32);
            for w in tr.windows(2) {
                ensure!(
                    w[0].0.highest < w[1].0.lowest,
                    "not-deterministic",
                    "state {}: transitions {:?} and {:?} overlap or are out of order",
                    s,
                    w[0].0,
                    w[1].0
                );
            }
            for (r, to) in &tr {
                ensure!(r.lowest <= r.highest, "bad-range", "state {}: reversed range {:?}", s, r);
                ensure!((*to as usize) < n, "dangling-target", "state {}: transition to {} of {} states", s, to, n);
            }
            let row = u
                .syms
                .iter()
                .map(|x| tr.iter().find(|(r, _)| r.lowest <= *x && *x <= r.highest).map(|(_, to)| *to as usize))
                .collect();
            t.next.push(row);
            t.out.push(m.output_symbol_for_state(s as u32).map(|o| key(o)));
        }
        Ok(t)
    }

    pub fn of_dfa<S: Sym>(dfa: &SymbolRangeDfa<S, u32>, u: &Universe<S>) -> Res<Table> {
        Table::of_machine(dfa, u, &|o: &u32| *o)
    }

    /// Compares with the reference automaton on every reachable pair of states
    pub fn refines(&self, nfa: &Nfa, n: usize) -> Res<usize> {
        let mut lazy = Lazy::new(nfa);
        let mut seen: HashSet<(Option<usize>, Option<usize>)> = HashSet::new();
        let mut todo: Vec<(Option<usize>, Option<usize>, Vec<usize>)> = vec![(Some(0), Some(0), vec![])];
        seen.insert((Some(0), Some(0)));
        while let Some((d, r, word)) = todo.pop() {
            let dout = d.and_then(|d| self.out[d]);
            let rout = r.and_then(|r| lazy.out(r));
            if dout != rout {
                fail!(
                    "language",
                    "after symbols #{:?} the compiled automaton reports {:?}, the pattern {:?}",
                    word,
                    dout,
                    rout
                );
            }
            if seen.len() > 200_000 {
                break;
            }
            for x in 0..n {
                let d2 = d.and_then(|d| self.next[d][x]);
                let r2 = r.and_then(|r| lazy.step(r, x));
                if (d2.is_some() || r2.is_some()) && seen.insert((d2, r2)) {
                    let mut w = word.clone();
                    if w.len() < 60 {
                        w.push(x);
                    }
                    todo.push((d2, r2, w));
                }
            }
        }
        Ok(seen.len())
    }

    /// Compares two compiled automata on every reachable pair of states
    pub fn equivalent(&self, other: &Table) -> Res<usize> {
        let n = self.next.get(0).map(|r| r.len()).unwrap_or(0);
        let mut seen: HashSet<(Option<usize>, Option<usize>)> = HashSet::new();
        let mut todo: Vec<(Option<usize>, Option<usize>, Vec<usize>)> = vec![(Some(0), Some(0), vec![])];
        seen.insert((Some(0), Some(0)));
        while let Some((a, b, word)) = todo.pop() {
            let ao = a.and_then(|a| self.out[a]);
            let bo = b.and_then(|b| other.out[b]);
            ensure!(
                ao == bo,
                "not-equivalent",
                "after symbols #{:?} one automaton reports {:?}, the other {:?}",
                word,
                ao,
                bo
            );
            for x in 0..n {
                let a2 = a.and_then(|a| self.next[a][x]);
                let b2 = b.and_then(|b| other.next[b][x]);
                if (a2.is_some() || b2.is_some()) && seen.insert((a2, b2)) {
                    let mut w = word.clone();
                    if w.len() < 60 {
                        w.push(x);
                    }
                    todo.push((a2, b2, w));
                }
            }
        }
        Ok(seen.len())
    }
}
