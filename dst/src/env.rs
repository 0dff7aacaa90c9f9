//! The simulated environment of a run: hash randomness, threads, cooperative tasks, instrumented symbols.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

use crate::core::{mix64, Ctx};

// ---------------------------------------------------------------------------------------------------------
// Memory: the bytes each thread has allocated and not yet freed.

thread_local! { static BYTES: Cell<isize> = const { Cell::new(0) }; }
thread_local! { static ASKED: Cell<u64> = const { Cell::new(0) }; }

fn asked(n: usize) {
    let _ = ASKED.try_with(|b| b.set(b.get() + n as u64));
}

pub struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if !p.is_null() {
            let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as isize));
            asked(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l);
        let _ = BYTES.try_with(|b| b.set(b.get() - l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, new: usize) -> *mut u8 {
        let q = std::alloc::System.realloc(p, l, new);
        if !q.is_null() {
            let _ = BYTES.try_with(|b| b.set(b.get() + new as isize - l.size() as isize));
            asked(new);
        }
        q
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

pub fn live_bytes() -> isize {
    BYTES.with(|b| b.get())
}

/// All the bytes this thread ever asked for
pub fn asked_bytes() -> u64 {
    ASKED.with(|b| b.get())
}

// ---------------------------------------------------------------------------------------------------------
// Hash seeds. std asks `getrandom` for the keys of its hash maps once per thread; this definition answers
// from the simulated seed of the asking thread, so a hash seed is one more choice of the run.

thread_local! { static HSEED: Cell<u64> = const { Cell::new(0x5EED) }; }

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HSEED.with(|c| c.get());
    for i in 0..len {
        if i % 8 == 0 {
            s = mix64(s);
        }
        *buf.add(i) = (s >> (8 * (i % 8))) as u8;
    }
    HSEED.with(|c| c.set(s));
    len as isize
}

pub struct ForceSend<T>(pub T);
unsafe impl<T> Send for ForceSend<T> {}
unsafe impl<T> Sync for ForceSend<T> {}
impl<T> ForceSend<T> {
    pub fn into(self) -> T {
        self.0
    }
    pub fn get(&self) -> &T {
        &self.0
    }
}

/// Runs `f` on a new thread whose hash maps are seeded from `seed`, and waits for it
pub fn with_hash_seed<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    let wrapped = ForceSend(f);
    let out = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, move || {
                let w = wrapped;
                HSEED.with(|c| c.set(mix64(seed ^ 0xA5A5)));
                let r = catch_unwind(AssertUnwindSafe(w.into()));
                ForceSend(r.map_err(|p| (p, last_panic())))
            })
            .expect("spawn")
            .join()
            .expect("join")
    });
    match out.into() {
        Ok(v) => v,
        Err((p, msg)) => {
            LAST_PANIC.with(|l| *l.borrow_mut() = msg);
            resume_unwind(p)
        }
    }
}

// ---------------------------------------------------------------------------------------------------------
// Panics: expected (refused calls) and unexpected ones are both caught; the hook only records the place.

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// A panic payload injected by the simulator (never printed, never mistaken for a failure of the code)
pub struct Injected(pub &'static str);

pub fn inject_panic(what: &'static str) -> ! {
    resume_unwind(Box::new(Injected(what)))
}

pub enum Caught<T> {
    Value(T),
    Injected(&'static str),
    Panic(String),
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Caught::Value(v),
        Err(p) => classify(p),
    }
}

pub fn classify<T>(p: Box<dyn Any + Send>) -> Caught<T> {
    match p.downcast::<Injected>() {
        Ok(i) => Caught::Injected(i.0),
        Err(_) => Caught::Panic(last_panic()),
    }
}

// ---------------------------------------------------------------------------------------------------------
// Cooperative tasks on parked threads: exactly one runs at a time, the scheduler decides which at each yield.

struct CoopState {
    /// Which task may run (usize::MAX = the scheduler)
    turn: usize,
    finished: Vec<bool>,
    cancel: Vec<bool>,
}

pub struct Coop {
    state: Mutex<CoopState>,
    cv: Vec<Condvar>,
    sched: Condvar,
}

const SCHED: usize = usize::MAX;

thread_local! {
    static TASK: RefCell<Option<(Arc<Coop>, usize)>> = const { RefCell::new(None) };
    /// Yield only every n-th yield point of this task
    static STRIDE: Cell<(u32, u32)> = const { Cell::new((1, 0)) };
}

/// Called by every seam (reader pulls, symbol comparisons and clones, mapping functions)
pub fn yield_now() {
    if std::thread::panicking() {
        return;
    }
    let nest = NEST.with(|n| n.get());
    if let Some(p) = nest {
        // the pointee outlives the call of `nested` that set it
        unsafe { (*p)() };
        return;
    }
    let t = TASK.with(|t| t.borrow().clone());
    if let Some((coop, id)) = t {
        let (stride, n) = STRIDE.with(|s| s.get());
        if n + 1 < stride {
            STRIDE.with(|s| s.set((stride, n + 1)));
            return;
        }
        STRIDE.with(|s| s.set((stride, 0)));
        coop.hand_over(id);
    }
}

thread_local! { static NEST: Cell<Option<*const dyn Fn()>> = const { Cell::new(None) }; }

/// Runs `f` with `at_yield` called at every yield point of this thread: whatever that runs is nested inside the
/// operation that yielded, on the same stack
pub fn nested<R>(at_yield: &dyn Fn(), f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            NEST.with(|n| n.set(None));
        }
    }
    let p: *const (dyn Fn() + '_) = at_yield;
    let p: *const (dyn Fn() + 'static) = unsafe { std::mem::transmute(p) };
    NEST.with(|n| n.set(Some(p)));
    let _reset = Reset;
    f()
}

pub fn set_stride(n: u32) {
    STRIDE.with(|s| s.set((n.max(1), 0)));
}

impl Coop {
    fn hand_over(&self, id: usize) {
        let mut g = self.state.lock().unwrap();
        g.turn = SCHED;
        self.sched.notify_one();
        while g.turn != id {
            g = self.cv[id].wait(g).unwrap();
        }
        let cancelled = g.cancel[id];
        drop(g);
        if cancelled {
            inject_panic("cancel");
        }
    }
}

pub enum Pick {
    Run(usize),
    Cancel(usize),
}

/// Runs the tasks to completion under `choose`, which sees the unfinished task ids. Returns each task's outcome.
pub fn run_coop<'a, R: 'a>(
    tasks: Vec<(u64, u32, Box<dyn FnOnce() -> R + 'a>)>,
    mut choose: impl FnMut(&[usize]) -> Pick,
) -> Vec<Caught<R>> {
    let n = tasks.len();
    let coop = Arc::new(Coop {
        state: Mutex::new(CoopState { turn: SCHED, finished: vec![false; n], cancel: vec![false; n] }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        sched: Condvar::new(),
    });
    let results: Vec<Mutex<Option<ForceSend<Caught<R>>>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let results_ref = ForceSend(&results);
    std::thread::scope(|sc| {
        for (id, (hseed, stride, task)) in tasks.into_iter().enumerate() {
            let coop = coop.clone();
            let task = ForceSend(task);
            let res = ForceSend(*results_ref.get());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let task = task;
                    let res = res;
                    HSEED.with(|c| c.set(mix64(hseed ^ 0xA5A5)));
                    // wait for the first turn
                    {
                        let mut g = coop.state.lock().unwrap();
                        while g.turn != id {
                            g = coop.cv[id].wait(g).unwrap();
                        }
                        if g.cancel[id] {
                            g.finished[id] = true;
                            g.turn = SCHED;
                            coop.sched.notify_one();
                            *res.get()[id].lock().unwrap() = Some(ForceSend(Caught::Injected("cancel")));
                            return;
                        }
                    }
                    TASK.with(|t| *t.borrow_mut() = Some((coop.clone(), id)));
                    set_stride(stride);
                    let out = catch(task.into());
                    TASK.with(|t| *t.borrow_mut() = None);
                    *res.get()[id].lock().unwrap() = Some(ForceSend(out));
                    let mut g = coop.state.lock().unwrap();
                    g.finished[id] = true;
                    g.turn = SCHED;
                    coop.sched.notify_one();
                })
                .expect("spawn");
        }
        loop {
            let alive: Vec<usize> = {
                let g = coop.state.lock().unwrap();
                (0..n).filter(|i| !g.finished[*i]).collect()
            };
            if alive.is_empty() {
                break;
            }
            let (id, cancel) = match choose(&alive) {
                Pick::Run(i) => (i, false),
                Pick::Cancel(i) => (i, true),
            };
            let mut g = coop.state.lock().unwrap();
            if cancel {
                g.cancel[id] = true;
            }
            g.turn = id;
            coop.cv[id].notify_one();
            while g.turn != SCHED {
                g = coop.sched.wait(g).unwrap();
            }
        }
    });
    results.into_iter().map(|m| m.into_inner().unwrap().expect("task result").into()).collect()
}

// ---------------------------------------------------------------------------------------------------------
// Live instance counting

thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// A symbol whose live instances are counted
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Tracked(pub u32);

impl Tracked {
    pub fn new(v: u32) -> Tracked {
        LIVE.with(|l| l.set(l.get() + 1));
        Tracked(v)
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Tracked {
        Tracked::new(self.0)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let _ = LIVE.try_with(|l| l.set(l.get() - 1));
    }
}
impl concordance::Countable for Tracked {
    fn next(&self) -> Self {
        Tracked::new(self.0.wrapping_add(1))
    }
    fn prev(&self) -> Self {
        Tracked::new(self.0.wrapping_sub(1))
    }
}

/// A user-defined symbol type with yield points in its operations
#[derive(Debug)]
pub struct YSym(pub u32);
impl Clone for YSym {
    fn clone(&self) -> YSym {
        yield_now();
        YSym(self.0)
    }
}
impl PartialEq for YSym {
    fn eq(&self, o: &YSym) -> bool {
        self.0 == o.0
    }
}
impl Eq for YSym {}
impl PartialOrd for YSym {
    fn partial_cmp(&self, o: &YSym) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for YSym {
    fn cmp(&self, o: &YSym) -> std::cmp::Ordering {
        yield_now();
        self.0.cmp(&o.0)
    }
}
impl concordance::Countable for YSym {
    fn next(&self) -> Self {
        YSym(self.0 + 1)
    }
    fn prev(&self) -> Self {
        YSym(self.0 - 1)
    }
}

pub fn fresh_seed(ctx: &Ctx) -> u64 {
    ctx.draw(1 << 32)
}
