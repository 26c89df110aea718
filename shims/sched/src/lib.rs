//! Threads whose schedule is chosen by the harness. One runs at a time; another one is switched to when it ends, when it
//! cannot go on, and, a limited number of times, before an operation on something threads share (`point`). Every choice
//! is made by the function given to `explore`; without one, tasks run one after the other, in order.
//!
//! The bookkeeping below is the same for the checker and natively. Only making a thread and switching to one differ: the
//! checker does so itself, natively they are threads of the system that hand on the right to run.
use std::cell::UnsafeCell;

type Choose = fn(u32) -> u32;

#[derive(Clone, Copy, PartialEq)]
enum Is {
    Ready,
    Blocked,
    Done,
}
struct Task {
    thread: u32,
    is: Is,
}
struct Group {
    /// the thread that waits for the tasks
    waits: u32,
    tasks: Vec<Task>,
    running: usize,
}
struct State {
    choose: Option<Choose>,
    /// how often a task that could go on may be interrupted
    interrupts: u32,
    groups: Vec<Group>,
}
/// Only the running thread touches it.
struct Global(UnsafeCell<State>);
unsafe impl Sync for Global {}
static G: Global = Global(UnsafeCell::new(State { choose: None, interrupts: 0, groups: Vec::new() }));
fn state() -> &'static mut State {
    unsafe { &mut *G.0.get() }
}

/// From here on, schedules are chosen by `choose`, with so many interruptions in all.
pub fn explore(choose: Option<Choose>, interrupts: u32) {
    state().choose = choose;
    state().interrupts = interrupts;
}
pub fn active() -> bool {
    state().choose.is_some()
}
/// One of `n` possibilities that nothing promises anything about.
pub fn any_of(n: usize) -> usize {
    match state().choose {
        Some(f) if n > 1 => f(n as u32) as usize,
        _ => 0,
    }
}

type Job<'a> = Box<dyn FnOnce() + 'a>;
struct Start<'a> {
    job: Job<'a>,
}

/// Runs all jobs, as threads when schedules are explored.
pub fn run_all<'a>(jobs: Vec<Job<'a>>) {
    if !active() || jobs.len() < 2 {
        for j in jobs {
            j();
        }
        return;
    }
    let mut tasks = Vec::with_capacity(jobs.len());
    for job in jobs {
        let p = Box::into_raw(Box::new(Start { job }));
        let thread = imp::thread(begin, p as *mut u8);
        tasks.push(Task { thread, is: Is::Ready });
    }
    let s = state();
    // a task of an outer group that waits for an inner one is not interrupted meanwhile
    s.groups.push(Group { waits: imp::current(), tasks, running: 0 });
    go_on();
    imp::check();
    state().groups.pop();
}

/// Switches to a task that can go on, or to the one that waits for all when all are done.
fn go_on() {
    let s = state();
    let g = s.groups.last_mut().unwrap();
    let ready: Vec<usize> = (0..g.tasks.len()).filter(|i| g.tasks[*i].is == Is::Ready).collect();
    if ready.is_empty() {
        if g.tasks.iter().any(|t| t.is == Is::Blocked) {
            panic!("the threads wait for each other");
        }
        imp::resume(g.waits);
        return;
    }
    let k = if ready.len() > 1 { ready[(s.choose.unwrap())(ready.len() as u32) as usize] } else { ready[0] };
    g.running = k;
    imp::resume(g.tasks[k].thread);
}

extern "C" fn begin(p: *mut u8) {
    let s = unsafe { Box::from_raw(p as *mut Start<'static>) };
    imp::protected(s.job);
    let g = state().groups.last_mut().unwrap();
    g.tasks[g.running].is = Is::Done;
    imp::ends();
    go_on();
    imp::never();
}

/// Whether a task runs whose group is the innermost.
fn in_task() -> bool {
    let s = state();
    match s.groups.last() {
        Some(g) => imp::current() != g.waits,
        None => false,
    }
}

/// An operation on something shared comes next: another task may run first.
pub fn point() {
    let s = state();
    if s.choose.is_none() || s.interrupts == 0 || !in_task() {
        return;
    }
    let g = s.groups.last_mut().unwrap();
    let others: Vec<usize> = (0..g.tasks.len()).filter(|i| *i != g.running && g.tasks[*i].is == Is::Ready).collect();
    if others.is_empty() {
        return;
    }
    let k = (s.choose.unwrap())(1 + others.len() as u32) as usize;
    if k > 0 {
        s.interrupts -= 1;
        g.running = others[k - 1];
        imp::resume(g.tasks[g.running].thread);
    }
}

/// The running task cannot go on before another one calls `wake`.
pub fn block() {
    if !in_task() {
        panic!("the thread waits for itself");
    }
    let g = state().groups.last_mut().unwrap();
    g.tasks[g.running].is = Is::Blocked;
    go_on();
}
pub fn wake() {
    if let Some(g) = state().groups.last_mut() {
        for t in g.tasks.iter_mut() {
            if t.is == Is::Blocked {
                t.is = Is::Ready;
            }
        }
    }
}

#[cfg(carmen_sym)]
mod imp {
    use super::*;
    extern "C" {
        fn v_thread(f: extern "C" fn(*mut u8), p: *mut u8) -> u32;
        fn v_resume(t: u32);
        fn v_current() -> u32;
    }
    pub fn thread(f: extern "C" fn(*mut u8), p: *mut u8) -> u32 {
        unsafe { v_thread(f, p) }
    }
    pub fn resume(t: u32) {
        if t != current() {
            unsafe { v_resume(t) }
        }
    }
    pub fn current() -> u32 {
        unsafe { v_current() }
    }
    pub fn protected(job: Job) {
        job()
    }
    pub fn ends() {}
    pub fn check() {}
    pub fn never() {
        panic!("a thread that ended runs again");
    }
}

#[cfg(not(carmen_sym))]
mod imp {
    use super::*;
    use std::cell::Cell;
    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
    use std::sync::{Condvar, Mutex};
    thread_local! {
        static ME: Cell<u32> = const { Cell::new(0) };
        static ENDS: Cell<bool> = const { Cell::new(false) };
    }
    static NEXT: AtomicU32 = AtomicU32::new(1);
    static RUNS: Mutex<u32> = Mutex::new(0);
    static CHANGED: Condvar = Condvar::new();
    static PANIC: Mutex<Option<Box<dyn std::any::Any + Send>>> = Mutex::new(None);

    struct Arg(*mut u8);
    unsafe impl Send for Arg {}
    pub fn thread(f: extern "C" fn(*mut u8), p: *mut u8) -> u32 {
        let t = NEXT.fetch_add(1, SeqCst);
        let p = Arg(p);
        std::thread::spawn(move || {
            let p = p;
            ME.with(|m| m.set(t));
            wait(t);
            f(p.0)
        });
        t
    }
    fn wait(t: u32) {
        let mut r = RUNS.lock().unwrap();
        while *r != t {
            r = CHANGED.wait(r).unwrap();
        }
    }
    pub fn resume(t: u32) {
        if t == current() {
            return;
        }
        *RUNS.lock().unwrap() = t;
        CHANGED.notify_all();
        if !ENDS.with(|e| e.get()) {
            wait(current());
        }
    }
    pub fn current() -> u32 {
        ME.with(|m| m.get())
    }
    pub fn protected(job: Job) {
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job)) {
            *PANIC.lock().unwrap() = Some(e);
        }
    }
    pub fn ends() {
        ENDS.with(|e| e.set(true));
    }
    pub fn check() {
        if let Some(e) = PANIC.lock().unwrap().take() {
            std::panic::resume_unwind(e);
        }
    }
    pub fn never() {}
}
