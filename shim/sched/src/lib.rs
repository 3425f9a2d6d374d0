//! Cooperative scheduler over real OS threads.
//!
//! Inside `run`, exactly one controlled thread executes at a time.  Every shim operation (lock,
//! atomic access, sleep, spawn, join, channel, condition wait, and `point()` called by harness
//! transports) is a scheduling point at which a `Chooser` (the explorer) decides who runs next.
//! Switching away from a thread that could continue, or letting a timer fire while some thread
//! can run, costs one deviation (preemption); choices at blocking points are free.
//! Outside `run` every shim is a plain pass-through to the real primitive.
//!
//! Time is virtual: it only moves when a timer fires or the harness advances it.
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub mod atomic;
pub mod mpsc;
pub mod sync;
pub mod thread;
pub mod time;

pub trait Chooser: Send + Sync {
    /// Choose among `n` alternatives; those with index >= `n_free` cost one deviation.
    fn pick(&self, label: &'static str, n_free: usize, n: usize) -> usize;
    /// Record a violation (deadlock, livelock).
    fn fail(&self, msg: String);
    /// A controlled thread other than the main one panicked (payload not an `Abort`).
    fn thread_panicked(&self, tid: usize, payload: &(dyn std::any::Any + Send));
    /// Whether this panic payload is one of the harness' own tokens.
    fn is_token(&self, payload: &(dyn std::any::Any + Send)) -> bool;
}

/// Panic payload used to unwind controlled threads of an aborted execution.
pub struct Abort;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Status {
    Runnable,
    /// Blocked on a resource; may also have a deadline (virtual ns).
    Blocked(usize, Option<u64>),
    Finished,
}

struct Th {
    status: Status,
    /// set when the last block ended because the deadline passed
    timed_out: bool,
    unpark_token: bool,
}

struct State {
    threads: Vec<Th>,
    cur: usize,
    now: u64,
    aborted: bool,
    main_done: bool,
    steps: u64,
    same: u64,
    max_steps: u64,
}

pub struct Sched {
    st: Mutex<State>,
    cv: Vec<Condvar>,
    done: Condvar,
    ch: Arc<dyn Chooser>,
}

const MAX_THREADS: usize = 16;

thread_local! {
    static CUR: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

pub(crate) fn cur() -> Option<(Arc<Sched>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}
pub fn controlled() -> bool {
    CUR.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}

pub struct RunResult {
    pub aborted: bool,
    pub steps: u64,
    pub live_threads: usize,
    pub now_ns: u64,
}

fn park_forever() -> ! {
    loop {
        std::thread::park();
    }
}

impl Sched {
    fn check_abort(&self, st: std::sync::MutexGuard<'_, State>) {
        let a = st.aborted;
        drop(st);
        if a {
            if std::thread::panicking() {
                park_forever();
            }
            resume_unwind(Box::new(Abort));
        }
    }

    fn abort_locked(&self, st: &mut State) {
        st.aborted = true;
        for c in &self.cv {
            c.notify_all();
        }
        self.done.notify_all();
    }

    /// Decide who runs next.  `me` is the calling thread (status already set).
    /// Returns with `st.cur` set, or aborts the execution on deadlock.
    fn pick_next(&self, st: &mut State, me: usize, yielding: bool) -> bool {
        st.steps += 1;
        if st.steps > st.max_steps {
            let d = self.describe(st);
            self.ch.fail(format!(
                "livelock: more than {} scheduling points without finishing; {d}",
                st.max_steps
            ));
            self.abort_locked(st);
            return false;
        }
        loop {
            let mut en: Vec<usize> = Vec::new();
            let me_on = st.threads[me].status == Status::Runnable;
            let force = yielding || st.same > 300;
            if me_on && !force {
                en.push(me);
            }
            for i in 0..st.threads.len() {
                if i != me && st.threads[i].status == Status::Runnable {
                    en.push(i);
                }
            }
            // earliest timer
            let mut tm: Option<(u64, usize)> = None;
            for (i, t) in st.threads.iter().enumerate() {
                if let Status::Blocked(_, Some(d)) = t.status {
                    if tm.is_none_or(|x| d < x.0) {
                        tm = Some((d, i));
                    }
                }
            }
            if en.is_empty() && me_on {
                // yielding, nobody else runnable: let a timer fire if there is one
                if tm.is_none() {
                    en.push(me);
                }
            }
            if en.is_empty() && tm.is_none() {
                let d = self.describe(st);
                self.ch.fail(format!("deadlock: no thread can run; {d}"));
                self.abort_locked(st);
                return false;
            }
            let n_run = en.len();
            let n = n_run + tm.is_some() as usize;
            let n_free = if n_run == 0 {
                1
            } else if me_on && !force {
                1
            } else {
                n_run
            };
            let k = if n > 1 {
                self.ch.pick("sched", n_free, n)
            } else {
                0
            };
            if k < n_run {
                if en[k] == st.cur {
                    st.same += 1;
                } else {
                    st.same = 0;
                }
                st.cur = en[k];
                return true;
            }
            // fire the timer(s)
            let d = tm.unwrap().0;
            if d > st.now {
                st.now = d;
            }
            let now = st.now;
            for t in st.threads.iter_mut() {
                if let Status::Blocked(_, Some(x)) = t.status {
                    if x <= now {
                        t.status = Status::Runnable;
                        t.timed_out = true;
                    }
                }
            }
            // Firing a timer while others can run is itself the preemption: go to the woken one.
            if n_run > 0 {
                st.cur = tm.unwrap().1;
                st.same = 0;
                return true;
            }
        }
    }

    fn describe(&self, st: &State) -> String {
        let v: Vec<String> = st
            .threads
            .iter()
            .enumerate()
            .map(|(i, t)| {
                format!(
                    "t{i}:{}",
                    match t.status {
                        Status::Runnable => "runnable".into(),
                        Status::Blocked(_, None) => "blocked".to_string(),
                        Status::Blocked(_, Some(d)) => format!("timed-wait({d}ns)"),
                        Status::Finished => "finished".into(),
                    }
                )
            })
            .collect();
        format!("threads {} at virtual time {} ns", v.join(" "), st.now)
    }

    fn wait_turn<'a>(&'a self, mut st: std::sync::MutexGuard<'a, State>, me: usize) {
        while st.cur != me && !st.aborted {
            st = self.cv[me].wait(st).unwrap();
        }
        self.check_abort(st);
    }

    fn switch<'a>(&'a self, mut st: std::sync::MutexGuard<'a, State>, me: usize, yielding: bool) {
        if st.aborted {
            return self.check_abort(st);
        }
        if self.pick_next(&mut st, me, yielding) && st.cur != me {
            let n = st.cur;
            self.cv[n].notify_all();
        }
        self.wait_turn(st, me);
    }

    pub(crate) fn point(&self, me: usize, yielding: bool) {
        let st = self.st.lock().unwrap();
        self.switch(st, me, yielding);
    }

    /// Block on `res` until woken or until `deadline`.  True if it timed out.
    pub(crate) fn block(&self, me: usize, res: usize, deadline: Option<u64>) -> bool {
        let mut st = self.st.lock().unwrap();
        if st.aborted {
            self.check_abort(st);
            return false;
        }
        if deadline.is_some_and(|d| d <= st.now) {
            drop(st);
            self.point(me, true);
            return true;
        }
        st.threads[me].status = Status::Blocked(res, deadline);
        st.threads[me].timed_out = false;
        self.switch(st, me, false);
        let st = self.st.lock().unwrap();
        st.threads[me].timed_out
    }

    pub(crate) fn wake(&self, res: usize) {
        let mut st = self.st.lock().unwrap();
        for t in st.threads.iter_mut() {
            if let Status::Blocked(r, _) = t.status {
                if r == res {
                    t.status = Status::Runnable;
                }
            }
        }
    }

    /// Wake one waiter; which one is the explorer's choice.
    pub(crate) fn wake_one(&self, res: usize) {
        let mut st = self.st.lock().unwrap();
        let w: Vec<usize> = st
            .threads
            .iter()
            .enumerate()
            .filter(|(_, t)| matches!(t.status, Status::Blocked(r, _) if r == res))
            .map(|(i, _)| i)
            .collect();
        if w.is_empty() {
            return;
        }
        let k = if w.len() > 1 {
            self.ch.pick("wake", w.len(), w.len())
        } else {
            0
        };
        st.threads[w[k]].status = Status::Runnable;
    }

    pub(crate) fn now(&self) -> u64 {
        self.st.lock().unwrap().now
    }

    fn finish(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.threads[me].status = Status::Finished;
        let res = thread_res(me);
        for t in st.threads.iter_mut() {
            if let Status::Blocked(r, _) = t.status {
                if r == res {
                    t.status = Status::Runnable;
                }
            }
        }
        if me == 0 {
            st.main_done = true;
            self.abort_locked(&mut st);
            return;
        }
        if st.aborted {
            return;
        }
        if self.pick_next(&mut st, me, false) {
            let n = st.cur;
            self.cv[n].notify_all();
        }
    }
}

pub(crate) fn thread_res(tid: usize) -> usize {
    usize::MAX - tid
}
pub(crate) fn park_res(tid: usize) -> usize {
    usize::MAX - 1000 - tid
}

/// Spawn a controlled thread; returns its id.
pub(crate) fn spawn_controlled(s: &Arc<Sched>, me: usize, f: Box<dyn FnOnce() + Send>) -> usize {
    let tid;
    {
        let mut st = s.st.lock().unwrap();
        tid = st.threads.len();
        assert!(tid < MAX_THREADS, "sched: too many threads");
        st.threads.push(Th {
            status: Status::Runnable,
            timed_out: false,
            unpark_token: false,
        });
    }
    let s2 = s.clone();
    let hooks = vphook::current();
    std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || body(s2, tid, hooks, f))
        .expect("spawn");
    s.point(me, false);
    tid
}

fn body(
    s: Arc<Sched>,
    tid: usize,
    hooks: Option<Arc<dyn vphook::Hooks>>,
    f: Box<dyn FnOnce() + Send>,
) {
    CUR.with(|c| *c.borrow_mut() = Some((s.clone(), tid)));
    vphook::install(hooks);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let st = s.st.lock().unwrap();
        s.wait_turn(st, tid);
        f();
    }));
    if let Err(p) = r {
        if !p.is::<Abort>() {
            s.ch.thread_panicked(tid, &*p);
            if s.ch.is_token(&*p) {
                // the harness ended this execution
                let mut st = s.st.lock().unwrap();
                s.abort_locked(&mut st);
            }
        }
    }
    s.finish(tid);
    CUR.with(|c| *c.borrow_mut() = None);
    vphook::install(None);
}

/// Run `main` (and everything it spawns) under the scheduler, on a fresh thread.
pub fn run(ch: Arc<dyn Chooser>, max_steps: u64, main: Box<dyn FnOnce() + Send>) -> RunResult {
    let s = Arc::new(Sched {
        st: Mutex::new(State {
            threads: vec![Th {
                status: Status::Runnable,
                timed_out: false,
                unpark_token: false,
            }],
            cur: 0,
            now: 0,
            aborted: false,
            main_done: false,
            steps: 0,
            same: 0,
            max_steps,
        }),
        cv: (0..MAX_THREADS).map(|_| Condvar::new()).collect(),
        done: Condvar::new(),
        ch,
    });
    let hooks = vphook::current();
    let s2 = s.clone();
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || body(s2, 0, hooks, main))
        .expect("spawn");
    let mut st = s.st.lock().unwrap();
    while !st.main_done && !st.aborted {
        st = s.done.wait(st).unwrap();
    }
    let main_done = st.main_done;
    let r = RunResult {
        aborted: !main_done,
        steps: st.steps,
        live_threads: st.threads.iter().filter(|t| t.status != Status::Finished).count(),
        now_ns: st.now,
    };
    drop(st);
    if main_done {
        let _ = h.join();
    }
    r
}

/// Explicit scheduling point for harness objects (transports).
pub fn point() {
    if let Some((s, me)) = cur() {
        s.point(me, false);
    }
}
/// Block the calling controlled thread on a harness resource.
pub fn block(res: usize) {
    if let Some((s, me)) = cur() {
        s.block(me, res, None);
    }
}
pub fn wake(res: usize) {
    if let Some((s, _)) = cur() {
        s.wake(res);
    }
}
/// Number of controlled threads that have not finished.
pub fn live_threads() -> usize {
    match cur() {
        Some((s, _)) => {
            let st = s.st.lock().unwrap();
            st.threads.iter().filter(|t| t.status != Status::Finished).count()
        }
        None => 0,
    }
}
pub fn my_tid() -> usize {
    cur().map(|(_, t)| t).unwrap_or(usize::MAX)
}
pub fn now_ns() -> u64 {
    cur().map(|(s, _)| s.now()).unwrap_or(0)
}
/// Advance virtual time without firing timers one by one (harness clock thread).
pub fn advance(d: Duration) {
    if let Some((s, _)) = cur() {
        let mut st = s.st.lock().unwrap();
        st.now += d.as_nanos() as u64;
    }
}
