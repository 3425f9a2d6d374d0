use crate::{cur, park_res, spawn_controlled, thread_res, Abort, Sched, Status};
use std::io;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::thread as real;
use std::time::Duration;

#[derive(Clone)]
pub struct Thread {
    real: Option<real::Thread>,
    ctl: Option<(Arc<Sched>, usize)>,
    name: Option<String>,
}
impl std::fmt::Debug for Thread {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Thread({:?})", self.ctl.as_ref().map(|c| c.1))
    }
}
impl Thread {
    pub fn unpark(&self) {
        match &self.ctl {
            Some((s, t)) => {
                crate::point();
                s.st.lock().unwrap().threads[*t].unpark_token = true;
                s.wake(park_res(*t));
            }
            None => self.real.as_ref().unwrap().unpark(),
        }
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn id(&self) -> real::ThreadId {
        match &self.real {
            Some(r) => r.id(),
            None => real::current().id(),
        }
    }
}

pub enum Handle<T> {
    Real(real::JoinHandle<T>),
    Ctl(Arc<Sched>, usize, Arc<Mutex<Option<real::Result<T>>>>),
}
pub struct JoinHandle<T> {
    h: Handle<T>,
    th: Thread,
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "JoinHandle({:?})", self.th)
    }
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> real::Result<T> {
        match self.h {
            Handle::Real(h) => h.join(),
            Handle::Ctl(s, tid, slot) => {
                if let Some((_, me)) = cur() {
                    s.point(me, false);
                    loop {
                        let fin = s.st.lock().unwrap().threads[tid].status == Status::Finished;
                        if fin {
                            break;
                        }
                        s.block(me, thread_res(tid), None);
                    }
                }
                let r = slot.lock().unwrap().take();
                r.unwrap_or_else(|| Err(Box::new("thread aborted")))
            }
        }
    }
    pub fn thread(&self) -> &Thread {
        &self.th
    }
    pub fn is_finished(&self) -> bool {
        match &self.h {
            Handle::Real(h) => h.is_finished(),
            Handle::Ctl(s, tid, _) => {
                crate::point();
                s.st.lock().unwrap().threads[*tid].status == Status::Finished
            }
        }
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}
impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.stack = Some(n);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        match cur() {
            None => {
                let mut b = real::Builder::new();
                if let Some(n) = &self.name {
                    b = b.name(n.clone());
                }
                if let Some(n) = self.stack {
                    b = b.stack_size(n);
                }
                let h = b.spawn(f)?;
                let th = Thread { real: Some(h.thread().clone()), ctl: None, name: self.name };
                Ok(JoinHandle { h: Handle::Real(h), th })
            }
            Some((s, me)) => {
                let slot: Arc<Mutex<Option<real::Result<T>>>> = Arc::new(Mutex::new(None));
                let slot2 = slot.clone();
                let tid = spawn_controlled(
                    &s,
                    me,
                    Box::new(move || match catch_unwind(AssertUnwindSafe(f)) {
                        Ok(v) => *slot2.lock().unwrap() = Some(Ok(v)),
                        Err(p) => {
                            if !p.is::<Abort>() {
                                *slot2.lock().unwrap() = Some(Err(Box::new("panicked")));
                            }
                            resume_unwind(p)
                        }
                    }),
                );
                let th = Thread { real: None, ctl: Some((s.clone(), tid)), name: self.name };
                Ok(JoinHandle { h: Handle::Ctl(s, tid, slot), th })
            }
        }
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}
pub fn current() -> Thread {
    match cur() {
        Some((s, t)) => Thread { real: None, ctl: Some((s, t)), name: None },
        None => {
            let c = real::current();
            Thread { name: c.name().map(str::to_string), real: Some(c), ctl: None }
        }
    }
}
pub fn sleep(d: Duration) {
    match cur() {
        None => real::sleep(d),
        Some((s, me)) => {
            let dl = s.now().saturating_add(d.as_nanos() as u64);
            // nothing wakes this resource: only the deadline ends it
            s.block(me, usize::MAX - 5000 - me, Some(dl));
        }
    }
}
pub fn yield_now() {
    match cur() {
        None => real::yield_now(),
        Some((s, me)) => s.point(me, true),
    }
}
pub fn spin_loop() {
    match cur() {
        None => std::hint::spin_loop(),
        Some((s, me)) => s.point(me, true),
    }
}
fn park_d(d: Option<Duration>) {
    let (s, me) = cur().unwrap();
    s.point(me, false);
    {
        let mut st = s.st.lock().unwrap();
        if st.threads[me].unpark_token {
            st.threads[me].unpark_token = false;
            return;
        }
    }
    let dl = d.map(|d| s.now().saturating_add(d.as_nanos() as u64));
    s.block(me, park_res(me), dl);
    s.st.lock().unwrap().threads[me].unpark_token = false;
}
pub fn park() {
    match cur() {
        None => real::park(),
        Some(_) => park_d(None),
    }
}
pub fn park_timeout(d: Duration) {
    match cur() {
        None => real::park_timeout(d),
        Some(_) => park_d(Some(d)),
    }
}
