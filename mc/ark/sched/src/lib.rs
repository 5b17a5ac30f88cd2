//! A controlled scheduler: worker threads run one at a time and stop at scheduling points (every
//! use of a lazy value or of the bounded map, every group addition, every allocation and free);
//! the explorer decides at each point which thread goes on.
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU8, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub const MAX: usize = 4;
const IDLE: u8 = 0;
const RUN: u8 = 1;
const PARK: u8 = 2;
const DONE: u8 = 3;
/// let go, not yet awake
const GO: u8 = 4;
static STATE: [AtomicU8; MAX] = [const { AtomicU8::new(IDLE) }; MAX];
/// the exploring thread
static BOSS_P: AtomicPtr<std::thread::Thread> = AtomicPtr::new(std::ptr::null_mut());
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static LEVEL: Cell<u8> = const { Cell::new(0) };
}
fn tell() {
    let p = BOSS_P.load(SeqCst);
    if !p.is_null() {
        unsafe { (*p).unpark() }
    }
}
fn stop(me: usize) {
    STATE[me].store(PARK, SeqCst);
    tell();
    let mut n = 0;
    while STATE[me].load(SeqCst) != GO {
        n += 1;
        if n < 100 {
            std::hint::spin_loop()
        } else {
            std::thread::park()
        }
    }
    STATE[me].store(RUN, SeqCst);
}
#[inline]
fn at(level: u8) {
    let me = ME.try_with(|x| x.get()).unwrap_or(usize::MAX);
    if me != usize::MAX && level >= LEVEL.with(|c| c.get()) {
        stop(me)
    }
}
/// A use of a shared lazy value or of the bounded map; nothing on threads that are not scheduled.
#[inline]
pub fn point() {
    at(3)
}
/// A group addition.
#[inline]
pub fn add_point() {
    at(2)
}
/// An allocation or a free.
#[inline]
pub fn fine_point() {
    at(1)
}
/// Runs `f` on this thread without scheduling points.
pub fn unscheduled<T>(f: impl FnOnce() -> T) -> T {
    let me = ME.with(|x| x.replace(usize::MAX));
    let r = f();
    ME.with(|x| x.set(me));
    r
}
type Job = Box<dyn FnOnce() + Send>;
struct Slot {
    job: Mutex<Option<Job>>,
    full: AtomicU8,
    stat: String,
    thread: std::thread::Thread,
}
pub struct Pool {
    slots: Vec<Arc<Slot>>,
}
#[derive(Debug, PartialEq, Clone)]
pub enum End {
    Finished,
    /// every unfinished thread waits for another
    Deadlock(Vec<usize>),
    /// a thread neither reaches a point nor waits
    Stuck(usize),
}
#[derive(Debug, Clone)]
pub struct Trace {
    pub end: End,
    /// at each decision: the threads that could go on and the one that did
    pub decisions: Vec<(Vec<u8>, u8)>,
    pub steps: usize,
    /// the given schedule could not be followed to its end
    pub diverged: bool,
    pub blocked: usize,
}
impl Pool {
    pub fn new(n: usize) -> Pool {
        assert!(n <= MAX);
        let slots = (0..n)
            .map(|i| {
                let (tx, rx) = std::sync::mpsc::channel();
                let (tx2, rx2) = std::sync::mpsc::channel::<Arc<Slot>>();
                let h = std::thread::spawn(move || {
                    let l = std::fs::read_link("/proc/thread-self").unwrap();
                    tx.send(format!("/proc/{}/stat", l.display())).unwrap();
                    let slot = rx2.recv().unwrap();
                    loop {
                        let level = slot.full.swap(0, SeqCst);
                        if level == 0 {
                            std::thread::park();
                            continue;
                        }
                        let job = slot.job.lock().unwrap().take().unwrap();
                        LEVEL.with(|c| c.set(level));
                        stop(i);
                        ME.with(|x| x.set(i));
                        job();
                        ME.with(|x| x.set(usize::MAX));
                        STATE[i].store(DONE, SeqCst);
                        tell();
                    }
                });
                let slot = Arc::new(Slot { job: Mutex::new(None), full: AtomicU8::new(0), stat: rx.recv().unwrap(), thread: h.thread().clone() });
                tx2.send(slot.clone()).unwrap();
                slot
            })
            .collect();
        BOSS_P.store(Box::into_raw(Box::new(std::thread::current())), SeqCst);
        Pool { slots }
    }
    /// Is the thread asleep in the kernel (it waits for a lock: points are waited for awake)?
    fn asleep(&self, i: usize) -> bool {
        let s = std::fs::read_to_string(&self.slots[i].stat).unwrap_or_default();
        let st = s.rsplit(')').next().unwrap_or("").trim_start().chars().next();
        st == Some('S')
    }
    /// Waits until the running thread parks, ends (true) or waits for another (false).
    fn settle(&self, i: usize) -> Result<bool, ()> {
        let mut start = None;
        let (mut n, mut slept) = (0u32, 0);
        loop {
            let st = STATE[i].load(SeqCst);
            if st == PARK || st == DONE {
                return Ok(true);
            }
            n += 1;
            if n < 100 {
                std::hint::spin_loop();
                continue;
            }
            std::thread::park_timeout(std::time::Duration::from_micros(150));
            if STATE[i].load(SeqCst) == RUN && self.asleep(i) && STATE[i].load(SeqCst) == RUN {
                slept += 1;
                if slept == 3 {
                    return Ok(false);
                }
            } else {
                slept = 0;
            }
            if start.get_or_insert_with(std::time::Instant::now).elapsed().as_secs() > 60 {
                return Err(());
            }
        }
    }
    /// Runs the jobs under the given schedule (after its end: the current thread goes on while it
    /// can, then the lowest-numbered one).
    /// `level`: 1 = every kind of point, 2 = not at memory management, 3 = not at additions either.
    pub fn run(&self, jobs: Vec<Job>, level: u8, schedule: &[u8]) -> Trace {
        let n = jobs.len();
        for (i, j) in jobs.into_iter().enumerate() {
            STATE[i].store(IDLE, SeqCst);
            *self.slots[i].job.lock().unwrap() = Some(j);
            self.slots[i].full.store(level, SeqCst);
            self.slots[i].thread.unpark();
        }
        for i in 0..n {
            while STATE[i].load(SeqCst) != PARK {
                std::thread::park_timeout(std::time::Duration::from_micros(100));
            }
        }
        let mut t = Trace { end: End::Finished, decisions: vec![], steps: 0, diverged: false, blocked: 0 };
        let mut blocked = vec![false; n];
        let mut cur = u8::MAX;
        loop {
            for i in 0..n {
                if blocked[i] {
                    match self.settle(i) {
                        Ok(true) => blocked[i] = false,
                        Ok(false) => {}
                        Err(()) => {
                            t.end = End::Stuck(i);
                            return t;
                        }
                    }
                }
            }
            let mut en: Vec<u8> = (0..n as u8).filter(|&i| !blocked[i as usize] && STATE[i as usize].load(SeqCst) == PARK).collect();
            if en.is_empty() {
                let w: Vec<usize> = (0..n).filter(|&i| blocked[i]).collect();
                if !w.is_empty() {
                    // a thread may be asleep between being woken and running
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    let mut moved = false;
                    for &i in &w {
                        moved |= !matches!(self.settle(i), Ok(false));
                    }
                    if moved {
                        continue;
                    }
                    t.end = End::Deadlock(w);
                }
                return t;
            }
            if let Some(p) = en.iter().position(|&x| x == cur) {
                en.remove(p);
                en.insert(0, cur);
            }
            let k = t.decisions.len();
            let mut c = en[0];
            if k < schedule.len() {
                if en.contains(&schedule[k]) {
                    c = schedule[k]
                } else {
                    t.diverged = true
                }
            }
            t.decisions.push((en, c));
            t.steps += 1;
            cur = c;
            STATE[c as usize].store(GO, SeqCst);
            self.slots[c as usize].thread.unpark();
            match self.settle(c as usize) {
                Ok(true) => {}
                Ok(false) => {
                    blocked[c as usize] = true;
                    t.blocked += 1;
                }
                Err(()) => {
                    t.end = End::Stuck(c as usize);
                    return t;
                }
            }
        }
    }
    /// All schedules with at most `bound` preemptions, depth first. `visit` gets each trace and
    /// the jobs' results through `jobs`' own sharing, and returns false to stop.
    pub fn explore(&self, bound: usize, level: u8, limit: usize, mut jobs: impl FnMut() -> Vec<Job>, mut visit: impl FnMut(&Trace) -> bool) -> (usize, usize, bool) {
        let mut stack: Vec<Vec<u8>> = vec![vec![]];
        let (mut runs, mut steps) = (0, 0);
        while let Some(pre) = stack.pop() {
            if runs == limit {
                return (runs, steps, false);
            }
            let t = self.run(jobs(), level, &pre);
            runs += 1;
            steps += t.steps;
            if !visit(&t) {
                return (runs, steps, false);
            }
            // cost of the prefix up to each decision
            let mut cost = 0;
            let mut last = u8::MAX;
            for (k, (en, c)) in t.decisions.iter().enumerate() {
                let free = en[0] != last;
                if k >= pre.len() {
                    for &o in &en[1..] {
                        if cost + usize::from(!free) <= bound {
                            let mut s: Vec<u8> = t.decisions[..k].iter().map(|d| d.1).collect();
                            s.push(o);
                            stack.push(s);
                        }
                    }
                }
                if !free && *c != en[0] {
                    cost += 1;
                }
                last = *c;
            }
        }
        (runs, steps, true)
    }
}
