//! Runs threads one at a time in a chosen schedule. The threads give way where they lock a node, which is all the
//! sharing there is. Needs k compiled with `--cfg k_verif`, otherwise the threads just run.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

#[cfg(k_verif)]
pub const CONTROLLED: bool = true;
#[cfg(not(k_verif))]
pub const CONTROLLED: bool = false;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Run {
    Ready,
    Waits(usize),
    Done,
}

struct State {
    cur: usize,
    run: Vec<Run>,
    /// steps at which another thread continues, in increasing order, and which one
    plan: Vec<(u64, u8)>,
    next: usize,
    step: u64,
    /// the schedule is given up, every thread runs on
    free: bool,
    deadlock: bool,
    switches: u64,
}

pub struct Control {
    state: Mutex<State>,
    cv: Condvar,
}

/// runs in which no thread went on for half a second: they wait for something which is not a node. After some of them
/// the schedule is left to the system
static STUCK: AtomicU64 = AtomicU64::new(0);
const MAX_STUCK: u64 = 64;

/// a longer run is not scheduled to its end
const MAX_STEPS: u64 = 100_000;

impl Control {
    /// plan: number of steps to go on, and who then continues
    fn new(threads: usize, plan: &[(u8, u8)]) -> Arc<Control> {
        let mut at = 0;
        let plan: Vec<(u64, u8)> = plan
            .iter()
            .map(|(gap, who)| {
                at += *gap as u64 + 1;
                (at, *who)
            })
            .collect();
        let cur = plan.first().map(|p| p.1 as usize).unwrap_or(0) % threads;
        Arc::new(Control {
            state: Mutex::new(State {
                cur,
                run: vec![Run::Ready; threads],
                plan,
                next: 0,
                step: 0,
                free: false,
                deadlock: false,
                switches: 0,
            }),
            cv: Condvar::new(),
        })
    }
    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|p| p.into_inner())
    }
    fn wait_turn(&self, mut s: MutexGuard<'_, State>, me: usize) {
        while !s.free && !s.deadlock && s.cur != me {
            s = self.cv.wait(s).unwrap_or_else(|p| p.into_inner());
        }
        if s.deadlock {
            drop(s);
            panic!("deadlock");
        }
    }
    /// someone else continues, if anyone can
    fn pass(&self, s: &mut State, who: u8) -> bool {
        let c: Vec<usize> = (0..s.run.len()).filter(|i| *i != s.cur && s.run[*i] == Run::Ready).collect();
        if c.is_empty() {
            return false;
        }
        s.cur = c[who as usize % c.len()];
        s.switches += 1;
        self.cv.notify_all();
        true
    }
    fn tick(&self, s: &mut State) {
        s.step += 1;
        if s.step > MAX_STEPS && !s.free {
            s.free = true;
            self.cv.notify_all();
        }
    }
    #[cfg_attr(not(k_verif), allow(dead_code))]
    fn before(&self, me: usize) {
        let mut s = self.lock();
        if s.free {
            return;
        }
        self.tick(&mut s);
        if s.next < s.plan.len() && s.step >= s.plan[s.next].0 {
            let who = s.plan[s.next].1;
            s.next += 1;
            self.pass(&mut s, who);
        }
        self.wait_turn(s, me);
    }
    #[cfg_attr(not(k_verif), allow(dead_code))]
    fn unavailable(&self, me: usize, mutex: usize) -> bool {
        let mut s = self.lock();
        if s.free {
            return false;
        }
        self.tick(&mut s);
        s.run[me] = Run::Waits(mutex);
        let who = s.plan.get(s.next).map(|p| p.1).unwrap_or(0);
        if !self.pass(&mut s, who) {
            s.deadlock = true;
            self.cv.notify_all();
        }
        self.wait_turn(s, me);
        !self.lock().free
    }
    #[cfg_attr(not(k_verif), allow(dead_code))]
    fn not_acquired(&self, me: usize) {
        let mut s = self.lock();
        if s.free {
            return;
        }
        self.tick(&mut s);
        self.pass(&mut s, 0);
        self.wait_turn(s, me);
    }
    #[cfg_attr(not(k_verif), allow(dead_code))]
    fn released(&self, mutex: usize) {
        let mut s = self.lock();
        for r in s.run.iter_mut() {
            if *r == Run::Waits(mutex) {
                *r = Run::Ready;
            }
        }
    }
    fn begin(&self, me: usize) {
        let s = self.lock();
        self.wait_turn(s, me);
    }
    fn end(&self, me: usize) {
        let mut s = self.lock();
        s.run[me] = Run::Done;
        let who = s.plan.get(s.next).map(|p| p.1).unwrap_or(0);
        if s.cur == me && !self.pass(&mut s, who) && s.run.iter().any(|r| *r != Run::Done) {
            s.deadlock = true;
        }
        self.cv.notify_all();
    }
}

#[cfg(k_verif)]
mod hook {
    use super::Control;
    use std::cell::RefCell;
    use std::sync::{Arc, Once};

    thread_local! {
        pub static ME: RefCell<Option<(Arc<Control>, usize)>> = const { RefCell::new(None) };
    }
    struct O;
    fn me() -> Option<(Arc<Control>, usize)> {
        ME.try_with(|m| m.borrow().clone()).ok().flatten()
    }
    impl k::verif_sync::Observer for O {
        fn before_lock(&self, _: usize) {
            if let Some((c, i)) = me() {
                c.before(i)
            }
        }
        fn unavailable(&self, mutex: usize) -> bool {
            match me() {
                Some((c, i)) => c.unavailable(i, mutex),
                None => false,
            }
        }
        fn not_acquired(&self, _: usize) {
            if let Some((c, i)) = me() {
                c.not_acquired(i)
            }
        }
        fn released(&self, mutex: usize) {
            if let Some((c, _)) = me() {
                c.released(mutex)
            }
        }
    }
    pub fn install() {
        static ONCE: Once = Once::new();
        ONCE.call_once(|| k::verif_sync::observe(&O));
    }
}

/// A clock which is common to the threads
#[derive(Default)]
pub struct Clock(AtomicU64);
impl Clock {
    pub fn now(&self) -> u64 {
        self.0.fetch_add(1, Ordering::SeqCst)
    }
}

pub struct Outcome<R> {
    pub results: Vec<Result<R, String>>,
    pub switches: u64,
    pub deadlock: bool,
    /// the schedule was followed to the end
    pub controlled: bool,
}

/// Runs the bodies at the same time. plan: None to let them run freely
pub fn run<R: Send>(bodies: Vec<Box<dyn FnOnce() -> R + Send + '_>>, plan: Option<&[(u8, u8)]>) -> Outcome<R> {
    let n = bodies.len();
    let ctl = match plan {
        Some(p) if CONTROLLED && STUCK.load(Ordering::Relaxed) < MAX_STUCK => Some(Control::new(n, p)),
        _ => None,
    };
    #[cfg(k_verif)]
    hook::install();
    let start = std::sync::Barrier::new(n);
    let results: Vec<Result<R, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(i, b)| {
                let (ctl, start) = (&ctl, &start);
                s.spawn(move || match ctl {
                    None => {
                        start.wait();
                        crate::runner::guarded(b)
                    }
                    Some(c) => {
                        #[cfg(k_verif)]
                        hook::ME.with(|m| *m.borrow_mut() = Some((c.clone(), i)));
                        let r = crate::runner::guarded(|| {
                            c.begin(i);
                            b()
                        });
                        #[cfg(k_verif)]
                        hook::ME.with(|m| *m.borrow_mut() = None);
                        c.end(i);
                        r
                    }
                })
            })
            .collect();
        if let Some(c) = &ctl {
            // threads which wait for something else than a node: let all of them run on
            let mut s = c.lock();
            let (mut last, mut still) = (0, 0);
            while s.run.iter().any(|r| *r != Run::Done) {
                let (t, to) = c.cv.wait_timeout(s, Duration::from_millis(100)).unwrap_or_else(|p| p.into_inner());
                s = t;
                if !to.timed_out() {
                    continue;
                }
                still = if s.step == last { still + 1 } else { 0 };
                last = s.step;
                if still >= 5 && !s.free {
                    s.free = true;
                    STUCK.fetch_add(1, Ordering::Relaxed);
                    c.cv.notify_all();
                }
                if s.free {
                    break;
                }
            }
        }
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread lost".into()))).collect()
    });
    match ctl {
        None => Outcome {
            results,
            switches: 0,
            deadlock: false,
            controlled: false,
        },
        Some(c) => {
            let s = c.lock();
            Outcome {
                results,
                switches: s.switches,
                deadlock: s.deadlock,
                controlled: !s.free,
            }
        }
    }
}
