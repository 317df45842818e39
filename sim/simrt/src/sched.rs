//! The deterministic scheduler.
//!
//! Every simulated thread is a real OS thread, but exactly one of them (the holder of the
//! baton) ever executes code of the program under test.  The baton changes hands only at
//! *points*: every atomic operation of instrumented code (via the `__tsan_*` entry points),
//! every futex operation, every thread create/join/exit, every clock read, sleep, yield and every
//! file-system call.  Who runs next is decided by a seeded PRNG (or by an explicit decision list on
//! replay), so one seed is one exactly repeatable execution.
use crate::{real, rng::Rng};
use core::cell::Cell;
use core::sync::atomic::{AtomicU32, Ordering};
use libc::*;
use std::collections::BTreeMap;

pub const NEVER: u64 = u64::MAX;
pub const MAX_SLICE: u64 = 20_000;
pub const MONO_BASE: u64 = 1_000_000_000_000;
pub const REAL_BASE: u64 = 1_700_000_000_000_000_000;

thread_local! { static ME: Cell<u32> = const { Cell::new(u32::MAX) }; }

/// One scheduling decision that differs from the default: thread `tid`, at its `at`-th point, hands over to
/// `to`; if `stall` > 0 the thread is descheduled for that many simulated nanoseconds.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dec {
    pub tid: u32,
    pub at: u64,
    pub to: u32,
    pub stall: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// Random walk: preempt at atomic points with a geometric gap, at sync points with a probability.
    Walk,
    /// Priority based (PCT-like): highest priority runnable thread runs; few random priority-change points.
    Pct,
    /// Explicit decision list; anything else is the default (keep running / round robin).
    Replay,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub mode: Mode,
    /// Mean number of atomic points between preemptions (0: never).
    pub atom_mean: u64,
    /// Probability (per mille) of a switch at a synchronisation point.
    pub sync_pm: u64,
    /// Probability (per mille) that a preempted thread is also stalled, and the longest such stall.
    pub stall_pm: u64,
    pub stall_max_ns: u64,
    pub stall_budget: u32,
    pub step_ns: u64,
    pub max_steps: u64,
    pub cpus: u32,
    pub replay: Vec<Dec>,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            seed: 0,
            mode: Mode::Walk,
            atom_mean: 200,
            sync_pm: 200,
            stall_pm: 0,
            stall_max_ns: 0,
            stall_budget: 0,
            step_ns: 20,
            max_steps: 20_000_000,
            cpus: 3,
            replay: vec![],
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    /// waiting on an address (futex or simulator-internal), possibly with a deadline
    Wait,
    Sleep,
    Join(u32),
    Dead,
}

struct Thr {
    baton: Box<AtomicU32>,
    st: St,
    addr: usize,
    bits: u32,
    deadline: u64,
    timed_out: bool,
    stalled: u64,
    points: u64,
    slice_start: u64,
    prio: u64,
    ret: usize,
    pth: pthread_t,
    name: String,
    dtors: Vec<(unsafe extern "C" fn(*mut c_void), usize)>,
}

pub struct Sim {
    cfg: Cfg,
    rng: Rng,
    thr: Vec<Thr>,
    cur: u32,
    zombie: Option<pthread_t>,
    by_pth: BTreeMap<u64, u32>,
    replay: BTreeMap<(u32, u64), (u32, u64)>,
    pub trace: Vec<Dec>,
    pub real_off: i64,
    stalls_left: u32,
    low_prio: u64,
    on_end: Option<fn(End) -> !>,
    // statistics
    pub switches: u64,
    pub preempts: u64,
    pub stalls: u64,
    pub clock_jumps: u64,
    pub hash: u64,
    /// how often each thread gave up the processor because it had to wait
    blocks: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum End {
    /// No thread can ever run again.
    Deadlock(String),
    /// The step budget ran out.
    Steps(String),
    /// The program called abort()/exit().
    Abort,
    Exit(i32),
}

static mut SIM: *mut Sim = core::ptr::null_mut();
static mut ACTIVE: bool = false;
static mut NOW: u64 = MONO_BASE;
static mut STEP_NS: u64 = 20;
static mut STEPS: u64 = 0;
/// next_at of the running thread, and its counter: kept in statics for a short hot path.
static mut CUR: u32 = 0;
static mut PTS: u64 = 0;
static mut NEXT_AT: u64 = 0;

#[inline]
pub fn me() -> u32 {
    ME.try_with(|m| m.get()).unwrap_or(u32::MAX)
}
#[inline]
pub fn active() -> bool {
    unsafe { ACTIVE && me() == CUR }
}
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn now() -> u64 {
    unsafe { NOW }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}
pub fn set_now(n: u64) {
    unsafe { NOW = n }
}

/// Become the simulation: the calling thread is thread 0.
pub fn start(cfg: Cfg, on_end: fn(End) -> !) {
    real::resolve();
    let mut rng = Rng::new(cfg.seed ^ 0x5eed_5eed);
    let replay = cfg.replay.iter().map(|d| ((d.tid, d.at), (d.to, d.stall))).collect();
    let t0 = Thr {
        baton: Box::new(AtomicU32::new(0)),
        st: St::Run,
        addr: 0,
        bits: 0,
        deadline: NEVER,
        timed_out: false,
        stalled: 0,
        points: 0,
        slice_start: 0,
        prio: rng.u64() >> 1,
        ret: 0,
        pth: unsafe { pthread_self() },
        name: "main".into(),
        dtors: vec![],
    };
    unsafe {
        STEP_NS = cfg.step_ns;
        SIM = Box::into_raw(Box::new(Sim {
            stalls_left: cfg.stall_budget,
            cfg,
            rng,
            thr: vec![t0],
            cur: 0,
            zombie: None,
            by_pth: BTreeMap::new(),
            replay,
            trace: vec![],
            real_off: 0,
            low_prio: 1 << 40,
            on_end: Some(on_end),
            switches: 0,
            preempts: 0,
            stalls: 0,
            clock_jumps: 0,
            hash: 0xcbf29ce484222325,
            blocks: vec![],
        }));
        CUR = 0;
        PTS = 0;
        STEPS = 0;
        NOW = MONO_BASE;
        ME.with(|m| m.set(0));
        let s = sim();
        s.by_pth.insert(pthread_self() as u64, 0);
        NEXT_AT = s.gap(0, 0);
        ACTIVE = true;
    }
}

/// Stop simulating: from here on everything passes through (used to report and exit).
pub fn stop() {
    unsafe { ACTIVE = false }
}

#[inline]
pub fn point() {
    unsafe {
        if !ACTIVE || me() != CUR {
            return;
        }
        STEPS += 1;
        NOW += STEP_NS;
        PTS += 1;
        if PTS >= NEXT_AT {
            sim().preempt(false);
        }
    }
}

/// A synchronisation-level point: more likely to switch.
pub fn sync_point() {
    unsafe {
        if !ACTIVE || me() != CUR {
            return;
        }
        STEPS += 1;
        NOW += STEP_NS * 5;
        PTS += 1;
        sim().preempt(true);
    }
}

impl Sim {
    /// An upper bound of all injected stalls together.
    pub fn stall_limit(&self) -> u64 {
        if self.cfg.mode == Mode::Replay {
            return self.replay.values().map(|v| v.1).sum();
        }
        self.cfg.stall_budget as u64 * self.cfg.stall_max_ns
    }
    pub fn blocks_of(&self, tid: u32) -> u64 {
        self.blocks.get(tid as usize).copied().unwrap_or(0)
    }
    /// The point index at which thread `tid` (currently at `pts`) enters the slow path next.
    fn gap(&mut self, tid: u32, pts: u64) -> u64 {
        let lim = self.thr[tid as usize].slice_start + MAX_SLICE;
        let lim = lim.max(pts + 1);
        match self.cfg.mode {
            Mode::Walk => {
                if self.cfg.atom_mean == 0 {
                    lim
                } else {
                    lim.min(pts + self.rng.geometric(self.cfg.atom_mean))
                }
            }
            Mode::Pct => {
                // change points: rare
                lim.min(pts + self.rng.geometric(self.cfg.atom_mean.max(1) * 40))
            }
            Mode::Replay => self
                .replay
                .range((tid, pts + 1)..=(tid, lim))
                .next()
                .map(|(k, _)| k.1)
                .unwrap_or(lim),
        }
    }

    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.thr.iter().enumerate() {
            if t.st != St::Dead {
                s.push_str(&format!("t{}[{}]:{:?} ", i, t.name, t.st));
            }
        }
        s
    }

    fn wake_timers(&mut self) {
        let now = now();
        for t in self.thr.iter_mut() {
            if t.deadline <= now && matches!(t.st, St::Wait | St::Sleep) {
                t.timed_out = t.st == St::Wait;
                t.st = St::Run;
                t.deadline = NEVER;
            }
        }
    }

    fn runnable(&self, i: usize) -> bool {
        let t = &self.thr[i];
        t.st == St::Run && t.stalled <= now()
    }

    fn candidates(&mut self) -> Vec<u32> {
        self.wake_timers();
        (0..self.thr.len()).filter(|&i| self.runnable(i)).map(|i| i as u32).collect()
    }

    /// Candidates, moving the clock forward when nobody can run now.
    fn candidates_or_advance(&mut self) -> Vec<u32> {
        loop {
            let c = self.candidates();
            if !c.is_empty() {
                return c;
            }
            let next = self
                .thr
                .iter()
                .filter_map(|t| match t.st {
                    St::Run => Some(t.stalled),
                    St::Wait | St::Sleep if t.deadline != NEVER => Some(t.deadline),
                    _ => None,
                })
                .min();
            match next {
                Some(n) => {
                    if n > now() {
                        self.clock_jumps += 1;
                        set_now(n);
                    }
                }
                None => {
                    let d = self.describe();
                    end(End::Deadlock(d))
                }
            }
        }
    }

    fn round_robin(&self, c: &[u32], from: u32) -> u32 {
        c.iter().copied().find(|&x| x > from).unwrap_or(c[0])
    }

    fn highest(&self, c: &[u32]) -> u32 {
        *c.iter().max_by_key(|&&i| self.thr[i as usize].prio).unwrap()
    }

    fn check_steps(&mut self) {
        if steps() > self.cfg.max_steps {
            let d = self.describe();
            end(End::Steps(d))
        }
    }

    /// A point at which the running thread *may* lose the baton.
    fn preempt(&mut self, sync: bool) {
        self.check_steps();
        let tid = unsafe { CUR };
        let pts = unsafe { PTS };
        let slice = pts - self.thr[tid as usize].slice_start >= MAX_SLICE;
        let mut others_exist = false;
        let mut stall = 0u64;
        let mut target = tid;
        match self.cfg.mode {
            Mode::Walk => {
                let hit = pts >= unsafe { NEXT_AT };
                if slice || (hit && !sync) || (sync && self.rng.chance(self.cfg.sync_pm, 1000)) {
                    let c = self.candidates();
                    let others: Vec<u32> = c.iter().copied().filter(|&x| x != tid).collect();
                    others_exist = !others.is_empty();
                    if self.stalls_left > 0 && self.cfg.stall_pm > 0 && self.rng.chance(self.cfg.stall_pm, 1000) {
                        // log-uniform between 1us and stall_max
                        let max = self.cfg.stall_max_ns.max(2_000);
                        let bits = 64 - max.leading_zeros() as u64;
                        let b = self.rng.range(10, bits);
                        stall = self.rng.range(1 << (b - 1), 1 << b).min(max);
                        self.stalls_left -= 1;
                    }
                    if !others.is_empty() {
                        target = *self.rng.pick(&others);
                    }
                }
            }
            Mode::Pct => {
                let hit = pts >= unsafe { NEXT_AT };
                if slice || hit {
                    self.low_prio -= 1;
                    self.thr[tid as usize].prio = self.low_prio;
                }
                if sync || slice || hit {
                    let c = self.candidates();
                    others_exist = c.iter().any(|&x| x != tid);
                    if !c.is_empty() {
                        target = self.highest(&c);
                    }
                }
            }
            Mode::Replay => {
                if let Some(&(to, st)) = self.replay.get(&(tid, pts)) {
                    let c = self.candidates();
                    stall = st;
                    if c.contains(&to) {
                        target = to;
                    } else if stall == 0 && !c.is_empty() {
                        target = self.round_robin(&c, tid);
                    }
                } else if slice {
                    let c = self.candidates();
                    if !c.is_empty() {
                        target = self.round_robin(&c, tid);
                    }
                }
            }
        }
        if stall > 0 {
            self.stalls += 1;
            self.thr[tid as usize].stalled = now() + stall;
            if target == tid {
                // nobody else can run: time passes
                let c = self.candidates_or_advance();
                target = if c.contains(&tid) { tid } else { self.round_robin(&c, tid) };
            }
            self.trace.push(Dec { tid, at: pts, to: target, stall });
        } else if target != tid {
            self.trace.push(Dec { tid, at: pts, to: target, stall: 0 });
        } else if slice && others_exist {
            self.trace.push(Dec { tid, at: pts, to: target, stall: 0 });
        }
        if slice {
            self.thr[tid as usize].slice_start = pts;
        }
        if target != tid {
            self.preempts += 1;
            self.switch_to(target);
        } else {
            unsafe { NEXT_AT = self.gap(tid, pts) };
        }
    }

    /// The running thread cannot (or does not want to) continue: somebody else must run.
    fn pass_on(&mut self, yielding: bool) {
        self.check_steps();
        let tid = unsafe { CUR };
        if !yielding {
            if self.blocks.len() <= tid as usize {
                self.blocks.resize(tid as usize + 1, 0);
            }
            self.blocks[tid as usize] += 1;
        }
        unsafe {
            PTS += 1;
            STEPS += 1;
            NOW += STEP_NS * 5;
        }
        let pts = unsafe { PTS };
        if yielding && self.cfg.mode == Mode::Pct {
            self.low_prio -= 1;
            self.thr[tid as usize].prio = self.low_prio;
        }
        let mut c = self.candidates_or_advance();
        if yielding {
            if c.len() > 1 {
                c.retain(|&x| x != tid);
            } else {
                // spinning while nobody else can run: let time pass faster
                unsafe { NOW += 20_000 };
                c = self.candidates();
            }
        }
        let def = self.round_robin(&c, tid);
        let target = match self.cfg.mode {
            Mode::Walk => *self.rng.pick(&c),
            Mode::Pct => self.highest(&c),
            Mode::Replay => match self.replay.get(&(tid, pts)) {
                Some((to, _)) if c.contains(to) => *to,
                _ => def,
            },
        };
        if target != def {
            self.trace.push(Dec { tid, at: pts, to: target, stall: 0 });
        }
        if target != tid {
            self.switch_to(target);
        } else {
            self.thr[tid as usize].slice_start = pts;
            unsafe { NEXT_AT = self.gap(tid, pts) };
        }
    }

    fn note_switch(&mut self, target: u32) {
        self.switches += 1;
        let mut h = self.hash;
        for v in [unsafe { CUR } as u64, unsafe { PTS }, target as u64] {
            h = (h ^ v).wrapping_mul(0x100000001b3);
        }
        self.hash = h;
    }

    fn switch_to(&mut self, target: u32) {
        self.note_switch(target);
        unsafe {
            let tid = CUR;
            self.thr[tid as usize].points = PTS;
            let mine = &*(&*self.thr[tid as usize].baton as *const AtomicU32);
            self.give(target);
            // `self` may be used by others from here on
            wait_baton(mine);
        }
        sim().resumed();
    }

    fn give(&mut self, target: u32) {
        unsafe {
            CUR = target;
            PTS = self.thr[target as usize].points;
            self.cur = target;
            self.thr[target as usize].slice_start = PTS;
            NEXT_AT = self.gap(target, PTS);
            let b = &*(&*self.thr[target as usize].baton as *const AtomicU32);
            b.store(1, Ordering::Release);
            real::futex_wake(b as *const _ as *const u32);
        }
    }

    /// Just received the baton.
    fn resumed(&mut self) {
        if let Some(z) = self.zombie.take() {
            unsafe { real::pthread_join(z, core::ptr::null_mut()) };
        }
    }
}

fn wait_baton(b: &AtomicU32) {
    while b.swap(0, Ordering::Acquire) == 0 {
        real::futex_wait(b as *const _ as *const u32, 0);
    }
}

pub fn end(e: End) -> ! {
    let f = sim().on_end;
    stop();
    match f {
        Some(f) => f(e),
        None => real::exit_group(98),
    }
}

// ------------------------------------------------------------------ blocking primitives

pub fn yield_now() {
    sim().pass_on(true)
}

pub fn sleep_ns(ns: u64) {
    sleep_until(now().saturating_add(ns))
}
pub fn sleep_until(t: u64) {
    let s = sim();
    let m = unsafe { CUR } as usize;
    s.thr[m].st = St::Sleep;
    s.thr[m].deadline = t;
    s.pass_on(false);
}

/// Wait on an address.  Returns true if woken, false on timeout.
pub fn wait_on(addr: usize, bits: u32, deadline: u64) -> bool {
    let s = sim();
    let m = unsafe { CUR } as usize;
    s.thr[m].st = St::Wait;
    s.thr[m].addr = addr;
    s.thr[m].bits = bits;
    s.thr[m].deadline = deadline;
    s.thr[m].timed_out = false;
    s.pass_on(false);
    !sim().thr[m].timed_out
}

/// Wake up to `n` waiters of an address, in an order chosen by the scheduler's PRNG in walk mode.
pub fn wake(addr: usize, n: usize, bits: u32) -> usize {
    let s = sim();
    let mut w: Vec<usize> = (0..s.thr.len())
        .filter(|&i| s.thr[i].st == St::Wait && s.thr[i].addr == addr && s.thr[i].bits & bits != 0)
        .collect();
    w.truncate(n);
    for &i in &w {
        s.thr[i].st = St::Run;
        s.thr[i].deadline = NEVER;
        s.thr[i].timed_out = false;
    }
    w.len()
}

// ------------------------------------------------------------------ threads

struct Boot {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    id: u32,
    baton: *const AtomicU32,
}

extern "C" fn boot(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    ME.with(|m| m.set(b.id));
    wait_baton(unsafe { &*b.baton });
    sim().resumed();
    let id = b.id as usize;
    let r = (b.f)(b.arg);
    // thread-local destructors, while still holding the baton
    loop {
        match sim().thr[id].dtors.pop() {
            Some((f, o)) => unsafe { f(o as *mut c_void) },
            None => break,
        }
    }
    drop(b);
    let s = sim();
    s.thr[id].st = St::Dead;
    s.thr[id].ret = r as usize;
    s.thr[id].points = unsafe { PTS };
    for t in s.thr.iter_mut() {
        if t.st == St::Join(id as u32) {
            t.st = St::Run;
        }
    }
    unsafe {
        PTS += 1;
        STEPS += 1;
    }
    let pts = unsafe { PTS };
    let c = s.candidates_or_advance();
    let def = s.round_robin(&c, id as u32);
    let target = match s.cfg.mode {
        Mode::Walk => *s.rng.pick(&c),
        Mode::Pct => s.highest(&c),
        Mode::Replay => match s.replay.get(&(id as u32, pts)) {
            Some((to, _)) if c.contains(to) => *to,
            _ => def,
        },
    };
    if target != def {
        s.trace.push(Dec { tid: id as u32, at: pts, to: target, stall: 0 });
    }
    s.note_switch(target);
    s.zombie = Some(s.thr[id].pth);
    ME.with(|m| m.set(u32::MAX));
    s.give(target);
    r
}

pub unsafe fn spawn(
    out: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let s = sim();
    let id = s.thr.len() as u32;
    let prio = s.rng.u64() >> 1;
    let baton = Box::new(AtomicU32::new(0));
    let bp: *const AtomicU32 = &*baton;
    s.thr.push(Thr {
        baton,
        st: St::Run,
        addr: 0,
        bits: 0,
        deadline: NEVER,
        timed_out: false,
        stalled: 0,
        points: 0,
        slice_start: 0,
        prio,
        ret: 0,
        pth: 0,
        name: String::new(),
        dtors: vec![],
    });
    let b = Box::into_raw(Box::new(Boot { f, arg, id, baton: bp }));
    let mut pth: pthread_t = 0;
    let r = real::pthread_create(&mut pth, attr, boot, b as *mut c_void);
    if r != 0 {
        s.thr.pop();
        drop(Box::from_raw(b));
        return r;
    }
    // a handle of our own: the real thread is reaped when it ends and its handle then names another
    let handle = 0x7515_0000_0000u64 + id as u64 * 16;
    *out = handle as pthread_t;
    s.thr[id as usize].pth = pth;
    s.by_pth.insert(handle, id);
    sync_point();
    0
}

pub unsafe fn join(p: pthread_t, ret: *mut *mut c_void) -> Option<c_int> {
    let s = sim();
    let id = *s.by_pth.get(&(p as u64))?;
    sync_point();
    let s = sim();
    if s.thr[id as usize].st != St::Dead {
        s.thr[CUR as usize].st = St::Join(id);
        s.pass_on(false);
    }
    if !ret.is_null() {
        *ret = sim().thr[id as usize].ret as *mut c_void;
    }
    Some(0)
}

pub fn push_dtor(f: unsafe extern "C" fn(*mut c_void), o: usize) {
    let m = unsafe { CUR } as usize;
    sim().thr[m].dtors.push((f, o));
}

pub fn set_name(n: &str) {
    let m = unsafe { CUR } as usize;
    sim().thr[m].name = n.to_string();
}
pub fn name_of(tid: u32) -> String {
    sim().thr.get(tid as usize).map(|t| t.name.clone()).unwrap_or_default()
}
pub fn cpus() -> u32 {
    sim().cfg.cpus
}
pub fn threads() -> usize {
    sim().thr.len()
}
pub fn live_threads() -> usize {
    sim().thr.iter().filter(|t| t.st != St::Dead).count()
}
/// Description of every live thread's state.
pub fn describe() -> String {
    sim().describe()
}
/// True if thread `tid` is finished.
pub fn is_dead(tid: u32) -> bool {
    sim().thr.get(tid as usize).map_or(true, |t| t.st == St::Dead)
}
/// PRNG for simulated entropy (getrandom etc.): separate draws from the scheduler stream are not
/// needed, but on replay the scheduler stream must not shift, so it has its own generator.
pub fn entropy() -> u64 {
    static mut E: u64 = 0;
    unsafe {
        if E == 0 {
            E = if SIM.is_null() { 1 } else { sim().cfg.seed } ^ 0xe27;
        }
        crate::rng::splitmix(&mut *(&raw mut E))
    }
}
