//! The runtime: one thread runs at a time, and at every seam the choice stream
//! decides who runs next, what fails and whether the process dies here.
use ::std::any::Any;
use ::std::cell::RefCell;
use ::std::collections::BTreeMap;
use ::std::panic::AssertUnwindSafe;
use ::std::path::{Component, Path, PathBuf};
use ::std::sync::{Arc, Condvar, Mutex, MutexGuard};
use simcore::{Ctx, Violation};

/// Payload with which simulated threads are unwound when the process dies.
pub struct Killed;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum State {
    Runnable,
    Blocked(usize, &'static str),
    Sleeping(u64),
    Done,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Dead {
    /// simulated crash of the process
    Crash,
    Deadlock(String),
    StepLimit,
    /// regular end of the process: remaining threads are stopped
    Exit,
}

pub struct Th {
    pub name: String,
    pub state: State,
}

#[derive(Clone, Debug)]
pub struct PanicRecord {
    pub thread: String,
    pub file: String,
    pub line: u32,
    pub msg: String,
}

#[derive(Clone)]
pub struct Resource {
    pub status: u16,
    pub body: Arc<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Request {
    pub url: String,
    /// what the client was given
    pub outcome: String,
}

#[derive(Clone, Debug)]
pub struct FsRecord {
    pub op: &'static str,
    pub path: PathBuf,
    pub thread: String,
}

pub struct Inner {
    pub ctx: Ctx,
    pub threads: Vec<Th>,
    current: usize,
    pub now: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub dead: Option<Dead>,
    /// crash when this many further seams have passed
    pub crash_in: Option<u64>,
    pub panics: Vec<PanicRecord>,
    switch_num: u64,
    pub root: PathBuf,
    // ---- faults
    pub fs_fault_den: u64,
    pub fs_faults_left: u64,
    pub net_fault_num: u64,
    pub disk_full: bool,
    /// a whole operation kind fails for the rest of the epoch, e.g. ("write", "modconfig")
    pub sticky: Option<(&'static str, String)>,
    pub env_fault_num: u64,
    /// bodies may end early without the client being able to notice
    pub net_short: bool,
    // ---- world
    pub base_dirs: bool,
    pub resources: BTreeMap<String, Resource>,
    pub requests: Vec<Request>,
    pub commands: Vec<String>,
    pub escapes: Vec<FsRecord>,
    pub writes: Vec<FsRecord>,
    /// called after every change of the disk
    pub on_disk_change: Option<fn(&mut Inner, &'static str, &Path)>,
    pub violation: Option<Violation>,
    pub fired: u64,
    /// free for the harness
    pub world: Option<Box<dyn Any + Send>>,
}

pub struct Sim {
    pub inner: Mutex<Inner>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sim>, usize)>> = const { RefCell::new(None) };
}

pub fn me() -> Option<(Arc<Sim>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().flatten()
}

pub fn in_sim() -> bool {
    me().is_some()
}

impl Sim {
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
}

impl Inner {
    fn pick_next(&mut self, me: usize) -> Option<usize> {
        loop {
            let mut cand: Vec<usize> = Vec::new();
            if self.threads[me].state == State::Runnable {
                cand.push(me);
            }
            for (i, t) in self.threads.iter().enumerate() {
                if i != me && t.state == State::Runnable {
                    cand.push(i);
                }
            }
            if !cand.is_empty() {
                if cand.len() == 1 {
                    return Some(cand[0]);
                }
                if cand[0] == me {
                    // stay, unless the choice stream says otherwise
                    let num = self.switch_num;
                    if !self.ctx.chance(num, 16) {
                        return Some(me);
                    }
                    let k = 1 + self.ctx.draw(cand.len() as u64 - 1) as usize;
                    return Some(cand[k]);
                }
                let k = self.ctx.draw(cand.len() as u64) as usize;
                return Some(cand[k]);
            }
            // nobody can run: time passes until the next sleeper wakes
            let next = self
                .threads
                .iter()
                .filter_map(|t| match t.state {
                    State::Sleeping(u) => Some(u),
                    _ => None,
                })
                .min();
            match next {
                Some(t) => {
                    self.now = self.now.max(t);
                    self.wake_sleepers();
                }
                None => return None,
            }
        }
    }

    fn wake_sleepers(&mut self) {
        for t in &mut self.threads {
            if let State::Sleeping(u) = t.state {
                if u <= self.now {
                    t.state = State::Runnable;
                }
            }
        }
    }

    pub fn wake(&mut self, key: usize) {
        for t in &mut self.threads {
            if matches!(t.state, State::Blocked(k, _) if k == key) {
                t.state = State::Runnable;
            }
        }
    }

    pub fn kill_all(&mut self, d: Dead) {
        if self.dead.is_none() {
            self.ctx.event(format!("process ends: {d:?}"));
            self.dead = Some(d);
        }
        for t in &mut self.threads {
            if t.state != State::Done {
                t.state = State::Runnable;
            }
        }
    }

    pub fn thread_name(&self) -> String {
        self.threads
            .get(self.current)
            .map(|t| t.name.clone())
            .unwrap_or_default()
    }

    pub fn fault(&mut self, kind: &str) {
        self.fired += 1;
        self.ctx.fault(kind);
    }

    /// Should this file operation fail?  Returns the errno.
    pub fn fs_fault(&mut self, op: &'static str, path: &Path) -> Option<i32> {
        if let Some((sop, frag)) = &self.sticky {
            if *sop == op && path.to_string_lossy().contains(frag.as_str()) {
                let k = format!("fs-sticky-{op}");
                self.fault(&k);
                return Some(if op == "write" || op == "create" { 28 } else { 5 });
            }
        }
        if self.disk_full && matches!(op, "write" | "create" | "mkdir") {
            self.fault("fs-disk-full");
            return Some(28);
        }
        if self.fs_faults_left == 0 || self.fs_fault_den == 0 {
            return None;
        }
        let den = self.fs_fault_den;
        if !self.ctx.chance(1, den) {
            return None;
        }
        self.fs_faults_left -= 1;
        let k = format!("fs-{op}-error");
        self.fault(&k);
        const EIO: i32 = 5;
        const EACCES: i32 = 13;
        const ENOSPC: i32 = 28;
        const EMFILE: i32 = 24;
        let opts: &[i32] = match op {
            "write" => &[EIO, ENOSPC],
            "create" | "mkdir" => &[EACCES, ENOSPC, EIO, EMFILE],
            "open" => &[EACCES, EIO, EMFILE],
            "read" => &[EIO],
            "remove" | "rename" => &[EACCES, EIO],
            _ => &[EIO, EACCES],
        };
        Some(*self.ctx.pick(opts))
    }

    pub fn disk_changed(&mut self, op: &'static str, path: &Path) {
        if let Some(f) = self.on_disk_change {
            f(self, op, path);
        }
    }
}

/// Access to the shared state of the running simulation.
pub fn with<R>(f: impl FnOnce(&mut Inner) -> R) -> R {
    let (sim, _) = me().expect("not inside a simulation");
    let mut g = sim.lock();
    f(&mut g)
}

pub fn try_with<R>(f: impl FnOnce(&mut Inner) -> R) -> Option<R> {
    let (sim, _) = me()?;
    let mut g = sim.lock();
    Some(f(&mut g))
}

fn die() -> ! {
    ::std::panic::resume_unwind(Box::new(Killed))
}

/// Has the simulated process died?  Effects are suppressed from then on.
pub fn is_dead() -> bool {
    try_with(|i| i.dead.is_some()).unwrap_or(false)
}

fn switch(sim: &Arc<Sim>, my: usize, mut g: MutexGuard<'_, Inner>) {
    match g.pick_next(my) {
        Some(n) => g.current = n,
        None => {
            let desc: Vec<String> = g
                .threads
                .iter()
                .filter(|t| t.state != State::Done)
                .map(|t| format!("{}: {:?}", t.name, t.state))
                .map(|s| s.split('(').next().unwrap_or("").to_string() + s.rsplit(',').next().unwrap_or(""))
                .collect();
            let d = Dead::Deadlock(desc.join("; "));
            g.kill_all(d);
            g.current = my;
        }
    }
    if g.current != my {
        sim.cv.notify_all();
        while g.current != my {
            g = sim.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    let dead = g.dead.is_some();
    drop(g);
    if dead && !::std::thread::panicking() {
        die();
    }
}

/// A point at which another thread may run, time passes, or the process dies.
pub fn seam(what: &'static str) {
    let Some((sim, my)) = me() else { return };
    let mut g = sim.lock();
    if g.dead.is_some() {
        drop(g);
        if ::std::thread::panicking() {
            return;
        }
        die();
    }
    if ::std::thread::panicking() {
        // unwinding because of a real panic: no scheduling inside destructors
        return;
    }
    let _ = what;
    g.steps += 1;
    g.now += 2_000;
    g.wake_sleepers();
    if g.steps > g.max_steps {
        g.kill_all(Dead::StepLimit);
    } else if let Some(n) = g.crash_in {
        if n == 0 {
            g.ctx.event(format!("crash at {what}"));
            g.fault("process-crash");
            g.crash_in = None;
            g.kill_all(Dead::Crash);
        } else {
            g.crash_in = Some(n - 1);
        }
    }
    if g.dead.is_some() {
        drop(g);
        die();
    }
    switch(&sim, my, g);
}

/// Block until someone calls `wake(key)`; the caller re-checks its condition.
pub fn block(key: usize, what: &'static str) {
    let Some((sim, my)) = me() else {
        ::std::thread::yield_now();
        return;
    };
    let mut g = sim.lock();
    if g.dead.is_some() {
        drop(g);
        if ::std::thread::panicking() {
            return;
        }
        die();
    }
    g.threads[my].state = State::Blocked(key, what);
    switch(&sim, my, g);
}

pub fn wake(key: usize) {
    let _ = try_with(|i| i.wake(key));
}

pub fn sleep(ns: u64) {
    let Some((sim, my)) = me() else {
        ::std::thread::sleep(::std::time::Duration::from_nanos(ns));
        return;
    };
    seam("sleep");
    let mut g = sim.lock();
    if g.dead.is_some() {
        drop(g);
        return;
    }
    let until = g.now + ns;
    g.threads[my].state = State::Sleeping(until);
    switch(&sim, my, g);
}

pub fn now() -> u64 {
    try_with(|i| {
        i.now += 100;
        i.now
    })
    .unwrap_or(0)
}

/// All other threads are finished or wait for something only this thread (or
/// nobody) can provide.
pub fn others_idle() -> bool {
    let Some((sim, my)) = me() else { return true };
    let g = sim.lock();
    g.threads
        .iter()
        .enumerate()
        .all(|(i, t)| i == my || matches!(t.state, State::Done | State::Blocked(..)))
}

pub fn others_done() -> bool {
    let Some((sim, my)) = me() else { return true };
    let g = sim.lock();
    g.threads
        .iter()
        .enumerate()
        .all(|(i, t)| i == my || t.state == State::Done)
}

pub struct ThreadSlot<T> {
    pub result: Mutex<Option<::std::thread::Result<T>>>,
}

/// Start a simulated thread.  Called by a simulated thread (or by `run`).
pub fn spawn_in<T: Send + 'static>(
    sim: &Arc<Sim>,
    name: String,
    f: impl FnOnce() -> T + Send + 'static,
) -> (usize, Arc<ThreadSlot<T>>) {
    let slot = Arc::new(ThreadSlot {
        result: Mutex::new(None),
    });
    let (id, rseed) = {
        let mut g = sim.lock();
        let id = g.threads.len();
        g.threads.push(Th {
            name,
            state: State::Runnable,
        });
        let r = g.ctx.draw(1 << 16);
        (id, simcore::mix(r, id as u64))
    };
    let s2 = sim.clone();
    let slot2 = slot.clone();
    ::std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            simcore::rand_seam::reseed(rseed);
            ME.with(|m| *m.borrow_mut() = Some((s2.clone(), id)));
            // wait for the first turn
            let dead = {
                let mut g = s2.lock();
                while g.current != id {
                    g = s2.cv.wait(g).unwrap_or_else(|e| e.into_inner());
                }
                g.dead.is_some()
            };
            let r = if dead {
                Err(Box::new(Killed) as Box<dyn Any + Send>)
            } else {
                ::std::panic::catch_unwind(AssertUnwindSafe(f))
            };
            let mut g = s2.lock();
            if let Err(e) = &r {
                if !e.is::<Killed>() {
                    let (file, line, msg) = simcore::driver::take_panic().unwrap_or_default();
                    let thread = g.threads[id].name.clone();
                    g.ctx.event(format!("panic in {thread}: {msg}"));
                    g.panics.push(PanicRecord {
                        thread,
                        file,
                        line,
                        msg,
                    });
                }
            }
            // the result's destructors may pass seams: park it first
            *slot2.result.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
            g.threads[id].state = State::Done;
            let key = Arc::as_ptr(&slot2) as *const u8 as usize;
            g.wake(key);
            match g.pick_next(id) {
                Some(n) => g.current = n,
                None => {
                    if g.threads.iter().all(|t| t.state == State::Done) {
                        g.current = usize::MAX;
                    } else {
                        g.kill_all(Dead::Deadlock("all remaining threads are blocked".into()));
                        let n = g
                            .threads
                            .iter()
                            .position(|t| t.state == State::Runnable)
                            .unwrap_or(usize::MAX);
                        g.current = n;
                    }
                }
            }
            drop(g);
            ME.with(|m| *m.borrow_mut() = None);
            s2.cv.notify_all();
        })
        .expect("spawn");
    (id, slot)
}

pub struct Config {
    pub root: PathBuf,
    pub max_steps: u64,
    pub crash_in: Option<u64>,
}

/// Run `f` as the main thread of a simulated process until every thread has
/// ended. The context is lent to the simulation and handed back.
pub fn run<T: Send + 'static>(
    ctx: &mut Ctx,
    cfg: Config,
    setup: impl FnOnce(&mut Inner),
    f: impl FnOnce() -> T + Send + 'static,
) -> (Option<T>, Inner) {
    let placeholder = Ctx::new(simcore::Choices::replay(Vec::new()), false);
    let mut own = ::std::mem::replace(ctx, placeholder);
    let switch_num = [1u64, 3, 8, 14][own.draw(4) as usize];
    let mut inner = Inner {
        ctx: own,
        threads: Vec::new(),
        current: 0,
        now: 1_000_000_000,
        steps: 0,
        max_steps: cfg.max_steps,
        dead: None,
        crash_in: cfg.crash_in,
        panics: Vec::new(),
        switch_num,
        root: cfg.root,
        fs_fault_den: 0,
        fs_faults_left: 0,
        net_fault_num: 0,
        env_fault_num: 0,
        net_short: true,
        disk_full: false,
        sticky: None,
        base_dirs: true,
        resources: BTreeMap::new(),
        requests: Vec::new(),
        commands: Vec::new(),
        escapes: Vec::new(),
        writes: Vec::new(),
        on_disk_change: None,
        violation: None,
        fired: 0,
        world: None,
    };
    setup(&mut inner);
    let sim = Arc::new(Sim {
        inner: Mutex::new(inner),
        cv: Condvar::new(),
    });
    let (_, slot) = spawn_in(&sim, "main".into(), move || {
        let r = f();
        // main returns: the process exits, whatever the other threads do
        if let Some(()) = try_with(|i| {
            let me_done = i.threads.len() == 1;
            if !me_done && i.threads.iter().skip(1).any(|t| t.state != State::Done) {
                i.kill_all(Dead::Exit);
            }
        }) {}
        r
    });
    {
        let mut g = sim.lock();
        while !g.threads.iter().all(|t| t.state == State::Done) {
            g = sim.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    // a thread hands over the baton before its own teardown; wait for the last
    let r = slot.result.lock().unwrap_or_else(|e| e.into_inner()).take();
    let mut dummy = None;
    let value = match r {
        Some(Ok(v)) => Some(v),
        Some(Err(e)) => {
            dummy = Some(e);
            None
        }
        None => None,
    };
    drop(dummy);
    let mut g = sim.lock();
    let mut out = Inner {
        ctx: Ctx::new(simcore::Choices::replay(Vec::new()), false),
        threads: ::std::mem::take(&mut g.threads),
        current: 0,
        now: g.now,
        steps: g.steps,
        max_steps: g.max_steps,
        dead: g.dead.take(),
        crash_in: g.crash_in,
        panics: ::std::mem::take(&mut g.panics),
        switch_num,
        root: g.root.clone(),
        fs_fault_den: 0,
        fs_faults_left: 0,
        net_fault_num: 0,
        env_fault_num: 0,
        net_short: true,
        disk_full: false,
        sticky: None,
        base_dirs: true,
        resources: ::std::mem::take(&mut g.resources),
        requests: ::std::mem::take(&mut g.requests),
        commands: ::std::mem::take(&mut g.commands),
        escapes: ::std::mem::take(&mut g.escapes),
        writes: ::std::mem::take(&mut g.writes),
        on_disk_change: None,
        violation: g.violation.take(),
        fired: g.fired,
        world: g.world.take(),
    };
    let mut back = ::std::mem::replace(
        &mut g.ctx,
        Ctx::new(simcore::Choices::replay(Vec::new()), false),
    );
    back.sim_us += (g.now - 1_000_000_000) / 1000;
    drop(g);
    *ctx = back;
    out.current = 0;
    (value, out)
}

/// Lexical containment: where does this path lead?
pub fn normalise(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            Component::ParentDir => {
                out.pop();
            }
            Component::CurDir => {}
            other => out.push(other.as_os_str()),
        }
    }
    out
}

/// Every path an operation would change must lie under the scratch root; any
/// other is recorded and the operation is not performed.
pub fn contained(op: &'static str, p: &Path) -> bool {
    try_with(|i| {
        let n = normalise(p);
        let thread = i.thread_name();
        if n.starts_with(&i.root) {
            i.writes.push(FsRecord {
                op,
                path: n,
                thread,
            });
            true
        } else {
            i.ctx.event(format!("escape: {op}"));
            i.escapes.push(FsRecord {
                op,
                path: n,
                thread,
            });
            false
        }
    })
    .unwrap_or(false)
}
