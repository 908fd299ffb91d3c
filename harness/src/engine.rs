//! The explorer: runs jobs (independent, exhaustively enumerated parts of a bounded space) on all
//! cores, judges every transition against the reference model, and replays recorded traces.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Why a transition is not as the model says.
pub enum Fail {
    /// a violation
    V(String),
    /// exactly the pattern of the named finding (a violation unless that finding is listed)
    K(&'static str, String),
}
impl From<String> for Fail {
    fn from(s: String) -> Fail {
        Fail::V(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Fail {
        Fail::V(s.to_string())
    }
}

pub struct Stop;
pub type R = Result<(), Stop>;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Job {
    pub name: String,
    pub run: Box<dyn Fn(&mut Loc) -> R + Send + Sync>,
}
pub fn job(name: impl Into<String>, run: impl Fn(&mut Loc) -> R + Send + Sync + 'static) -> Job {
    Job { name: name.into(), run: Box::new(run) }
}

pub struct Violation {
    pub job: usize,
    pub job_name: String,
    pub case: String,
    pub what: String,
    pub reproduced: bool,
}

pub struct Shared {
    pub replay: fn(&Case) -> Result<(), Fail>,
    pub known: Vec<String>,
    min_fail: AtomicUsize,
    viols: Mutex<Vec<Violation>>,
    known_hits: Mutex<BTreeMap<String, (u64, String)>>,
    deadline: Instant,
    capped: AtomicBool,
    progress: Vec<(AtomicU64, Mutex<String>)>,
}

impl Shared {
    fn violation(&self, job: usize, job_name: &str, case: String, what: String, reproduced: bool) {
        self.min_fail.fetch_min(job, Ordering::SeqCst);
        self.viols.lock().unwrap().push(Violation { job, job_name: job_name.to_string(), case, what, reproduced });
    }
}

pub struct Loc<'a> {
    sh: &'a Shared,
    slot: usize,
    job: usize,
    job_name: &'a str,
    pub states: u64,
    pub transitions: u64,
    pub replayed: u64,
    next_replay: u64,
    stride: u64,
    outcomes: Vec<u64>,
    pub samples: Vec<String>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SEED: Cell<u64> = const { Cell::new(0) };
}

/// std's `RandomState` asks the C library for its keys: this definition takes precedence, so that
/// hash-map iteration order is a function of the seed the explorer chose for the current thread.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.with(|s| s.get()).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def0;
    for i in 0..len {
        x = splitmix(&mut x);
        *buf.add(i) = (x >> 32) as u8;
    }
    len as isize
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Runs `f` on a fresh thread whose hash-map seed is `seed`.
pub fn with_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                SEED.with(|c| c.set(seed));
                f()
            })
            .unwrap()
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

/// Runs real code; a panic becomes `Err(message @ location)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn fnv(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(23)
}

impl<'a> Loc<'a> {
    /// Judges one transition. `case` describes it (parsable by the property's replay function),
    /// `f` executes it on the implementation and on the model and compares.
    #[inline]
    pub fn check(&mut self, case: impl Fn() -> String, f: impl FnOnce() -> Result<u64, Fail>) -> R {
        self.transitions += 1;
        if self.transitions & 0xff == 0 {
            self.tick()?;
        }
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(outcome)) => {
                let h = fnv(outcome, 0x517c_c1b7_2722_0a95) >> 17;
                self.outcomes[(h >> 6) as usize % 1024] |= 1 << (h & 63);
                if self.transitions >= self.next_replay {
                    self.do_replay(case())?;
                }
                Ok(())
            }
            Ok(Err(e)) => self.failed(case(), e),
            Err(_) => {
                let p = PANIC.with(|p| p.borrow().clone());
                self.failed(case(), Fail::V(format!("panicked: {p}")))
            }
        }
    }

    fn tick(&mut self) -> R {
        self.sh.progress[self.slot].0.store(self.transitions, Ordering::Relaxed);
        if self.sh.min_fail.load(Ordering::Relaxed) < self.job {
            return Err(Stop);
        }
        if self.transitions & 0xfff == 0 && Instant::now() > self.sh.deadline {
            self.sh.capped.store(true, Ordering::Relaxed);
            return Err(Stop);
        }
        Ok(())
    }

    #[cold]
    fn do_replay(&mut self, case: String) -> R {
        // every recorded trace is re-executed from its text alone
        self.next_replay = self.transitions + self.stride;
        self.stride = self.stride * 2;
        if self.samples.len() < 2 {
            self.samples.push(case.clone());
        }
        let f = self.sh.replay;
        match catch_unwind(AssertUnwindSafe(|| f(&Case::parse(&case)))) {
            Ok(Ok(())) => {}
            Ok(Err(Fail::K(k, _))) if self.sh.known.iter().any(|x| x == k) => {}
            Ok(Err(Fail::V(e))) | Ok(Err(Fail::K(_, e))) => {
                self.sh.violation(self.job, self.job_name, case, format!("held when explored, fails when re-executed: {e}"), true);
                return Err(Stop);
            }
            Err(_) => {
                let p = PANIC.with(|p| p.borrow().clone());
                self.sh.violation(self.job, self.job_name, case, format!("held when explored, panics when re-executed: {p}"), true);
                return Err(Stop);
            }
        }
        self.replayed += 1;
        Ok(())
    }

    #[cold]
    fn failed(&mut self, case: String, e: Fail) -> R {
        let what = match e {
            Fail::V(s) => s,
            // the transition is not enabled in this state
            Fail::K("", _) => {
                self.transitions -= 1;
                return Ok(());
            }
            Fail::K(k, s) => {
                if self.sh.known.iter().any(|x| x == k) {
                    let mut hits = self.sh.known_hits.lock().unwrap();
                    let ent = hits.entry(k.to_string()).or_insert_with(|| (0, format!("{case}: {s}")));
                    ent.0 += 1;
                    return Ok(());
                }
                s
            }
        };
        // it must fail again when replayed from the text alone
        let reproduced = reproduces(self.sh.replay, &case);
        self.sh.violation(self.job, self.job_name, case, what, reproduced);
        Err(Stop)
    }
}

pub fn reproduces(replay: fn(&Case) -> Result<(), Fail>, case: &str) -> bool {
    for seed in 0..512u64 {
        let ok = with_seed(seed, || catch_unwind(AssertUnwindSafe(|| replay(&Case::parse(case)))));
        if !matches!(ok, Ok(Ok(()))) {
            return true;
        }
    }
    false
}

pub struct Report {
    pub jobs: usize,
    pub jobs_done: usize,
    pub states: u64,
    pub transitions: u64,
    pub replayed: u64,
    pub outcomes: u64,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, (u64, String)>,
    pub capped: bool,
    pub wall: f64,
}

pub fn explore(jobs: Vec<Job>, replay: fn(&Case) -> Result<(), Fail>, known: Vec<String>, seed: u64, budget: Duration) -> Report {
    install_hook();
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let t0 = Instant::now();
    let sh = Shared {
        replay,
        known,
        min_fail: AtomicUsize::new(usize::MAX),
        viols: Mutex::new(vec![]),
        known_hits: Mutex::new(BTreeMap::new()),
        deadline: t0 + budget,
        capped: AtomicBool::new(false),
        progress: (0..n).map(|_| (AtomicU64::new(0), Mutex::new(String::new()))).collect(),
    };
    let next = AtomicUsize::new(0);
    let acc = Mutex::new((0u64, 0u64, 0u64, vec![0u64; 1024], Vec::<(usize, String)>::new(), 0usize));
    let finished = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for slot in 0..n {
            let (sh, next, acc, jobs) = (&sh, &next, &acc, &jobs);
            hs.push(s.spawn(move || loop {
                let j = next.fetch_add(1, Ordering::SeqCst);
                if j >= jobs.len() || sh.min_fail.load(Ordering::SeqCst) < j {
                    break;
                }
                if Instant::now() > sh.deadline {
                    sh.capped.store(true, Ordering::Relaxed);
                    break;
                }
                *sh.progress[slot].1.lock().unwrap() = jobs[j].name.clone();
                // a fresh thread per job: the hash seed is a function of the job alone
                let r = with_seed(seed.wrapping_add(j as u64), || {
                    catch(|| {
                        let mut loc = Loc {
                            sh,
                            slot,
                            job: j,
                            job_name: &jobs[j].name,
                            states: 0,
                            transitions: 0,
                            replayed: 0,
                            next_replay: 1,
                            stride: 37,
                            outcomes: vec![0; 1024],
                            samples: vec![],
                        };
                        let done = (jobs[j].run)(&mut loc).is_ok();
                        let mut a = acc.lock().unwrap();
                        a.0 += loc.states;
                        a.1 += loc.transitions;
                        a.2 += loc.replayed;
                        for (x, y) in a.3.iter_mut().zip(loc.outcomes.iter()) {
                            *x |= *y;
                        }
                        a.4.extend(loc.samples.drain(..).map(|x| (j, x)));
                        a.5 += done as usize;
                    })
                });
                if let Err(p) = r {
                    // the explorer is deterministic and silent on a correct library: the
                    // implementation panicked while an operand was being built
                    sh.violation(j, &jobs[j].name, "-".into(), format!("panicked outside a judged operation: {p}"), false);
                    break;
                }
            }));
        }
        // watchdog: no progress for 150 s (256 transitions take well under a second) is non-termination
        let (sh, fin) = (&sh, &finished);
        s.spawn(move || {
            let mut last: Vec<(u64, String, Instant)> = vec![(0, String::new(), Instant::now()); n];
            while !fin.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                for (i, l) in last.iter_mut().enumerate() {
                    let cur = (sh.progress[i].0.load(Ordering::Relaxed), sh.progress[i].1.lock().unwrap().clone());
                    if cur.0 != l.0 || cur.1 != l.1 || cur.1.is_empty() {
                        *l = (cur.0, cur.1, Instant::now());
                    } else if l.2.elapsed() > Duration::from_secs(150) {
                        println!("NO-PROGRESS {}", l.1);
                        std::process::exit(3);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        finished.store(true, Ordering::SeqCst);
    });
    let (states, transitions, replayed, bm, mut samples, jobs_done) = acc.into_inner().unwrap();
    samples.sort();
    let step = (samples.len() / 12).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(step).map(|s| crate::model::trunc(&s.1)).take(14).collect();
    let mut violations = sh.viols.into_inner().unwrap();
    violations.sort_by(|a, b| (a.job, a.case.len(), &a.case).cmp(&(b.job, b.case.len(), &b.case)));
    Report {
        jobs: jobs.len(),
        jobs_done,
        states,
        transitions,
        replayed,
        outcomes: bm.iter().map(|x| x.count_ones() as u64).sum(),
        samples,
        violations,
        known: sh.known_hits.into_inner().unwrap(),
        capped: sh.capped.load(Ordering::SeqCst),
        wall: t0.elapsed().as_secs_f64(),
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{} (at {at})", crate::model::trunc(&msg)));
    }));
}

/// One parsed trace line: `op key=value key=value ...`
pub struct Case {
    pub op: String,
    kv: Vec<(String, String)>,
}
impl Case {
    pub fn parse(s: &str) -> Case {
        let mut it = s.split(' ');
        let op = it.next().unwrap().to_string();
        let kv = it
            .filter(|x| !x.is_empty())
            .map(|p| {
                let (k, v) = p.split_once('=').unwrap_or_else(|| panic!("bad trace item {p:?}"));
                (k.to_string(), v.to_string())
            })
            .collect();
        Case { op, kv }
    }
    pub fn s(&self, k: &str) -> &str {
        &self.kv.iter().find(|x| x.0 == k).unwrap_or_else(|| panic!("trace lacks {k}")).1
    }
    pub fn u(&self, k: &str) -> u32 {
        self.s(k).parse().unwrap()
    }
    pub fn m(&self, k: &str) -> crate::model::M {
        crate::model::M::parse(self.s(k))
    }
}
