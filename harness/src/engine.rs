//! Exhaustive bounded exploration of the real code.
//!
//! A check is a list of *groups*; a group is a finite, completely enumerated
//! list of *cases* (configurations, inputs, histories); a case performs one or
//! more *transitions* (calls into the code under test), each compared against
//! a reference model. Nothing is sampled: the case list is a deterministic
//! function of the tier.

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local!(static PANIC_MSG: RefCell<String> = RefCell::new(String::new()));

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Run `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|m| m.borrow().clone())),
    }
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
pub struct Probe {
    pub transitions: u64,
    /// states distinct by construction of the enumeration
    pub dstates: u64,
    /// states deduplicated by hash
    pub states: HashSet<u64>,
    /// distinct observed results (capped), to expose vacuous exploration
    pub outcomes: HashSet<u64>,
    pub rejected: u64,
}

const OUTCOME_CAP: usize = 200_000;

impl Probe {
    /// one call into the code under test was made and checked
    pub fn t(&mut self) {
        self.transitions += 1;
    }
    pub fn tn(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn state<T: Hash>(&mut self, s: &T) {
        self.states.insert(h64(s));
    }
    pub fn outcome<T: Hash>(&mut self, s: &T) {
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(h64(s));
        }
    }
}

#[derive(Clone)]
pub struct Violation {
    pub order: usize,
    pub case: String,
    pub msg: String,
}

pub struct Ex {
    pub prop: String,
    pub thorough: bool,
    pub only: Option<String>,
    pub threads: usize,
    trace: Option<Mutex<std::fs::File>>,
    totals: Mutex<Probe>,
    cases: AtomicUsize,
    samples: Mutex<Vec<String>>,
    groups: Mutex<Vec<(String, usize, f64)>>,
    viol: Mutex<Option<Violation>>,
    stop: AtomicBool,
    running: Mutex<Vec<Option<(String, Instant)>>>,
    order: AtomicUsize,
}

impl Ex {
    pub fn new(prop: &str, thorough: bool, only: Option<String>, trace: Option<String>) -> Arc<Ex> {
        let threads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .min(16);
        Arc::new(Ex {
            prop: prop.to_string(),
            thorough,
            only,
            threads,
            trace: trace.map(|p| Mutex::new(std::fs::File::create(p).unwrap())),
            totals: Mutex::new(Probe::default()),
            cases: AtomicUsize::new(0),
            samples: Mutex::new(vec![]),
            groups: Mutex::new(vec![]),
            viol: Mutex::new(None),
            stop: AtomicBool::new(false),
            running: Mutex::new(vec![None; threads + 1]),
            order: AtomicUsize::new(0),
        })
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn violated(&self) -> Option<Violation> {
        self.viol.lock().unwrap().clone()
    }

    fn record(&self, order: usize, case: &str, msg: String) {
        let mut v = self.viol.lock().unwrap();
        if v.as_ref().map_or(true, |o| order < o.order) {
            *v = Some(Violation {
                order,
                case: case.to_string(),
                msg,
            });
        }
        self.stop.store(true, Ordering::SeqCst);
    }

    pub fn fail_setup(&self, msg: &str) {
        self.record(0, "setup", format!("panicked while setting up: {}", msg));
    }

    /// Enumerate a group completely, in parallel. Returns false if a violation
    /// is already known (callers may stop early).
    pub fn group<T: Sync>(
        &self,
        name: &str,
        items: &[T],
        id: impl Fn(&T) -> String + Sync,
        f: impl Fn(&T, &mut Probe) -> Result<(), String> + Sync,
    ) -> bool {
        if self.stop.load(Ordering::SeqCst) {
            return false;
        }
        if let Some(o) = &self.only {
            if !o.starts_with(&format!("{}/", name)) {
                return true;
            }
        }
        let start = Instant::now();
        let base = self.order.fetch_add(items.len(), Ordering::SeqCst);
        let next = AtomicUsize::new(0);
        let nthreads = self.threads.min(items.len().max(1));
        std::thread::scope(|s| {
            for w in 0..nthreads {
                let (next, id, f) = (&next, &id, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut probe = Probe::default();
                        let mut done = 0usize;
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= items.len() || self.stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let cid = format!("{}/{}", name, id(&items[i]));
                            if let Some(o) = &self.only {
                                if *o != cid {
                                    continue;
                                }
                            }
                            if let Some(t) = &self.trace {
                                let mut t = t.lock().unwrap();
                                let _ = writeln!(t, "S {} {}", w, cid);
                                let _ = t.flush();
                            }
                            self.running.lock().unwrap()[w] = Some((cid.clone(), Instant::now()));
                            rand::ctl::set(rand::ctl::Mode::Prng, 1);
                            let r = match guard(|| f(&items[i], &mut probe)) {
                                Ok(r) => r,
                                Err(p) => Err(format!("panicked: {}", p)),
                            };
                            self.running.lock().unwrap()[w] = None;
                            done += 1;
                            if i == 0 || i == items.len() / 2 {
                                let mut s = self.samples.lock().unwrap();
                                if s.len() < 60 {
                                    s.push(cid.clone());
                                }
                            }
                            if let Some(t) = &self.trace {
                                let _ = writeln!(t.lock().unwrap(), "E {} {}", w, cid);
                            }
                            if let Err(m) = r {
                                self.record(base + i, &cid, m);
                                break;
                            }
                        }
                        self.cases.fetch_add(done, Ordering::SeqCst);
                        let mut t = self.totals.lock().unwrap();
                        t.transitions += probe.transitions;
                        t.dstates += probe.dstates;
                        t.rejected += probe.rejected;
                        t.states.extend(probe.states);
                        if t.outcomes.len() < OUTCOME_CAP {
                            t.outcomes.extend(probe.outcomes);
                        }
                    })
                    .unwrap();
            }
        });
        self.groups.lock().unwrap().push((
            name.to_string(),
            items.len(),
            start.elapsed().as_secs_f64(),
        ));
        !self.stop.load(Ordering::SeqCst)
    }

    /// Report a case that never returns.
    pub fn start_watchdog(self: &Arc<Self>, limit: Duration, done: impl Fn(&Ex) + Send + 'static) {
        let me = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let hung = {
                let r = me.running.lock().unwrap();
                r.iter()
                    .flatten()
                    .find(|(_, t)| t.elapsed() > limit)
                    .map(|(c, _)| c.clone())
            };
            if let Some(c) = hung {
                me.record(
                    usize::MAX,
                    &c,
                    format!("case did not terminate within {:?}", limit),
                );
                done(&me);
                std::process::exit(1);
            }
        });
    }

    pub fn report_json(&self, wall: f64) -> String {
        let t = self.totals.lock().unwrap();
        let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n");
        let samples: Vec<String> = self
            .samples
            .lock()
            .unwrap()
            .iter()
            .map(|s| format!("\"{}\"", esc(s)))
            .collect();
        let groups: Vec<String> = self
            .groups
            .lock()
            .unwrap()
            .iter()
            .map(|(n, c, w)| format!("{{\"group\":\"{}\",\"cases\":{},\"wall_s\":{:.2}}}", esc(n), c, w))
            .collect();
        let v = match self.violated() {
            Some(v) => format!(
                "{{\"case\":\"{}\",\"message\":\"{}\"}}",
                esc(&v.case),
                esc(&v.msg)
            ),
            None => "null".into(),
        };
        format!(
            "{{\"property\":\"{}\",\"states\":{},\"transitions\":{},\"cases\":{},\"distinct_outcomes\":{},\"refusals_observed\":{},\"wall_s\":{:.3},\"samples\":[{}],\"groups\":[{}],\"violation\":{}}}",
            self.prop,
            t.dstates + t.states.len() as u64,
            t.transitions,
            self.cases.load(Ordering::SeqCst),
            t.outcomes.len(),
            t.rejected,
            wall,
            samples.join(","),
            groups.join(","),
            v
        )
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}
