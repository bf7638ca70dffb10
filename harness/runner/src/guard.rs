//! Runs library code so that a panic or an endless loop becomes a result.
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

thread_local! {
  static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
  static GUARDED: Cell<bool> = const { Cell::new(false) };
  static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
struct Count;
const LOOP: &str = "harness: loop budget exhausted";
impl log::Log for Count {
  fn enabled(&self, _: &log::Metadata) -> bool { true }
  fn log(&self, _: &log::Record) { tick() }
  fn flush(&self) {}
}
static COUNT: Count = Count;

pub fn install() {
  log::set_logger(&COUNT).unwrap();
  log::set_max_level(log::LevelFilter::Trace);
  let old = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |i| if !GUARDED.with(|g| g.get()) {
    eprintln!("harness error: {i}");
    if let Some(s) = MINE.with(|m| m.get()) { eprintln!("{}", s.what.lock().unwrap()) }
    if std::env::var_os("RUST_BACKTRACE").is_some() { old(i) }
    std::process::exit(3)
  }));
}
/// One step of work that is bounded by the input in code that terminates.
pub fn tick() {
  BUDGET.with(|b| {
    let n = b.get();
    if n == 0 { b.set(u64::MAX); std::panic::panic_any(LOOP) }
    if n != u64::MAX { b.set(n - 1) }
  })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bad { Panic(String), Loop }
impl std::fmt::Display for Bad {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Bad::Panic(m) => write!(f, "panicked: {m}"), Bad::Loop => write!(f, "did not terminate (event budget exhausted)") } }
}

/// `size`: length of the input, which bounds the number of steps allowed.
pub fn guard<T>(size: usize, work: impl FnOnce() -> T) -> Result<T, Bad> {
  BUDGET.with(|b| b.set(200_000 + 2_000 * size as u64));
  GUARDED.with(|g| g.set(true));
  begin();
  let r = catch_unwind(AssertUnwindSafe(work));
  end();
  GUARDED.with(|g| g.set(false));
  BUDGET.with(|b| b.set(u64::MAX));
  r.map_err(|e| {
    if e.downcast_ref::<&str>() == Some(&LOOP) { return Bad::Loop }
    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    if m.starts_with("harness:") {
      eprintln!("harness error: {m}");
      if let Some(s) = mine() { eprintln!("{}", s.what.lock().unwrap()) }
      std::process::exit(3)
    }
    Bad::Panic(m)
  })
}

// ---- calls that neither log nor return: seen by a thread that measures CPU time

struct Slot { clock: libc::clockid_t, started: AtomicU64, what: Mutex<String> }
static SLOTS: Mutex<Vec<&'static Slot>> = Mutex::new(Vec::new());
fn now(c: libc::clockid_t) -> u64 {
  let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
  if unsafe { libc::clock_gettime(c, &mut t) } != 0 { return 0 }
  t.tv_sec as u64 * 1_000 + t.tv_nsec as u64 / 1_000_000
}
pub fn enter_thread() {
  let mut c: libc::clockid_t = 0;
  if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) } != 0 { return }
  let s: &'static Slot = Box::leak(Box::new(Slot { clock: c, started: AtomicU64::new(0), what: Mutex::new(String::new()) }));
  let mut v = SLOTS.lock().unwrap();
  SLOT.with(|x| x.set(v.len()));
  v.push(s);
}
fn slot() -> Option<&'static Slot> { let i = SLOT.with(|x| x.get()); if i == usize::MAX { None } else { Some(SLOTS.lock().unwrap()[i]) } }
thread_local! { static TRACE: std::cell::RefCell<Option<std::fs::File>> = std::cell::RefCell::new(std::env::var("RUNNER_TRACE").ok().and_then(|d| std::fs::File::create(format!("{d}/{:?}.txt", std::thread::current().id()).replace(['(', ')'], "")).ok())); }
thread_local! { static MINE: Cell<Option<&'static Slot>> = const { Cell::new(None) }; }
fn mine() -> Option<&'static Slot> { MINE.with(|m| { if m.get().is_none() { m.set(slot()) } m.get() }) }
fn begin() { if let Some(s) = mine() { s.started.store(now(libc::CLOCK_THREAD_CPUTIME_ID).max(1), Ordering::SeqCst) } }
fn end() { if let Some(s) = mine() { s.started.store(0, Ordering::SeqCst) } }
/// Remembers the input of the calls that follow, for a report about one that never returns.
/// (and, when asked to, in a file: for calls that end the process).
pub fn about(what: impl FnOnce() -> String) {
  if let Some(s) = mine() {
    let t = what();
    TRACE.with(|f| { if let Some(f) = &mut *f.borrow_mut() { use std::io::{Seek, Write}; let _ = f.set_len(0).and_then(|_| f.rewind()).and_then(|_| f.write_all(t.as_bytes())); } });
    *s.what.lock().unwrap() = t;
  }
}
/// The input of a call that has used more than `limit` milliseconds of CPU time, if there is one.
pub fn stuck(limit: u64) -> Option<String> {
  for s in SLOTS.lock().unwrap().iter() {
    let t = s.started.load(Ordering::SeqCst);
    if t != 0 {
      let n = now(s.clock);
      if n > t + limit && s.started.load(Ordering::SeqCst) == t { return Some(s.what.lock().unwrap().clone()) }
    }
  }
  None
}
