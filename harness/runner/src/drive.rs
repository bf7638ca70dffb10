//! Runs a property over its targets with proptest and collects what was covered.
use crate::cx::*;
use crate::guard;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Target { pub name: String, pub a: usize, pub b: usize, pub cases: u32, pub vlen: usize, pub dlen: usize }

pub struct Prop {
  pub id: &'static str,
  pub level: &'static str,
  pub rule: &'static str,
  pub targets: fn(&Cx) -> Vec<Target>,
  pub check: fn(&Cx, &Target, &[u16], &[u16]) -> Out,
}

pub struct Failure { pub index: usize, pub target: Target, pub v: Vec<u16>, pub d: Vec<u16>, pub msg: String }
#[derive(Default)]
pub struct Stats { pub cases: u64, pub runs: u64, pub nontrivial: HashSet<u64>, pub labels: BTreeMap<&'static str, u64>, pub samples: Vec<String>, pub targets: u64, pub failures: Vec<Failure> }

pub fn seed_bytes(seed: u64, prop: &str, target: &str) -> [u8; 32] {
  let mut r = schema::rng::Rng::new(seed, &format!("{prop}/{target}"));
  let mut b = [0; 32];
  for c in b.chunks_mut(8) { c.copy_from_slice(&r.next().to_le_bytes()) }
  b
}

pub fn one(cx: &Cx, p: &Prop, t: &Target) -> Stats {
  let config = Config { cases: t.cases, failure_persistence: None, max_shrink_iters: if t.name.starts_with("huge/") { 12 } else { 6000 }, max_global_rejects: 1, ..Config::default() };
  let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(cx.seed, p.id, &t.name));
  let mut runner = TestRunner::new_with_rng(config, rng);
  // half of the choices are drawn from all of u16, the rest are small: small numbers are simple choices
  let word = || prop_oneof![4 => any::<u16>(), 1 => 0u16..4];
  let strategy = (proptest::collection::vec(word(), 0..=t.vlen), proptest::collection::vec(word(), 0..=t.dlen));
  let st = RefCell::new(Stats { targets: 1, ..Default::default() });
  let failed = RefCell::new(None::<String>);
  let r = runner.run(&strategy, |(v, d)| {
    guard::about(|| crate::case_text(p.id, cx, &t.name, &v, &d));
    match (p.check)(cx, t, &v, &d) {
      Ok(i) => {
        if failed.borrow().is_none() {
          let mut s = st.borrow_mut();
          s.cases += 1;
          s.runs += i.runs;
          for l in i.labels { *s.labels.entry(l).or_default() += 1 }
          if i.nontrivial && s.nontrivial.insert(i.key ^ hash(&t.name)) && s.samples.len() < 2 && s.cases > 3 { s.samples.push(format!("{}: {}", t.name, i.sample)) }
        }
        Ok(())
      }
      Err(f) => { *failed.borrow_mut() = Some(f.msg.clone()); Err(TestCaseError::fail(f.msg)) }
    }
  });
  let mut st = st.into_inner();
  if let Err(e) = r {
    match e {
      TestError::Fail(_, (v, d)) => {
        let msg = match (p.check)(cx, t, &v, &d) { Err(f) => f.msg, Ok(_) => format!("did not repeat: {}", failed.into_inner().unwrap_or_default()) };
        st.failures.push(Failure { index: 0, target: t.clone(), v, d, msg });
      }
      TestError::Abort(m) => { eprintln!("harness error: {} {}: {m}", p.id, t.name); std::process::exit(3) }
    }
  }
  st
}

pub fn run(cx: &Cx, p: &Prop, targets: &[Target]) -> Stats {
  let next = AtomicUsize::new(0);
  let stop = AtomicUsize::new(usize::MAX);
  let total = Mutex::new(Vec::<(usize, Stats)>::new());
  std::thread::scope(|sc| {
    for _ in 0..8 {
      std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || {
        guard::enter_thread();
        loop {
          let i = next.fetch_add(1, Ordering::SeqCst);
          // after a failure only earlier targets are of interest
          if i >= targets.len() || i > stop.load(Ordering::SeqCst) { break }
          let mut s = one(cx, p, &targets[i]);
          for f in &mut s.failures { f.index = i; stop.fetch_min(i, Ordering::SeqCst); }
          total.lock().unwrap().push((i, s));
        }
      }).unwrap();
    }
  });
  let mut all = total.into_inner().unwrap();
  all.sort_by_key(|x| x.0);
  let mut r = Stats::default();
  let step = (targets.len() / 8).max(1);
  for (i, s) in all {
    r.cases += s.cases;
    r.runs += s.runs;
    r.targets += s.targets;
    r.nontrivial.extend(s.nontrivial);
    for (k, n) in s.labels { *r.labels.entry(k).or_default() += n }
    if i % step == step / 2 || r.samples.is_empty() { r.samples.extend(s.samples) }
    r.failures.extend(s.failures);
  }
  r.samples.truncate(16);
  r.failures.sort_by_key(|f| f.index);
  r
}
