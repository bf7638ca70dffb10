mod cx;
mod docs;
mod drive;
mod faults;
mod guard;
mod history;
mod props;
mod stream;
mod values;

use drive::{Failure, Prop, Stats, Target};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Instant;

fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(), c => o.push(c) }
  }
  o.push('"');
  o
}
fn nums(v: &[u16]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ") }
pub fn case_text(p: &str, cx: &cx::Cx, t: &str, v: &[u16], d: &[u16]) -> String {
  format!("property: {p}\ntier: {}\nseed: {}\ntarget: {t}\nv: {}\nd: {}\n", if cx.thorough { "thorough" } else { "quick" }, cx.seed, nums(v), nums(d))
}

struct Args { id: String, tier: String, seed: u64, evidence: String, replays: String, known: String, replay: Option<String>, only: Option<String>, scale: f64, skip: Vec<String> }
fn args() -> Args {
  let mut a = Args { id: String::new(), tier: "quick".into(), seed: 1, evidence: String::new(), replays: ".".into(), known: String::new(), replay: None, only: None, scale: 1.0, skip: vec![] };
  let mut it = std::env::args().skip(1);
  while let Some(x) = it.next() {
    let mut val = || it.next().unwrap_or_else(|| { eprintln!("harness error: {x} needs a value"); std::process::exit(3) });
    match x.as_str() {
      "--tier" => a.tier = val(), "--seed" => a.seed = val().parse().expect("seed"), "--evidence" => a.evidence = val(), "--replays" => a.replays = val(), "--known" => a.known = val(),
      "--replay" => a.replay = Some(val()), "--only" => a.only = Some(val()), "--scale" => a.scale = val().parse().expect("scale"), "--skip" => a.skip = val().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
      _ => a.id = x,
    }
  }
  a
}

fn registry(cx: &mut cx::Cx) {
  let mut all: Vec<glue::Entry> = vec![];
  for r in [t0::registry(), t1::registry(), t2::registry(), t3::registry(), t4::registry(), t5::registry(), t6::registry(), t7::registry()] { all.extend(r) }
  for d in &cx.u.schema.decls {
    let k = all.iter().position(|e| e.name == d.name).unwrap_or_else(|| { eprintln!("harness error: {} is not compiled in", d.name); std::process::exit(3) });
    cx.reg.push(all.swap_remove(k));
  }
}

fn write_replay(dir: &str, id: &str, n: usize, text: &str) -> String {
  let _ = std::fs::create_dir_all(dir);
  let path = format!("{dir}/{id}-{n}.txt");
  if let Err(e) = std::fs::write(&path, text) { eprintln!("harness error: {path}: {e}"); std::process::exit(3) }
  path
}

fn evidence(a: &Args, p: &Prop, s: &Stats, wall: f64, violations: usize, targets: usize) {
  if a.evidence.is_empty() { return }
  let mut o = String::from("{\n");
  writeln!(o, " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},", js(p.id), js(&a.tier), a.seed, js(p.level)).unwrap();
  writeln!(o, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},", s.cases, s.nontrivial.len(), js(p.rule)).unwrap();
  writeln!(o, "  \"library_runs\": {},\n  \"targets\": {},\n  \"targets_planned\": {targets},", s.runs, s.targets).unwrap();
  writeln!(o, "  \"classes\": {{{}}},", s.labels.iter().map(|(k, n)| format!("{}: {n}", js(k))).collect::<Vec<_>>().join(", ")).unwrap();
  writeln!(o, "  \"samples\": [{}]\n }},", s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")).unwrap();
  writeln!(o, " \"assumptions\": [\"the reference model in harness/schema/src/model.rs states the documented semantics\", \"the strict XML parser in harness/schema/src/xml.rs is correct\", \"declarations are those of harness/schema/src/universe.rs, partly drawn from the seed\"],").unwrap();
  writeln!(o, " \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}").unwrap();
  if let Err(e) = std::fs::write(&a.evidence, o) { eprintln!("harness error: {}: {e}", a.evidence); std::process::exit(3) }
}

fn main() {
  #[cfg(feature = "tk")]
  if std::env::args().nth(1).as_deref() == Some("--deep-document") { return tk::deep_document() }
  let mut a = args();
  guard::install();
  let mut case: Option<(String, Vec<u16>, Vec<u16>)> = None;
  if let Some(path) = &a.replay {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("harness error: {path}: {e}"); std::process::exit(3) });
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}: ")).or(if l == format!("{k}:") { Some("") } else { None })).map(|x| x.trim_end().to_string());
    let list = |k: &str| get(k).unwrap_or_default().split_whitespace().map(|x| x.parse().expect("number")).collect::<Vec<u16>>();
    let (Some(p), Some(tier), Some(seed), Some(target)) = (get("property"), get("tier"), get("seed"), get("target")) else { eprintln!("harness error: {path} is no replay of a generated case"); std::process::exit(3) };
    a.id = p;
    a.tier = tier;
    a.seed = seed.parse().expect("seed");
    case = Some((target, list("v"), list("d")));
  }
  let thorough = a.tier == "thorough";
  let mut cx = cx::Cx { u: schema::universe::universe(a.seed, thorough, &a.skip), reg: vec![], thorough, seed: a.seed };
  registry(&mut cx);
  let cx = cx;
  let all = props::all();
  let p = all.iter().find(|p| p.id == a.id).unwrap_or_else(|| { eprintln!("harness error: no property {}", a.id); std::process::exit(3) });
  let mut targets = (p.targets)(&cx);
  if let Some(o) = &a.only { targets.retain(|t| t.name.contains(o.as_str())) }
  for t in &mut targets { t.cases = ((t.cases as f64 * a.scale) as u32).max(1) }

  if let Some((name, v, d)) = case {
    let t = targets.iter().find(|t| t.name == name).unwrap_or_else(|| { eprintln!("harness error: no target {name}"); std::process::exit(3) });
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || { guard::enter_thread(); (p.check)(&cx, t, &v, &d) }).unwrap().join().unwrap());
    match r {
      Ok(i) => println!("{}: holds ({})", p.id, i.sample),
      Err(f) => { println!("{}", f.msg); println!("VIOLATION property={} replay={}", p.id, a.replay.as_ref().unwrap()); std::process::exit(1) }
    }
    return;
  }

  let start = Instant::now();
  // known findings
  let known = std::fs::read_to_string(&a.known).unwrap_or_default();
  let listed: Vec<&str> = known.lines().filter_map(|l| l.strip_prefix("known: property=")).filter_map(|l| l.strip_prefix(p.id)).filter_map(|l| l.split_whitespace().next()).collect();
  let mut probe_failures: Vec<String> = vec![];
  #[cfg(feature = "tk")]
  for k in tk::probes().iter().filter(|k| k.property == p.id) {
    let r = match guard::guard(100_000, || (k.run)()) { Ok(r) => r, Err(b) => Err(format!("{b}")) };
    match r {
      Ok(()) => println!("note: known finding {} no longer fails", k.id),
      Err(e) if listed.contains(&k.id) => println!("KNOWN-FINDING: property={} {}: {}", p.id, k.id, e.replace(['\n', '\r'], " ")),
      Err(e) => probe_failures.push(format!("{}: {e}", k.id)),
    }
  }

  let done = AtomicBool::new(false);
  let stats = std::thread::scope(|sc| {
    sc.spawn(|| {
      // calls that never return
      while !done.load(Ordering::SeqCst) {
        std::thread::sleep(std::time::Duration::from_millis(200));
        if let Some(what) = guard::stuck(60_000) {
          let path = write_replay(&a.replays, p.id, 0, &format!("{what}\ndetail: this call used more than 60 s of processor time and did not return\n"));
          println!("{}: a call did not return", p.id);
          evidence(&a, p, &Stats { samples: vec![what], cases: 1, ..Default::default() }, start.elapsed().as_secs_f64(), 1, targets.len());
          println!("VIOLATION property={} replay={path}", p.id);
          std::process::exit(1);
        }
      }
    });
    let s = drive::run(&cx, p, &targets);
    done.store(true, Ordering::SeqCst);
    s
  });
  let wall = start.elapsed().as_secs_f64();
  let violations = stats.failures.len() + probe_failures.len();
  evidence(&a, p, &stats, wall, violations, targets.len());
  let mut n = 0;
  for e in &probe_failures {
    let path = write_replay(&a.replays, p.id, n, &format!("property: {}\nprobe: {e}\n", p.id));
    println!("{e}\nVIOLATION property={} replay={path}", p.id);
    n += 1;
  }
  for Failure { target, v, d, msg, .. } in stats.failures.iter().take(5) {
    let path = write_replay(&a.replays, p.id, n, &format!("{}detail: {msg}\n", case_text(p.id, &cx, &target.name, v, d)));
    println!("{}: {}", target.name, cx::cut(msg, 3000));
    println!("VIOLATION property={} replay={path}", p.id);
    n += 1;
  }
  println!("{} {}: {} targets, {} cases, {} distinct non-trivial, {} runs, {:.1} s", p.id, a.tier, stats.targets, stats.cases, stats.nontrivial.len(), stats.runs, wall);
  std::process::exit(if violations > 0 { 1 } else { 0 });
}
#[allow(dead_code)]
fn _unused(_: &Target) {}
