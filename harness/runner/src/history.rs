//! What one call gives must not depend on the calls before it, nor on those in other threads.
use crate::cx::*;
use crate::docs;
use crate::drive::Target;
use crate::guard::{self, guard, Bad};
use crate::props::PLAIN_STR;
use crate::values::{Opts, RT};
use glue::Cfg;
use schema::ast::*;
use schema::xml::{render, Ent, PLAIN};
use std::io::{Error, ErrorKind, Read, Write};
use val::Val;

enum Op {
  Write(Val), Indent(Val, Cfg), Content(Val), /// call that fails; and whether it panics
  WriteFault(Val, usize, bool),
  Read(String), /// byte from which on it fails; and whether it panics
  ReadFault(String, usize, bool),
}
const REFUSED: &str = "an error";
struct Call { di: usize, op: Op, /// what the model expects, where it has an opinion
  want: Option<String> }

struct Sink { got: Vec<u8>, left: usize, panic: bool }
impl Write for Sink {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    guard::tick();
    if self.left == 0 { if self.panic { panic!("injected panic") } return Err(Error::new(ErrorKind::Other, "injected write failure")) }
    self.left -= 1;
    self.got.extend_from_slice(b);
    Ok(b.len())
  }
  fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct Source<'a> { data: &'a [u8], at: usize, until: usize, panic: bool }
impl Read for Source<'_> {
  fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    guard::tick();
    if b.is_empty() { return Ok(0) }
    if self.at >= self.until { if self.panic { panic!("injected panic") } return Err(Error::new(ErrorKind::Other, "injected read failure")) }
    let n = b.len().min(self.until - self.at).min(7);
    b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
    self.at += n;
    Ok(n)
  }
}

fn told<T>(r: Result<Result<T, String>, Bad>, text: impl Fn(T) -> String) -> String {
  match r { Ok(Ok(x)) => text(x), Ok(Err(e)) => format!("error {e}"), Err(b) => b.to_string() }
}
/// Carries out a call and says what came of it.
fn run(cx: &Cx, c: &Call) -> String {
  let e = &cx.reg[c.di];
  match &c.op {
    Op::Write(v) => { let f = e.ser.as_ref().unwrap().to_string; told(guard(4096, || f(v)), |x| x) }
    Op::Indent(v, k) => { let f = e.ser.as_ref().unwrap().to_string_cfg; told(guard(4096, || f(v, k)), |x| x) }
    Op::Content(v) => { let f = e.ser.as_ref().unwrap().content; told(guard(4096, || f(v)), |x| x) }
    Op::WriteFault(v, k, p) => {
      let f = e.ser.as_ref().unwrap().to_writer;
      let mut w = Sink { got: vec![], left: *k, panic: *p };
      let r = told(guard(4096, || f(v, &mut w, &Cfg::default_())), |_| "written".into());
      format!("{r}, the writer got {}", String::from_utf8_lossy(&w.got))
    }
    Op::Read(t) => { let f = e.de.as_ref().unwrap().from_str; told(guard(t.len(), || f(t)), |v| v.to_string()) }
    Op::ReadFault(t, k, p) => {
      let f = e.de.as_ref().unwrap().from_reader;
      let mut r = Source { data: t.as_bytes(), at: 0, until: *k, panic: *p };
      told(guard(t.len() * 4, || f(&mut r)), |v| v.to_string())
    }
  }
}
fn describe(cx: &Cx, c: &Call) -> String {
  let n = &cx.d(c.di).name;
  match &c.op {
    Op::Write(v) => format!("write {n} {v}"), Op::Indent(v, k) => format!("write {n} {v} with {k:?}"), Op::Content(v) => format!("write the content of {n} {v}"),
    Op::WriteFault(v, k, p) => format!("write {n} {v} to a writer that {} at call {k}", if *p { "panics" } else { "fails" }),
    Op::Read(t) => format!("read {n} from {t:?}"), Op::ReadFault(t, k, p) => format!("read {n} from {t:?} with a reader that {} at byte {k}", if *p { "panics" } else { "fails" }),
  }
}

fn call(cx: &Cx, di: usize, en: &mut Ent, ed: &mut Ent) -> Option<Call> {
  let dd = cx.d(di);
  let mut k = ed.pick(10);
  if !dd.de { k %= 5 }
  if !dd.ser { k = 5 + k % 5 }
  if k < 5 {
    let v = cx.gen(Opts { big: false, ..PLAIN_STR }).decl(en, di, 0);
    return Some(match k {
      1 => Call { di, op: Op::Indent(v, Cfg { indent: ed.pick(3) != 2, decl: ed.pick(2) == 0, indent_string: [None, Some("\t".into()), Some("    ".into())][ed.pick(3)].clone() }), want: None },
      2 => Call { di, op: Op::Content(v), want: None },
      3 | 4 => { let c = ed.pick(24); Call { di, op: Op::WriteFault(v, c, k == 4), want: None } }
      _ => Call { di, op: Op::Write(v), want: None },
    })
  }
  let v = cx.gen(Opts { big: false, ..RT }).rt(en, di)?;
  let mut tree = cx.tree(di, &v)?;
  // what the model says; the text REFUSED for any error
  let mut known = true;
  let mut want = None;
  if k == 6 {
    match ed.pick(4) {
      0 => { docs::thin(cx.s(), di, &mut tree, ed); docs::spoil(cx.s(), di, &mut tree, ed); }
      1 => { docs::noise(cx.s(), di, &mut tree, ed, true); }
      2 => { docs::scramble(&mut tree, ed); known = false }
      _ => {
        let ns = docs::near_uri(ed, &tree.ns);
        known = false;
        if !dd.flatten && matches!(dd.kind, Kind::Struct(_) | Kind::Enum(..)) && !ns.is_empty() && ns != tree.ns { tree.ns = ns; want = Some(REFUSED.to_string()) }
      }
    }
  }
  if tree.local == schema::xml::FRAGMENT && !tree.has_elems() { return None }
  if known { want = cx.s().de_elem(di, &tree).ok().map(|v| v.to_string()) }
  let (doc, _) = render(&tree, &PLAIN, &mut Ent::new(&[]));
  let n = doc.len();
  let at = |ed: &mut Ent| ed.raw() as usize % (n + 1);
  Some(match k {
    7 => { let mut t = doc; let mut c = at(ed); while !t.is_char_boundary(c) { c -= 1 } t.truncate(c); Call { di, op: Op::Read(t), want: None } }
    8 | 9 => { let c = at(ed); Call { di, op: Op::ReadFault(doc, c, k == 9), want: None } }
    _ => Call { di, op: Op::Read(doc), want },
  })
}

pub fn c19(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let mut en = Ent::new(v);
  let mut ed = Ent::new(d);
  let n = 2 + ed.pick(7);
  let near: Vec<usize> = deps(cx.d(t.a)).into_iter().filter(|j| cx.d(*j).ser || cx.d(*j).de).collect();
  let mut calls: Vec<Call> = vec![];
  for k in 0..n {
    let di = match ed.pick(4) { 2 if !near.is_empty() => near[ed.pick(near.len())], 3 if k > 0 => { let m = cx.s().decls.len(); (ed.raw() as usize * 31 + ed.raw() as usize) % m } _ => t.a };
    if cx.d(di).ser || cx.d(di).de { if let Some(c) = call(cx, di, &mut en, &mut ed) { calls.push(c) } }
  }
  if calls.is_empty() { return trivial("outside of the domain") }
  let m = calls.len();
  let story = |upto: &[usize]| upto.iter().map(|i| describe(cx, &calls[*i])).collect::<Vec<_>>().join("; then ");
  let order: Vec<usize> = (0..m).collect();
  fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> T { std::thread::scope(|s| std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, f).unwrap().join().expect("harness: thread")) }
  // in order, in a thread that has no past; now and then the whole of it many times over
  let rounds = if ed.pick(16) == 5 { 100 } else { 1 };
  let (first, late) = fresh(|| {
    let first: Vec<String> = order.iter().map(|i| run(cx, &calls[*i])).collect();
    let late = (1..rounds).find_map(|k| order.iter().find_map(|i| { let g = run(cx, &calls[*i]); (g != first[*i]).then_some((k, *i, g)) }));
    (first, late)
  });
  for (i, c) in calls.iter().enumerate() {
    if let Some(w) = &c.want { if *w != first[i] && !(w == REFUSED && first[i].starts_with("error")) { return fail(format!("{}: expected {w}, got {}", story(&order[..=i]), first[i])) } }
    if let Op::Write(v) = &c.op { cx.matches(c.di, v, &first[i]).map_err(|f| Fail { msg: format!("{}: {}", story(&order[..=i]), f.msg) })?; }
  }
  // each in a thread of its own
  for i in 0..m {
    let alone = fresh(|| run(cx, &calls[i]));
    if alone != first[i] { return fail(format!("{} gives {}, but alone {alone}", story(&order[..=i]), first[i])) }
  }
  if let Some((k, i, g)) = late { return fail(format!("{} gives {}, but {g} after {k} times: {}", describe(cx, &calls[i]), first[i], story(&order))) }
  // backwards, in the thread of the run, that has the calls of other runs behind it
  let back: Vec<usize> = (0..m).rev().collect();
  for (k, i) in back.iter().enumerate() {
    let got = run(cx, &calls[*i]);
    if got != first[*i] { return fail(format!("{} gives {}; after {}, it gives {got}", describe(cx, &calls[*i]), first[*i], story(&back[..k]))) }
  }
  // the calls of several threads at the same time
  let crowd = 2 + ed.pick(2);
  let turns: Vec<Vec<usize>> = (0..crowd).map(|k| (0..m * 2).map(|i| (i * (1 + k % 2) + k) % m).collect()).collect();
  let bad: Vec<Option<(usize, String)>> = std::thread::scope(|s| {
    let hs: Vec<_> = turns.iter().map(|o| { let calls = &calls; let first = &first; std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, move || o.iter().find_map(|i| { let g = run(cx, &calls[*i]); (g != first[*i]).then_some((*i, g)) })).unwrap() }).collect();
    hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
  });
  if let Some((i, g)) = bad.into_iter().flatten().next() { return fail(format!("{} gives {}, but {g} while {crowd} threads do this: {}", describe(cx, &calls[i]), first[i], story(&order))) }
  let mut l: Vec<&'static str> = vec![];
  for c in &calls { l.push(match &c.op { Op::Write(_) | Op::Indent(..) => "writes", Op::Content(_) => "writes a content", Op::WriteFault(_, _, false) => "failing writer", Op::WriteFault(..) => "panicking writer", Op::Read(_) => "reads", Op::ReadFault(_, _, false) => "failing reader", Op::ReadFault(..) => "panicking reader" }) }
  for (i, f) in first.iter().enumerate() { if f.starts_with("error") && matches!(calls[i].op, Op::Read(_)) { l.push("document refused") } }
  let mixed = { let mut x = l.clone(); x.sort(); x.dedup(); x.len() };
  if rounds > 1 { l.push("repeated many times") }
  l.sort();
  l.dedup();
  info(&story(&order), m >= 3 && mixed >= 2, l, (m * (2 + rounds + 2 * crowd)) as u64)
}
