//! Operation sequences over the event stream, against a model over the events of the document.
use crate::cx::*;
use crate::drive::Target;
use crate::faults::Chunks;
use crate::guard::guard;
use crate::props::{self, ALL};
use crate::values::ANY;
use schema::ast::Kind;
use schema::lit::trim;
use schema::xml::{self, render, Elem, Ent, Node, PLAIN};
use std::io::Read;
use val::Val;
use yaserde::de::Deserializer;
use yaserde::__xml::name::OwnedName;
use yaserde::__xml::reader::XmlEvent;

#[derive(Clone, Debug, PartialEq)]
enum Ev { Start(Name, Vec<(Name, String)>), Text(String), End(Name), Eof, Other(String) }
/// prefix, namespace, local name
type Name = (String, String, String);

fn name_of(n: &OwnedName) -> Name { (n.prefix.clone().unwrap_or_default(), n.namespace.clone().unwrap_or_default(), n.local_name.clone()) }
fn seen(e: &XmlEvent) -> Ev {
  match e {
    XmlEvent::StartElement { name, attributes, .. } => Ev::Start(name_of(name), attributes.iter().map(|a| (name_of(&a.name), a.value.clone())).collect()),
    XmlEvent::EndElement { name } => Ev::End(name_of(name)),
    XmlEvent::Characters(t) => Ev::Text(t.clone()),
    XmlEvent::EndDocument => Ev::Eof,
    o => Ev::Other(format!("{o:?}")),
  }
}
/// Prefixes of attributes are not kept by the harness's parser: compare without them.
fn same(a: &Ev, b: &Ev) -> bool {
  match (a, b) {
    (Ev::Start(n, x), Ev::Start(m, y)) => n == m && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| (&p.0 .1, &p.0 .2, &p.1) == (&q.0 .1, &q.0 .2, &q.1)),
    _ => a == b,
  }
}
fn flat(e: &Elem, out: &mut Vec<Ev>) {
  let n = (e.prefix.clone(), e.ns.clone(), e.local.clone());
  out.push(Ev::Start(n.clone(), e.attrs.iter().map(|(u, l, t)| ((String::new(), u.clone(), l.clone()), t.clone())).collect()));
  for k in &e.kids {
    match k { Node::E(k) => flat(k, out), Node::T(t) => { let t = trim(t); if !t.is_empty() { out.push(Ev::Text(t.into())) } } }
  }
  out.push(Ev::End(n));
}

struct Model<'a> { evs: &'a [Ev], at: usize, depth: usize }
impl Model<'_> {
  fn peek(&self) -> Ev { self.evs[self.at.min(self.evs.len() - 1)].clone() }
  fn next(&mut self) -> Ev {
    let e = self.peek();
    self.at += 1;
    match &e { Ev::Start(..) => self.depth += 1, Ev::End(_) => self.depth -= 1, _ => {} }
    e
  }
}
struct Run<'a, 'b> { m: Model<'a>, en: &'b mut Ent<'b>, log: Vec<String>, ops: usize, special: usize }
type Step = Result<(), String>;

impl Run<'_, '_> {
  fn check(&mut self, what: &str, want: &Ev, got: Result<Ev, String>) -> Step {
    match got {
      Ok(g) if same(want, &g) => Ok(()),
      Ok(g) => Err(format!("{what}: expected {want:?}, got {g:?}")),
      Err(e) => Err(format!("{what}: expected {want:?}, got the error {e:?}")),
    }
  }
  fn depth<R: Read>(&self, r: &Deserializer<R>, after: &str) -> Step {
    if r.depth() == self.m.depth { Ok(()) } else { Err(format!("depth {} instead of {} after {after}", r.depth(), self.m.depth)) }
  }
  /// Runs operations; stops after the given number. Returns what the caller's callback would return.
  fn ops<R: Read>(&mut self, r: &mut Deserializer<R>, n: usize, level: usize) -> Step {
    for _ in 0..n {
      self.ops += 1;
      match self.en.pick(8) {
        0..=2 => { let w = self.m.next(); let g = r.next_event().map(|e| seen(&e)); self.log.push("next".into()); self.check("next_event", &w, g)?; self.depth(r, "next_event")? }
        3 => {
          self.special += 1;
          let w = self.m.peek();
          for k in 0..1 + self.en.pick(2) { let g = r.peek().map(seen); self.log.push("peek".into()); self.check(if k == 0 { "peek" } else { "second peek" }, &w, g)?; self.depth(r, "peek")? }
        }
        4 if self.m.depth > 0 => {
          self.special += 1;
          self.log.push("skip".into());
          let from = self.m.depth;
          let mut want = vec![];
          while self.m.depth >= from { want.push(self.m.next()) }
          let mut got = vec![];
          let res = r.skip_element(|e| { crate::guard::tick(); got.push(seen(e)) });
          if let Err(e) = res { return Err(format!("skip_element: the error {e:?}")) }
          if want.len() != got.len() || !want.iter().zip(&got).all(|(a, b)| same(a, b)) { return Err(format!("skip_element: expected {want:?}, got {got:?}")) }
          self.depth(r, "skip_element")?;
        }
        5 | 6 if level < 4 => {
          self.special += 1;
          self.log.push("read_inner_value {".into());
          let first = self.m.next();
          let is_start = matches!(first, Ev::Start(..));
          let k = self.en.pick(5);
          // leave the element just before its end tag, or anywhere
          let tidy = self.en.pick(3) != 0;
          let give_up = self.en.pick(6) == 5;
          let mut fault: Step = Ok(());
          let mut called = false;
          let base = self.m.depth;
          let value = self.ops as u64;
          let res = r.read_inner_value(|r| {
            called = true;
            let mut go = || -> Step {
              self.depth(r, "the start of read_inner_value")?;
              self.ops(r, k, level + 1)?;
              if tidy && self.m.depth >= base {
                while !(matches!(self.m.peek(), Ev::End(_)) && self.m.depth == base) { let w = self.m.next(); let g = r.next_event().map(|e| seen(&e)); self.check("next_event", &w, g)?; }
              }
              Ok(())
            };
            fault = go();
            if give_up { Err("given up".to_string()) } else { Ok(value) }
          });
          fault?;
          self.log.push("}".into());
          if called != is_start { return Err(format!("read_inner_value at {first:?}: the callback was {}called", if called { "" } else { "not " })) }
          let want = if !is_start || give_up { None } else {
            match (&first, self.m.next()) { (Ev::Start(a, _), Ev::End(b)) if *a == b => Some(value), _ => None }
          };
          match (&want, &res) {
            (Some(a), Ok(b)) if a == b => {}
            (None, Err(e)) => if give_up && is_start && e != "given up" { return Err(format!("read_inner_value: the callback's error became {e:?}")) },
            _ => return Err(format!("read_inner_value at {first:?}: expected {want:?}, got {res:?}")),
          }
          self.depth(r, "read_inner_value")?;
        }
        7 => {
          self.special += 1;
          // the next event is the end of an element of this name, or not
          self.log.push("expect_end_element".into());
          let nx = self.m.next();
          let name = match (&nx, self.en.pick(3)) { (Ev::End(n), 0 | 1) => n.clone(), (Ev::Start(n, _), 0) => n.clone(), (Ev::End(n), _) => (n.0.clone(), n.1.clone(), format!("{}x", n.2)), _ => (String::new(), String::new(), "zz".into()) };
          let on = OwnedName { local_name: name.2.clone(), namespace: (!name.1.is_empty()).then(|| name.1.clone()), prefix: (!name.0.is_empty()).then(|| name.0.clone()) };
          let want = matches!(&nx, Ev::End(n) if *n == name);
          let res = r.expect_end_element(&on);
          if res.is_ok() != want { return Err(format!("expect_end_element({}) at {nx:?}: {res:?}", name.2)) }
          self.depth(r, "expect_end_element")?;
        }
        _ => {}
      }
    }
    Ok(())
  }
}

pub fn c16(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  if t.name.starts_with("around/") { return around(cx, t, v, d) }
  if !t.name.starts_with("events/") { return composed(cx, t, v, d) }
  let mut en = Ent::new(v);
  let val = cx.gen(ANY).decl(&mut en, t.a, 0);
  let Some(tree) = cx.tree(t.a, &val) else { return trivial("no tree") };
  let mut ed = Ent::new(d);
  let st = if ed.pick(3) == 0 { PLAIN } else { ALL };
  let chunked = ed.pick(3) == 1;
  let mut lex: Vec<u16> = vec![];
  for _ in 0..24 { lex.push(ed.raw()) }
  let (doc, _) = render(&tree, &st, &mut Ent::new(&lex));
  let parsed = xml::parse(&doc, false, &[]).unwrap_or_else(|e| panic!("harness: own document {doc:?}: {e}"));
  let mut evs = vec![];
  flat(&parsed.roots[0], &mut evs);
  evs.push(Ev::Eof);
  // a reader of the caller's own: its events, but for those that never carry data
  let own = (ed.pick(3) == 2).then(|| {
    let c = glue::ParserConfig::new().trim_whitespace(ed.pick(2) == 0).whitespace_to_characters(ed.pick(2) == 0).cdata_to_characters(ed.pick(2) == 0).ignore_comments(ed.pick(2) == 0).coalesce_characters(ed.pick(2) == 0);
    evs.clear();
    for e in c.clone().create_reader(doc.as_bytes()) {
      let e = e.unwrap_or_else(|e| panic!("harness: own document {doc:?}: {e}"));
      if !matches!(e, XmlEvent::StartDocument { .. } | XmlEvent::ProcessingInstruction { .. } | XmlEvent::Comment(_)) { evs.push(seen(&e)) }
    }
    c
  });
  let rest: Vec<u16> = d.get(26..).unwrap_or(&[]).to_vec();
  let mut eo = Ent::new(&rest);
  let mut run = Run { m: Model { evs: &evs, at: 0, depth: 0 }, en: &mut eo, log: vec![], ops: 0, special: 0 };
  let reader: Box<dyn Read> = if chunked { Box::new(Chunks { data: doc.as_bytes(), at: 0, plan: &lex, step: 0, fail_at: None, once: false, failed: false }) } else { Box::new(doc.as_bytes()) };
  let n = 3 + rest.len() / 2;
  let res = guard(doc.len() * 4, || {
    let mut r = match &own { Some(c) => Deserializer::new(c.clone().create_reader(reader)), None => Deserializer::new_from_reader(reader) };
    run.ops(&mut r, n, 0)?;
    // what is left
    while run.m.at < evs.len() { let w = run.m.next(); let g = r.next_event().map(|e| seen(&e)); run.check("next_event", &w, g)?; run.depth(&r, "next_event")? }
    Ok::<(), String>(())
  });
  let log = || run.log.join(" ");
  match res {
    Ok(Ok(())) => {}
    Ok(Err(e)) => return fail(format!("events of {doc:?} after {}: {e}", log())),
    Err(b) => return fail(format!("events of {doc:?} after {}: {b}", log())),
  }
  let key = format!("{doc}{}", log());
  info(&key, run.ops >= 5 && run.special > 0, vec![if chunked { "in chunks" } else { "whole" }, if own.is_some() { "reader of the caller's own" } else { "reader of the library" }], run.ops as u64)
}

/// Hand-written types in every position of derived ones.
fn composed(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let dd = cx.d(t.a);
  let mut en = Ent::new(v);
  let Some(val) = cx.gen(crate::values::RT).rt(&mut en, t.a) else { return trivial("outside of the domain") };
  let doc = cx.ser(t.a, &val)?;
  let back = cx.de(t.a, &doc)?;
  if back.as_ref() != Ok(&val) { return fail(format!("{}: {val} was written as {doc:?} and read back as {}", dd.name, show(&back))) }
  let mut en = Ent::new(v);
  let pv = cx.gen(props::PLAIN_STR).decl(&mut en, t.a, 0);
  let pdoc = cx.ser(t.a, &pv)?;
  cx.matches(t.a, &pv, &pdoc)?;
  let mut tree = cx.tree(t.a, &val).unwrap();
  let mut ed = Ent::new(d);
  let mut l = vec!["hand-written"];
  if ed.pick(2) == 1 { l.extend(crate::docs::thin(cx.s(), t.a, &mut tree, &mut ed)) }
  if ed.pick(2) == 1 { l.extend(crate::docs::noise(cx.s(), t.a, &mut tree, &mut ed, false)) }
  let (doc2, _) = render(&tree, &if ed.pick(3) == 1 { ALL } else { PLAIN }, &mut ed);
  cx.agree(t.a, &doc2, &cx.s().de_elem(t.a, &tree))?;
  l.sort();
  l.dedup();
  info(&doc2, props::content(&tree), l, 4)
}

/// Derived types inside of a hand-written container.
fn around(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let dd = cx.d(t.a);
  let mut ed = Ent::new(d);
  let mut en = Ent::new(v);
  let n = 1 + ed.pick(4);
  let mut sample = String::new();
  let mut runs = 0;
  let mut l = vec!["in a hand-written container"];
  let between = || { let mut x = Elem::new("", "between"); x.push_text("a & b"); x };
  let frame = || { let mut e = Elem::new("", "around"); e.attrs.push((String::new(), "k".into(), "<v>".into())); e };
  if let Some(s) = &cx.reg[t.a].ser {
    let mut vals = vec![];
    let mut names = vec![];
    let mut want = frame();
    for _ in 0..n {
      let v = cx.gen(crate::values::Opts { big: false, ..props::PLAIN_STR }).decl(&mut en, t.a, 0);
      let mut e = match cx.s().ser_root(t.a, &v).into_iter().next() { Some(Node::E(e)) => e, _ => return trivial("no tree") };
      let plain: Vec<&(String, String)> = dd.ns.iter().filter(|(p, _)| dd.default_ns.as_ref() != Some(p)).collect();
      let name = match ed.pick(5) { 0 => None, 1 => Some("item"), 2 => Some("a-rather-long-name.of-an-item"), 3 => Some("around"), _ => Some(dd.local()) }.filter(|n| !n.contains(' '));
      let name = match name {
        None => None,
        Some(n) => {
          e.local = n.to_string();
          if plain.is_empty() || ed.pick(2) == 0 {
            e.prefix = String::new();
            e.ns = dd.default_ns.as_ref().and_then(|p| dd.uri_of(&Some(p.clone()))).unwrap_or("").to_string();
            Some(n.to_string())
          } else {
            let (p, u) = plain[ed.pick(plain.len())];
            e.prefix = p.clone();
            e.ns = u.clone();
            Some(format!("{p}:{n}"))
          }
        }
      };
      // the content alone: namespaces of the type would be declared on its element
      let bare = dd.ns.is_empty() && e.kid_elems().all(|k| k.ns.is_empty() && k.prefix.is_empty()) && !matches!(dd.kind, Kind::Custom(_)) && ed.pick(3) == 1;
      if bare { e.prefix.clear(); e.ns.clear(); e.local = "bare".into(); e.attrs.clear() }
      want.kids.push(Node::E(e));
      want.kids.push(Node::E(between()));
      vals.push(v);
      names.push(glue::Item { name, bare, skip_first: ed.pick(2) == 1 });
    }
    runs += 1;
    let f = s.around;
    let tell = |m: String| Fail { msg: format!("{} values {} written by a hand-written container under the names {names:?}: {m}", dd.name, vals.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")) };
    let doc = match guard(4096, || f(&vals, &names)) { Ok(Ok(x)) => x, Ok(Err(e)) => return Err(tell(e)), Err(b) => return Err(tell(b.to_string())) };
    let got = xml::parse(&doc, false, &[]).map_err(|e| tell(format!("{doc:?}: {e}")))?;
    let got = got.roots.first().ok_or_else(|| tell(format!("no element in {doc:?}")))?;
    for r in [xml::diff(&want, got, ""), xml::diff_prefixes(&want, got, ""), xml::diff_cdata(&want, got, ""), xml::diff_order(&want, got, "")] { r.map_err(|e| tell(format!("{doc:?}: {e}")))? }
    sample = doc;
    l.push("written");
  }
  if let Some(de) = &cx.reg[t.a].de {
    let mut en = Ent::new(v);
    let mut all = frame();
    let mut want: Result<Vec<Val>, String> = Ok(vec![]);
    for _ in 0..n {
      let Some(val) = cx.gen(crate::values::Opts { big: false, ..crate::values::RT }).rt(&mut en, t.a) else { continue };
      let Some(mut tree) = cx.tree(t.a, &val) else { continue };
      match ed.pick(4) { 1 => { l.extend(crate::docs::thin(cx.s(), t.a, &mut tree, &mut ed)) } 2 => { l.extend(crate::docs::noise(cx.s(), t.a, &mut tree, &mut ed, false)) } 3 if ed.pick(2) == 1 => { l.extend(crate::docs::spoil(cx.s(), t.a, &mut tree, &mut ed)) } _ => {} }
      if ed.pick(4) == 3 { all.push_text(["x", " between ", "\n"][ed.pick(3)]) }
      if let Ok(w) = &mut want { match cx.s().de_elem(t.a, &tree) { Ok(v) => w.push(v), Err(e) => want = Err(e) } }
      all.kids.push(Node::E(tree));
      if ed.pick(3) == 2 { all.kids.push(Node::E(between())) }
    }
    let (doc, _) = render(&all, &if ed.pick(3) == 2 { ALL } else { PLAIN }, &mut ed);
    let plan: Vec<u16> = (0..12).map(|_| ed.raw()).collect();
    let mut r = Chunks { data: doc.as_bytes(), at: 0, plan: &plan, step: 0, fail_at: None, once: false, failed: false };
    let f = de.around;
    runs += 1;
    let told = |r: &Result<Vec<Val>, String>| match r { Ok(l) => l.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "), Err(e) => format!("an error ({e})") };
    match guard(doc.len() * 4, || f(&mut r)) {
      Ok(got) => {
        let ok = match (&want, &got) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(e)) => !e.starts_with(glue::CONTRACT), _ => false };
        if !ok { return fail(format!("a hand-written container of {} reads {doc:?} as {}, expected {}", dd.name, told(&got), told(&want))) }
      }
      Err(b) => return fail(format!("a hand-written container of {}: reading {doc:?} {b}", dd.name)),
    }
    if sample.is_empty() { sample = doc }
    l.push("read");
  }
  l.sort();
  l.dedup();
  info(&sample, n > 1, l, runs)
}
