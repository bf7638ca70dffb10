//! Shared context of a run: the declarations, the compiled code for them, and helpers to call it.
use crate::guard::{guard, Bad};
use crate::values::{Gen, Opts};
use glue::{Cfg, Entry};
use schema::ast::*;
use schema::universe::Universe;
use schema::xml::{self, Doc, Elem, Ent, Node};
use std::hash::{Hash, Hasher};
use val::Val;

pub struct Cx { pub u: Universe, pub reg: Vec<Entry>, pub thorough: bool, pub seed: u64 }

#[derive(Clone, Debug)]
pub struct Fail { pub msg: String }
pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> { Err(Fail { msg: shorten(msg.into()) }) }

#[derive(Default)]
pub struct Info {
  pub key: u64,
  pub nontrivial: bool,
  pub labels: Vec<&'static str>,
  pub sample: String,
  /// executions of the library in this case
  pub runs: u64,
}
pub type Out = Result<Info, Fail>;

pub fn hash<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
pub fn cut(s: &str, n: usize) -> String {
  if s.chars().count() <= n { return s.to_string() }
  let mut o: String = s.chars().take(n).collect();
  o.push_str(&format!("... ({} bytes)", s.len()));
  o
}

/// Keeps the messages about documents of megabytes readable.
fn shorten(msg: String) -> String {
  if msg.len() < 60_000 { return msg }
  let tail: Vec<char> = msg.chars().rev().take(3000).collect();
  format!("{} [...] {}", cut(&msg, 3000), tail.into_iter().rev().collect::<String>())
}

impl Cx {
  pub fn s(&self) -> &Schema { &self.u.schema }
  pub fn d(&self, i: usize) -> &Decl { &self.u.schema.decls[i] }
  pub fn by(&self, name: &str) -> usize { self.u.schema.decls.iter().position(|d| d.name == name).unwrap_or_else(|| panic!("harness: no declaration {name}")) }
  pub fn has(&self, i: usize, g: &str) -> bool { self.d(i).groups.iter().any(|x| *x == g) }
  pub fn gen(&self, o: Opts) -> Gen<'_> { Gen { s: self.s(), o } }

  pub fn bad<T>(&self, what: &str, di: usize, r: Result<T, Bad>) -> Result<T, Fail> {
    r.map_err(|b| Fail { msg: format!("{what} of {} {b}", self.d(di).name) })
  }
  pub fn ser(&self, di: usize, v: &Val) -> Result<String, Fail> {
    let f = self.reg[di].ser.as_ref().expect("harness: ser").to_string;
    match self.bad("serialization", di, guard(4096, || f(v)))? {
      Ok(s) => Ok(s),
      Err(e) => fail(format!("serializing {v} of {} failed: {e}", self.d(di).name)),
    }
  }
  pub fn ser_cfg(&self, di: usize, v: &Val, c: &Cfg) -> Result<String, Fail> {
    let f = self.reg[di].ser.as_ref().expect("harness: ser").to_string_cfg;
    match self.bad("serialization", di, guard(4096, || f(v, c)))? {
      Ok(s) => Ok(s),
      Err(e) => fail(format!("serializing {v} of {} with {c:?} failed: {e}", self.d(di).name)),
    }
  }
  pub fn de(&self, di: usize, doc: &str) -> Result<Result<Val, String>, Fail> {
    let f = self.reg[di].de.as_ref().expect("harness: de").from_str;
    match guard(doc.len(), || f(doc)) {
      Ok(r) => Ok(r),
      Err(b) => fail(format!("deserialization of {} from {doc:?} {b}", self.d(di).name)),
    }
  }
  pub fn de_ok(&self, di: usize, doc: &str) -> Result<Val, Fail> {
    match self.de(di, doc)? { Ok(v) => Ok(v), Err(e) => fail(format!("deserializing {} from {doc:?} failed: {e}", self.d(di).name)) }
  }
  /// Compares what the library reads with what the model reads.
  pub fn agree(&self, di: usize, doc: &str, want: &Result<Val, String>) -> Result<(), Fail> {
    let got = self.de(di, doc)?;
    match (want, &got) {
      (Ok(a), Ok(b)) if a == b => Ok(()),
      (Err(_), Err(_)) => Ok(()),
      _ => fail(format!("{} from {doc:?}: expected {}, got {}", self.d(di).name, show(want), show(&got))),
    }
  }
  /// Strict parse of a whole document (or of the fragment of a flattened root).
  pub fn parse(&self, di: usize, doc: &str) -> Result<Doc, Fail> {
    xml::parse(doc, self.d(di).flatten, &[]).or_else(|e| fail(format!("{} wrote {doc:?}: {e}", self.d(di).name)))
  }
  /// The document against the model: names, content, prefixes, CDATA.
  pub fn matches(&self, di: usize, v: &Val, doc: &str) -> Result<Doc, Fail> {
    let got = self.parse(di, doc)?;
    let want = self.s().ser_root(di, v);
    let mut wn: Vec<&Elem> = vec![];
    let mut wt = String::new();
    for n in &want { match n { Node::E(e) => wn.push(e), Node::T(t) => wt.push_str(t) } }
    let p = |e: String| Fail { msg: format!("{} of {v} wrote {doc:?}: {e}", self.d(di).name) };
    if wn.len() != got.roots.len() { return Err(p(format!("expected {} root elements, found {}", wn.len(), got.roots.len()))) }
    if wt != got.stray { return Err(p(format!("expected text {wt:?} outside of elements, found {:?}", got.stray))) }
    for (a, b) in wn.iter().zip(&got.roots) {
      xml::diff(a, b, "").map_err(p)?;
      xml::diff_prefixes(a, b, "").map_err(p)?;
      xml::diff_cdata(a, b, "").map_err(p)?;
      xml::diff_order(a, b, "").map_err(p)?;
    }
    Ok(got)
  }
  /// The document tree of a value, for reading.
  pub fn tree(&self, di: usize, v: &Val) -> Option<Elem> {
    let roots = self.s().ser_root(di, v);
    if self.d(di).flatten {
      let mut e = Elem::new("", xml::FRAGMENT);
      if roots.is_empty() || roots.iter().any(|n| matches!(n, Node::T(_))) { return None }
      e.kids = roots;
      return Some(e)
    }
    match roots.into_iter().next() { Some(Node::E(e)) => Some(e), _ => None }
  }
}
pub fn show(r: &Result<Val, String>) -> String { match r { Ok(v) => format!("{v}"), Err(e) => format!("an error ({e})") } }

/// Classes of a value, for the distribution in the evidence.
pub fn classes(v: &Val, out: &mut Vec<&'static str>) {
  let mut put = |x: &'static str| if !out.contains(&x) { out.push(x) };
  match v {
    Val::Str(s) => {
      if s.chars().any(|c| matches!(c, '<' | '>' | '&' | '"' | '\'')) { put("string with markup characters") }
      if s.chars().any(|c| !c.is_ascii()) { put("non-ASCII string") }
      if s.contains("]]>") { put("string with ]]>") }
      if s.contains('\n') || s.contains('\t') || s.contains('\r') { put("string with line breaks or tabs") }
      if s.is_empty() { put("empty string") }
      if s.len() > 1000 { put("long string") }
      if s.len() > 1_000_000 { put("string of megabytes") }
    }
    Val::None => put("absent option"),
    Val::Some(x) => { put("present option"); classes(x, out) }
    Val::List(l) => { match l.len() { 0 => put("empty sequence"), 1 => put("sequence of one"), 10_000.. => put("sequence of ten thousands"), 100.. => put("sequence of hundreds"), _ => put("sequence of several") } for x in l { classes(x, out) } }
    Val::Struct(l) => for x in l { classes(x, out) },
    Val::Enum(_, p) => { match p { None => put("unit variant"), Some(p) => { put("payload variant"); classes(p, out) } } }
    Val::F64(b) => { let f = f64::from_bits(*b); if !f.is_finite() { put("infinite or NaN") } else if f == 0.0 && f.is_sign_negative() { put("negative zero") } }
    Val::F32(b) => { let f = f32::from_bits(*b); if !f.is_finite() { put("infinite or NaN") } else if f == 0.0 && f.is_sign_negative() { put("negative zero") } }
    _ => {}
  }
}
pub fn shape(e: &Elem, out: &mut Vec<&'static str>) {
  if e.depth() >= 100 { out.push("depth 100 or more") }
  if e.depth() >= 3 { out.push("depth 3 or more") }
  if e.count() >= 10 { out.push("10 elements or more") }
}
pub fn info(doc: &str, nontrivial: bool, labels: Vec<&'static str>, runs: u64) -> Out {
  Ok(Info { key: hash(&doc), nontrivial, labels, sample: cut(doc, 400), runs })
}
pub fn trivial(why: &'static str) -> Out { Ok(Info { labels: vec![why], ..Default::default() }) }
pub fn picks(e: &mut Ent, n: usize) -> usize { e.pick(n) }
