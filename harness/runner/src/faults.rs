//! Readers and writers that misbehave, and bytes that are not documents.
use crate::cx::*;
use crate::drive::Target;
use crate::guard::guard;
use crate::props::{is_huge, total, ALL};
use crate::values::{enlarge, Opts, RT};
use glue::Cfg;
use schema::ast::*;
use schema::xml::{render, Ent, PLAIN};
use std::io::{Error, ErrorKind, Read, Write};

/// Delivers chunks of the given sizes with interruptions in between, and fails at a byte if asked to.
pub struct Chunks<'a> { pub data: &'a [u8], pub at: usize, pub plan: &'a [u16], pub step: usize, pub fail_at: Option<usize>, pub once: bool, pub failed: bool }
impl Read for Chunks<'_> {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    crate::guard::tick();
    if buf.is_empty() { return Ok(0) }
    let c = if self.plan.is_empty() { 0xffff } else { self.plan[self.step % self.plan.len()] };
    self.step += 1;
    // an interruption only when the next step makes progress
    if c % 5 == 4 && self.step % 2 == 1 { return Err(Error::from(ErrorKind::Interrupted)) }
    if let Some(k) = self.fail_at {
      if self.at >= k && !(self.once && self.failed) { self.failed = true; return Err(Error::new(ErrorKind::Other, "injected read failure")) }
    }
    let mut n = if c == 0xffff { usize::MAX } else { 1 + (c as usize / 5) % 17 };
    n = n.min(buf.len()).min(self.data.len() - self.at);
    if let Some(k) = self.fail_at { if self.at < k { n = n.min(k - self.at) } }
    buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
    self.at += n;
    Ok(n)
  }
}

pub fn c08(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let dd = cx.d(t.a);
  let mut en = Ent::new(v);
  let Some(mut val) = cx.gen(Opts { big: false, ..RT }).rt(&mut en, t.a) else { return trivial("outside of the domain") };
  let huge = is_huge(t);
  if huge && enlarge(&mut val, &mut en, 5 << 18) == 0 { return trivial("nothing to enlarge") }
  let mut ed = Ent::new(d);
  let (doc, end) = if dd.flatten {
    let mut doc = String::new();
    for n in cx.s().ser_root(t.a, &val) { if let schema::xml::Node::E(e) = n { let (x, _) = render(&e, &PLAIN, &mut Ent::new(&[])); doc.push_str(&x) } }
    (doc, 0)
  } else {
    let Some(tree) = cx.tree(t.a, &val) else { return trivial("outside of the domain") };
    let st = if ed.chance(1, 2) && !huge { ALL } else { PLAIN };
    render(&tree, &st, &mut ed)
  };
  let want = cx.de(t.a, &doc)?;
  if want.as_ref() != Ok(&val) { return fail(format!("{} from {doc:?}: {} instead of {val}", dd.name, show(&want))) }
  let f = cx.reg[t.a].de.as_ref().unwrap().from_reader;
  let bytes = doc.as_bytes();
  let name = &dd.name;
  let mut runs = 1;
  let rest: Vec<u16> = (0..24).map(|_| ed.raw()).collect();
  let plans: [&[u16]; 6] = [&[0], &[4, 0], &[5], &rest, &rest[..5], &[]];
  for p in plans {
    if huge && bytes.len() > 200_000 && p.len() < 5 && !p.is_empty() { continue }
    let mut r = Chunks { data: bytes, at: 0, plan: p, step: 0, fail_at: None, once: false, failed: false };
    runs += 1;
    match guard(bytes.len() * 4, || f(&mut r)) {
      Ok(got) => if got != want { return fail(format!("{name} from {doc:?} in chunks {p:?}: {} instead of {val}", show(&got))) },
      Err(b) => return fail(format!("deserialization of {name} from {doc:?} in chunks {p:?} {b}")),
    }
  }
  // a deserializer made from the caller's own event reader
  let own = cx.reg[t.a].de.as_ref().unwrap().own_reader;
  let base = glue::ParserConfig::new().trim_whitespace(true).whitespace_to_characters(true).cdata_to_characters(true).ignore_comments(true).coalesce_characters(true);
  for (k, c) in [base.clone(), base.clone().ignore_comments(false), base.clone().trim_whitespace(false)].iter().enumerate() {
    // with comments delivered they end a run of text; white space kept around text is part of it
    if (k == 1 && doc.contains("<!--")) || (k == 2 && (doc.contains(|c: char| schema::lit::is_ws(c)))) { continue }
    let mut r = Chunks { data: bytes, at: 0, plan: &rest, step: 0, fail_at: None, once: false, failed: false };
    runs += 1;
    match guard(bytes.len() * 4, || own(&mut r, c)) {
      Ok(got) => if got != want { return fail(format!("{name} from {doc:?} through the event reader {c:?}: {} instead of {val}", show(&got))) },
      Err(b) => return fail(format!("deserialization of {name} from {doc:?} through the event reader {c:?} {b}")),
    }
  }
  // every cut and every failing byte before the end of the root element; hand-written readers of
  // this harness and flattened roots end where they want
  if matches!(dd.kind, Kind::Custom(_)) || dd.flatten { return info(&doc, true, vec!["chunks"], runs) }
  let sampled: Vec<usize> = (0..10).map(|i| match i { 0..=2 => end - 1 - i, 3..=5 => (end >> (i - 2)) + i, _ => (ed.raw() as usize * 65_521 + ed.raw() as usize) % end }).collect();
  for k in if huge { sampled } else { (0..end).collect() } {
    let cut = &bytes[..k];
    runs += 3;
    let got = guard(k, || f(&mut &cut[..])).map_err(|b| Fail { msg: format!("deserialization of {name} from the first {k} bytes of {doc:?} {b}") })?;
    if let Ok(x) = got { return fail(format!("{name}: the first {k} bytes of {doc:?} are read as {x}")) }
    if doc.is_char_boundary(k) {
      if let Ok(x) = cx.de(t.a, &doc[..k])? { return fail(format!("{name}: the first {k} bytes of {doc:?} (as a string) are read as {x}")) }
    }
    for once in [false, true] {
      let mut r = Chunks { data: bytes, at: 0, plan: &rest, step: 0, fail_at: Some(k), once, failed: false };
      let got = guard(bytes.len() * 4, || f(&mut r)).map_err(|b| Fail { msg: format!("deserialization of {name} from {doc:?} with a read failure at byte {k} {b}") })?;
      if r.failed { if let Ok(x) = got { return fail(format!("{name}: {doc:?} with a read failure at byte {k} (once: {once}) is read as {x}")) } }
    }
  }
  info(&doc, true, vec!["chunks", "cuts and read failures"], runs)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault { None, Forever(usize), Once(usize), Zero(usize), Broken(usize) }
struct Faulty<'a> { got: Vec<u8>, calls: usize, fault: Fault, hit: bool, plan: &'a [u16] }
impl Write for Faulty<'_> {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    crate::guard::tick();
    let k = self.calls;
    self.calls += 1;
    match self.fault {
      Fault::Forever(n) if k >= n => { self.hit = true; return Err(Error::new(ErrorKind::Other, "injected write failure")) }
      Fault::Broken(n) if k >= n => { self.hit = true; return Err(Error::from(ErrorKind::BrokenPipe)) }
      Fault::Once(n) if k == n => { self.hit = true; return Err(Error::new(ErrorKind::Other, "injected write failure")) }
      Fault::Zero(n) if k == n && !b.is_empty() => { self.hit = true; return Ok(0) }
      _ => {}
    }
    let mut n = b.len();
    if !self.plan.is_empty() {
      let c = self.plan[k % self.plan.len()];
      if c % 4 == 3 && k % 2 == 0 { return Err(Error::from(ErrorKind::Interrupted)) }
      if c % 4 >= 1 { n = n.min(1 + (c as usize / 4) % 5) }
    }
    self.got.extend_from_slice(&b[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

pub fn c09(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let dd = cx.d(t.a);
  let mut en = Ent::new(v);
  let mut val = cx.gen(Opts { rt: false, nasty: false, plain: true, big: false }).decl(&mut en, t.a, 0);
  let huge = is_huge(t);
  if huge && enlarge(&mut val, &mut en, 1 << 20) == 0 { return trivial("nothing to enlarge") }
  let mut ed = Ent::new(d);
  let cfg = Cfg { indent: ed.pick(2) == 1, decl: ed.pick(3) != 2, indent_string: None };
  let s = cx.reg[t.a].ser.as_ref().unwrap();
  let mut runs = 0;
  let mut sample = String::new();
  let mut calls = 0;
  for content in [false, true] {
    let go = |w: &mut Faulty| -> Result<Result<(), String>, Fail> {
      let r = if content { guard(1 << 16, || (s.content_writer)(&val, w)) } else { guard(1 << 16, || (s.to_writer)(&val, w, &cfg)) };
      r.map_err(|b| Fail { msg: format!("serialization of {val} of {} to a writer with fault {:?} {b}", dd.name, w.fault) })
    };
    let mut w = Faulty { got: vec![], calls: 0, fault: Fault::None, hit: false, plan: &[] };
    if let Err(e) = go(&mut w)? { return fail(format!("serializing {val} of {} failed: {e}", dd.name)) }
    let whole = w.got;
    let n = w.calls;
    if !content { sample = String::from_utf8_lossy(&whole).into_owned(); calls = n }
    let sampled: Vec<usize> = (0..n.min(5)).chain(n - n.min(5)..n).chain((0..6).map(|_| (ed.raw() as usize * 65_521 + ed.raw() as usize) % n.max(1))).collect();
    for k in if huge { sampled } else { (0..n).collect() } {
      for fault in [Fault::Forever(k), Fault::Once(k), Fault::Zero(k), Fault::Broken(k)] {
        let mut w = Faulty { got: vec![], calls: 0, fault, hit: false, plan: &[] };
        let r = go(&mut w)?;
        runs += 1;
        if r.is_ok() && (w.hit || w.got != whole) {
          return fail(format!("{} of {val}{}: write call {k} of {n} failed ({fault:?}) but success is reported; the writer got {:?} of {:?}", dd.name, if content { " (content only)" } else { "" }, String::from_utf8_lossy(&w.got), String::from_utf8_lossy(&whole)));
        }
        if r.is_err() && !w.hit { return fail(format!("{} of {val}: an error is reported without a fault", dd.name)) }
        if !whole.starts_with(&w.got) && matches!(fault, Fault::Forever(_) | Fault::Broken(_)) { return fail(format!("{} of {val}: before the failed write call {k} the writer got {:?}, which does not start {:?}", dd.name, String::from_utf8_lossy(&w.got), String::from_utf8_lossy(&whole))) }
      }
    }
    let rest: Vec<u16> = (0..16).map(|_| ed.raw()).collect();
    for p in [&rest[..], &rest[..3], &[1][..], &[3, 0][..], &[7, 2, 1][..]] {
      let mut w = Faulty { got: vec![], calls: 0, fault: Fault::None, hit: false, plan: p };
      let r = go(&mut w)?;
      runs += 1;
      if let Err(e) = r { return fail(format!("{} of {val}: short writes and interruptions {p:?} gave the error {e}", dd.name)) }
      if w.got != whole { return fail(format!("{} of {val}: with short writes and interruptions {p:?} the writer got {:?} instead of {:?}", dd.name, String::from_utf8_lossy(&w.got), String::from_utf8_lossy(&whole))) }
    }
  }
  info(&sample, calls >= 5, vec![if cfg.indent { "indented" } else { "plain" }], runs)
}

const TOKENS: [&str; 40] = [
  "<", ">", "</", "/>", "&", "&amp;", "&#0;", "&#x41;", "&bogus;", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<?xml version=\"1.0\"?>", "<!DOCTYPE a [<!ENTITY e \"v\">]>", "xmlns=\"\"", "xmlns:p=\"urn:p\"",
  "xmlns:p=\"\"", "\"", "'", "=", " ", "\n", "\u{feff}", "\0", "\u{1}", "é", "\u{10FFFF}", "99999999999999999999", "-1", "NaN", "true", "<a/>", "<a></a>", "</a>", ":", "p:", "&e;",
];
pub fn mutate(mut b: Vec<u8>, en: &mut Ent, words: &[String]) -> Vec<u8> {
  for _ in 0..1 + en.pick(5) {
    let n = b.len();
    let at = |en: &mut Ent| if n == 0 { 0 } else { en.raw() as usize % n };
    match en.pick(13) {
      0 => { let k = at(en); b.truncate(k) }
      1 => if n > 0 { let k = at(en); b[k] ^= 1 << en.pick(8) },
      2 => if n > 0 { let k = at(en); b[k] = en.raw() as u8 },
      3 => { let k = at(en); let m = (k + 1 + en.pick(12)).min(n); b.drain(k.min(m)..m); }
      4 => { let k = at(en); let m = (k + 1 + en.pick(40)).min(n); let part = b[k.min(m)..m].to_vec(); let to = at(en); b.splice(to..to, part); }
      5 | 6 => { let k = at(en); let tk = TOKENS[en.pick(TOKENS.len())]; b.splice(k..k, tk.bytes()); }
      7 => { let k = at(en); let w = &words[en.pick(words.len())]; b.splice(k..k, format!("<{w}>").into_bytes()); }
      8 => { let k = at(en); let w = &words[en.pick(words.len())]; b.splice(k..k, format!("</{w}>").into_bytes()); }
      9 => { let k = at(en); let bad: [&[u8]; 5] = [&[0xff], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xfe, 0xff]]; b.splice(k..k, bad[en.pick(5)].iter().copied()); }
      10 => {
        // a tag replaced by another word of the vocabulary
        let starts: Vec<usize> = b.iter().enumerate().filter(|(i, c)| **c == b'<' && *i + 1 < n && b[*i + 1].is_ascii_alphabetic()).map(|(i, _)| i + 1).collect();
        if !starts.is_empty() {
          let k = starts[en.pick(starts.len())];
          let e = b[k..].iter().position(|c| matches!(c, b'>' | b' ' | b'/')).map(|x| k + x).unwrap_or(n);
          let w = if en.chance(1, 4) { crate::values::straddle(en) } else { words[en.pick(words.len())].clone() };
          b.splice(k..e, w.into_bytes());
        }
      }
      11 => {
        // an element dropped or doubled as text
        if let (Some(k), true) = (b.iter().position(|c| *c == b'>'), n > 4) { let m = b[k..].iter().rposition(|c| *c == b'<').map(|x| x + k).unwrap_or(k + 1); if m > k + 1 { let part = b[k + 1..m].to_vec(); if en.chance(1, 2) { b.splice(m..m, part); } else { b.drain(k + 1..m); } } }
      }
      _ => { let w = words[en.pick(words.len())].clone(); let k = at(en); let deep = 1 + en.pick(60); b.splice(k..k, format!("<{w}>").repeat(deep).into_bytes()); if en.chance(1, 2) { b.extend(format!("</{w}>").repeat(deep).into_bytes()) } }
    }
    if b.len() > 20_000 { b.truncate(20_000) }
  }
  b
}
pub fn soup(en: &mut Ent, words: &[String]) -> Vec<u8> {
  let mut s = String::new();
  let mut open: Vec<String> = vec![];
  if en.chance(3, 4) { let w = words[1 % words.len()].clone(); s.push_str(&format!("<{w}>")); open.push(w) }
  for _ in 0..en.pick(30) {
    match en.pick(8) {
      0..=2 => { let w = words[en.pick(words.len())].clone(); s.push_str(&format!("<{w}>")); open.push(w) }
      3 | 4 => if let Some(w) = open.pop() { s.push_str(&format!("</{w}>")) },
      5 => s.push_str(&words[en.pick(words.len())]),
      6 => { let w = &words[en.pick(words.len())]; s.push_str(&format!("<{w} {}=\"{}\"/>", words[en.pick(words.len())], words[en.pick(words.len())])) }
      _ => s.push_str(TOKENS[en.pick(TOKENS.len())]),
    }
  }
  if en.chance(2, 3) { while let Some(w) = open.pop() { s.push_str(&format!("</{w}>")) } }
  s.into_bytes()
}
#[allow(dead_code)]
fn _unused(cx: &Cx) { let _ = total(cx, 0, &[]); }
