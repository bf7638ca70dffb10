//! The properties: for each the targets, and the check of one generated case.
use crate::cx::*;
use crate::docs::{self, What};
use crate::drive::{Prop, Target};
use crate::faults;
use crate::stream;
use crate::values::{self, Opts, ANY, RT};
use glue::Cfg;
use schema::ast::*;
use schema::xml::{self, render, Elem, Ent, Node, Style, PLAIN};
use val::Val;

pub const LEX: Style = Style { lexical: true, prefixes: false, misc: false, dflt: true };
pub const MISC: Style = Style { lexical: false, prefixes: false, misc: true, dflt: true };
pub const PFX: Style = Style { lexical: false, prefixes: true, misc: false, dflt: true };
pub const ALL: Style = Style { lexical: true, prefixes: true, misc: true, dflt: false };
/// Strings for documents that an independent parser reads.
pub const PLAIN_STR: Opts = Opts { rt: false, nasty: false, plain: true, big: true };
const NASTY: Opts = Opts { rt: false, nasty: true, plain: true, big: true };

fn tg(cx: &Cx, a: usize, cases: u32) -> Target { Target { name: cx.d(a).name.clone(), a, b: a, cases: if cx.thorough { cases * 60 } else { cases * 6 }, vlen: if g(cx.d(a), "wide") { 330 } else { 90 }, dlen: 60 } }
fn pick(cx: &Cx, cases: u32, f: impl Fn(&Decl) -> bool) -> Vec<Target> {
  (0..cx.s().decls.len()).filter(|i| f(cx.d(*i))).map(|i| tg(cx, i, cases)).collect()
}
/// Documents of up to 16 MB, of a few declarations.
fn huge(cx: &Cx, mut t: Vec<Target>, cases: u32) -> Vec<Target> {
  for n in ["ElString", "AtString", "PayString", "ElI32", "AtU8", "HasBool", "TxReq", "TxMix", "Cd", "FBoth", "FStruct"] {
    let Some(i) = cx.s().decls.iter().position(|d| d.name == n) else { continue };
    t.insert(0, Target { name: format!("huge/{n}"), cases: if cx.thorough { cases * 10 } else { cases }, ..tg(cx, i, 1) });
  }
  t
}
pub fn is_huge(t: &Target) -> bool { t.name.starts_with("huge/") }
fn both(d: &Decl) -> bool { d.ser && d.de }
fn g(d: &Decl, x: &str) -> bool { d.groups.iter().any(|y| *y == x) }

pub fn all() -> Vec<Prop> {
  vec![
    Prop { id: "C01", level: "exploration", rule: "A case is a declaration of the universe and a generated value of it inside the round-trip domain. Non-trivial: the value differs from the simplest one and its document holds at least one attribute, element or text below the root.",
      targets: |cx| huge(cx, pick(cx, 260, both), 8), check: c01 },
    Prop { id: "C02", level: "exploration", rule: "A case is a declaration and any generated value of it; the bytes written are parsed by the harness's own strict XML parser and compared with the reference model. Non-trivial: the document has content below the root.",
      targets: |cx| pick(cx, 260, |d| d.ser), check: c02 },
    Prop { id: "C03", level: "exploration", rule: "A case is a declaration with string positions and a value whose strings are made of markup, references, CDATA terminators, line breaks and non-ASCII characters. Non-trivial: at least one string of the value holds a markup character, a line break or a non-ASCII character.",
      targets: |cx| huge(cx, vec![], 6).into_iter().filter(|t| has_strings(cx, t.a)).chain((0..cx.s().decls.len()).filter(|i| cx.d(*i).ser && has_strings(cx, *i)).map(|i| tg(cx, i, 320))).collect(), check: c03 },
    Prop { id: "C04", level: "exploration", rule: "A case is a declaration and a document made from a value by removing, repeating, moving and spoiling declared markup; the result is compared with the reference model (same value, or both an error). Non-trivial: at least one edit was made.",
      targets: |cx| pick(cx, 320, |d| d.de), check: c04 },
    Prop { id: "C05", level: "exploration", rule: "A case is a document, and the same document with unknown elements and attributes, comments, processing instructions, white space, reordering or other lexical forms. Non-trivial: the two documents differ and the first one is read to a value.",
      targets: |cx| pick(cx, 320, |d| d.de), check: c05 },
    Prop { id: "C06", level: "exploration", rule: "A case is a document with namespaces and the same document with other prefixes and declarations, with elements of foreign namespaces added, or with its root moved to another namespace. Non-trivial: a prefix, a declaration or a namespace really changed.",
      targets: |cx| (0..cx.s().decls.len()).filter(|i| cx.d(*i).de).map(|i| { let ns = cx.s().reach(i, &|d| !d.ns.is_empty()); tg(cx, i, if ns { 900 } else { 160 }) }).collect(), check: c06 },
    Prop { id: "C07", level: "exploration", rule: "A case is a byte sequence: a valid document mutated at byte, token and tree level, a document of another type, or a soup of tokens of the type's vocabulary. Non-trivial: the bytes differ from every valid document it was made from and hold at least one tag.",
      targets: |cx| pick(cx, 600, |d| d.de), check: c07 },
    Prop { id: "C08", level: "fault_enumeration", rule: "A case is a document; it is read in generated chunk sizes with generated interruptions, cut off at every byte before the end of the root, and read from readers that fail (for good, or once) at every byte before it. Non-trivial: the whole document is read to a value. Every read counts as a run.",
      targets: |cx| huge(cx, pick(cx, 2, |d| d.de), 6), check: faults::c08 },
    Prop { id: "C09", level: "fault_enumeration", rule: "A case is a value; it is written to writers that fail for good, once, or with a zero-length write at every single write call (every call of the fault-free serialization is enumerated), and to writers that write short and are interrupted. Non-trivial: the fault-free serialization makes at least five write calls. Every serialization counts as a run.",
      targets: |cx| huge(cx, pick(cx, 5, |d| d.ser), 4), check: faults::c09 },
    Prop { id: "C10", level: "exploration", rule: "A case is a value and a configuration; all entry points are compared. Non-trivial: the document has at least two elements.",
      targets: |cx| huge(cx, pick(cx, 90, |d| d.ser), 4), check: c10 },
    Prop { id: "C11", level: "exploration", rule: "A case is a declaration with skip and default conditions and a value that hits or misses each of them. Non-trivial: at least one field is left out and at least one condition is not met.",
      targets: |cx| pick(cx, 1500, |d| g(d, "skip")).into_iter().chain(pick(cx, 300, |d| g(d, "random") && d.ser && d.fields().iter().any(|f| f.skip || f.skip_if.is_some() || f.default.is_some()))).collect(), check: c11 },
    Prop { id: "C12", level: "exploration", rule: "A case is a declaration with flattened members (with its hand-inlined counterpart where there is one) and a value or an edited document. Non-trivial: the value has content in a flattened member.",
      targets: c12_targets, check: c12 },
    Prop { id: "C13", level: "exploration", rule: "A case is a declaration with enums and a value, then a document in which variant names, tags and payloads are replaced by others, near misses and nonsense. Non-trivial: a variant other than the default is written, or an edit was made.",
      targets: |cx| (0..cx.s().decls.len()).filter(|i| cx.s().reach(*i, &|d| matches!(d.kind, Kind::Enum(..)))).map(|i| tg(cx, i, 900)).collect(), check: c13 },
    Prop { id: "C14", level: "exploration", rule: "A case is a newtype in some position, a value, and a document with generated literals around its grammar. Non-trivial: a literal was replaced, or the value is not the simplest one.",
      targets: |cx| pick(cx, 900, |d| g(d, "lit")), check: c14 },
    Prop { id: "C15", level: "exploration", rule: "A case is a scalar in some position, a value (boundary-heavy), and a document with generated literals at and beyond the limits of its grammar. Non-trivial: as C14.",
      targets: |cx| pick(cx, 2500, |d| g(d, "scalar")).into_iter().chain(pick(cx, 250, |d| g(d, "random") && d.de)).collect(), check: c15 },
    Prop { id: "C16", level: "exploration", rule: "A case is a document and a sequence of operations on the event stream (compared step by step with a model over the document's events), or a hand-written type inside derived ones. Non-trivial: at least five operations, among them one that is not plain reading; or a hand-written value with content.",
      targets: |cx| {
        let mut t: Vec<Target> = pick(cx, 400, |d| g(d, "custom"));
        t.extend(pick(cx, 120, |d| d.de && !d.flatten).into_iter().map(|mut x| { x.name = format!("events/{}", x.name); x.vlen = 60; x.dlen = 120; x }));
        t.extend(pick(cx, 60, |d| !d.flatten).into_iter().map(|mut x| { x.name = format!("around/{}", x.name); x }));
        t
      }, check: stream::c16 },
    Prop { id: "C17", level: "exploration", rule: "A case is a nested value whose types share names, or recurse; every item read alone must equal the item read in place, and changing one item must not change another. Non-trivial: the document has depth 3 or more.",
      targets: |cx| pick(cx, 900, |d| d.de && (g(d, "coin") || g(d, "rec"))).into_iter().chain((0..cx.s().decls.len()).filter(|i| { let d = cx.d(*i); d.de && !g(d, "coin") && !g(d, "rec") && deps(d).iter().any(|j| !matches!(cx.d(*j).kind, Kind::Lit(_))) }).map(|i| tg(cx, i, 160))).collect(), check: c17 },
    Prop { id: "C18", level: "exploration", rule: "Every declaration of the universe must compile (checked by building it). A case is then an unusually written declaration next to its plain form, and a value or document for both. Non-trivial: the document has content below the root.",
      targets: c18_targets, check: c18 },
    Prop { id: "C19", level: "exploration", rule: "A case is a sequence of up to eight calls on one declaration, its parts and others: values written, documents read, spoiled and cut documents, writers and readers that fail or panic half-way. Every call is made in that order, backwards, each in a fresh thread, and by two or three threads at once; its result must always be the same, and be the one of the reference model. Non-trivial: at least three calls of at least two kinds.",
      targets: |cx| pick(cx, 14, |d| d.ser || d.de), check: crate::history::c19 },
  ]
}

fn has_strings(cx: &Cx, i: usize) -> bool {
  cx.s().reach(i, &|d| match &d.kind {
    Kind::Struct(fs) => fs.iter().any(|f| *f.ty.base() == Ty::S(Str)),
    Kind::Enum(vs, _) => vs.iter().any(|v| match &v.pay { Pay::One(t) => *t.base() == Ty::S(Str), Pay::Named(fs) => fs.iter().any(|f| *f.ty.base() == Ty::S(Str)), _ => false }),
    Kind::Lit(l) => matches!(l, Lit::Prim(Str) | Lit::Angle),
    Kind::Custom(Custom::Bag) => true,
    _ => false,
  })
}
pub fn content(e: &Elem) -> bool { !e.kids.is_empty() || !e.attrs.is_empty() }

fn c01(cx: &Cx, t: &Target, v: &[u16], _d: &[u16]) -> Out {
  let mut en = Ent::new(v);
  let Some(mut val) = cx.gen(RT).rt(&mut en, t.a) else { return trivial("outside of the round-trip domain") };
  if is_huge(t) && values::enlarge(&mut val, &mut en, usize::MAX) == 0 { return trivial("nothing to enlarge") }
  let doc = cx.ser(t.a, &val)?;
  let back = cx.de(t.a, &doc)?;
  if back.as_ref() != Ok(&val) { return fail(format!("{}: {val} was written as {doc:?} and read back as {}", cx.d(t.a).name, show(&back))) }
  let again = cx.ser(t.a, &back.unwrap())?;
  if again != doc { return fail(format!("{}: {val} was written as {doc:?}, read, and written as {again:?}", cx.d(t.a).name)) }
  let mut l = vec![];
  classes(&val, &mut l);
  info(&doc, en.used > 0 && doc.matches('<').count() > 2 || doc.contains('='), l, 3)
}

fn c02(cx: &Cx, t: &Target, v: &[u16], _d: &[u16]) -> Out { written(cx, t, v, PLAIN_STR) }
fn c03(cx: &Cx, t: &Target, v: &[u16], _d: &[u16]) -> Out {
  let i = written(cx, t, v, NASTY)?;
  let hit = i.labels.iter().any(|l| matches!(*l, "string with markup characters" | "non-ASCII string" | "string with line breaks or tabs"));
  Ok(Info { nontrivial: i.nontrivial && hit, ..i })
}
fn written(cx: &Cx, t: &Target, v: &[u16], o: Opts) -> Out {
  let mut en = Ent::new(v);
  let mut val = cx.gen(o).decl(&mut en, t.a, 0);
  if is_huge(t) && values::enlarge(&mut val, &mut en, 4 << 20) == 0 { return trivial("nothing to enlarge") }
  let doc = cx.ser(t.a, &val)?;
  let p = cx.matches(t.a, &val, &doc)?;
  if !p.roots.is_empty() && !doc.starts_with("<?xml version=\"1.0\" encoding=\"utf-8\"?>") { return fail(format!("{}: no document declaration in {doc:?}", cx.d(t.a).name)) }
  let mut l = vec![];
  classes(&val, &mut l);
  p.roots.iter().for_each(|e| shape(e, &mut l));
  info(&doc, p.roots.iter().any(content), l, 1)
}

/// A tree to read from: of a value in or out of the round-trip domain.
fn base(cx: &Cx, di: usize, v: &[u16]) -> Option<(Elem, Val)> {
  let mut en = Ent::new(v);
  let val = cx.gen(RT).rt(&mut en, di)?;
  Some((cx.tree(di, &val)?, val))
}

/// A document without any element is no document: nothing is left of a flattened root.
fn gone(e: &Elem) -> bool { e.local == xml::FRAGMENT && !e.has_elems() }

fn c04(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let Some((mut tree, val)) = base(cx, t.a, v) else { return trivial("outside of the domain") };
  let mut en = Ent::new(d);
  let mut done = docs::thin(cx.s(), t.a, &mut tree, &mut en);
  if en.chance(1, 4) { done.extend(docs::spoil(cx.s(), t.a, &mut tree, &mut en)) }
  if gone(&tree) { return trivial("nothing left") }
  let want = cx.s().de_elem(t.a, &tree);
  let st = if en.chance(1, 2) { ALL } else { PLAIN };
  let (doc, _) = render(&tree, &st, &mut en);
  cx.agree(t.a, &doc, &want)?;
  if want.is_err() { done.push("expected to fail") }
  if done.is_empty() && want.as_ref() != Ok(&val) { panic!("harness: model reads {val} as {want:?} from {doc}") }
  let nt = !done.is_empty();
  done.sort();
  done.dedup();
  info(&doc, nt, done, 1)
}
fn c05(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let Some((tree, _)) = base(cx, t.a, v) else { return trivial("outside of the domain") };
  let (doc, _) = render(&tree, &PLAIN, &mut Ent::new(&[]));
  let want = cx.de_ok(t.a, &doc)?;
  let mut en = Ent::new(d);
  let mut other = tree.clone();
  let mut l = vec![];
  let mode = en.pick(4);
  if mode != 1 { let n = if mode == 3 { 2 } else { 1 }; for _ in 0..n { l.extend(docs::noise(cx.s(), t.a, &mut other, &mut en, true)) } }
  let st = match mode { 0 => PLAIN, 1 => Style { prefixes: false, ..ALL }, 2 => MISC, _ => Style { prefixes: false, ..ALL } };
  let (doc2, _) = render(&other, &st, &mut en);
  let got = cx.de(t.a, &doc2)?;
  if got.as_ref() != Ok(&want) { return fail(format!("{}: {doc:?} is read as {want}, but {doc2:?} as {}", cx.d(t.a).name, show(&got))) }
  if mode != 0 { l.push("other lexical form") }
  l.sort();
  l.dedup();
  info(&doc2, doc != doc2, l, 2)
}

fn c06(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  if cx.d(t.a).flatten { return trivial("flattened root") }
  let Some((tree, val)) = base(cx, t.a, v) else { return trivial("outside of the domain") };
  let (doc, _) = render(&tree, &PLAIN, &mut Ent::new(&[]));
  let want = cx.de_ok(t.a, &doc)?;
  // with the declared prefixes, every member is found in its namespace
  if want != val { return fail(format!("{}: {doc:?}, every name in the declared namespace, is read as {want}; expected {val}", cx.d(t.a).name)) }
  let mut en = Ent::new(d);
  // elements are copied for flattened members without xmlns="" (known finding)
  let pfx = Style { dflt: !cx.s().reach(t.a, &|d| d.fields().iter().any(|f| f.pos == Pos::Flat)), ..PFX };
  match en.pick(4) {
    3 if matches!(cx.d(t.a).kind, Kind::Struct(_) | Kind::Enum(..)) => {
      let ns = ["urn:foreign", "urn:p", "http://example.com/q#x", "http://example.com/ns/r/2.0", "urn:P", "urn:p/", "http://example.com/q", "URN:P"][en.pick(8)].to_string();
      let ns = if en.chance(1, 2) { docs::near_uri(&mut en, &tree.ns) } else { ns };
      if ns.is_empty() || ns == tree.ns { return trivial("the namespace of the type itself") }
      let mut other = tree.clone();
      other.ns = ns.clone();
      let (doc2, _) = render(&other, &if en.chance(1, 2) { pfx } else { PLAIN }, &mut en);
      if let Ok(x) = cx.de(t.a, &doc2)? { return fail(format!("{}: the root of {doc2:?} is in the foreign namespace {ns:?} but it is read as {x}", cx.d(t.a).name)) }
      info(&doc2, true, vec!["foreign root"], 2)
    }
    k => {
      let mut other = tree.clone();
      let mut l = vec![];
      if k >= 1 { let n = docs::foreign(cx.s(), t.a, &mut other, &mut en); if n > 0 { l.push("foreign elements") } }
      let (doc2, _) = render(&other, &pfx, &mut en);
      let got = cx.de(t.a, &doc2)?;
      if got.as_ref() != Ok(&want) { return fail(format!("{}: {doc:?} is read as {want}, but {doc2:?} as {}", cx.d(t.a).name, show(&got))) }
      if doc2.contains("xmlns") { l.push("namespaces") }
      if doc2.contains("xmlns=") { l.push("default namespace") }
      info(&doc2, doc != doc2, l, 2)
    }
  }
}

fn c07(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let mut en = Ent::new(v);
  let mut ed = Ent::new(d);
  if ed.pick(6000) == 77 { return c07_deep(cx, t, v, &mut ed) }
  let di = match ed.pick(5) { 4 => { let n = cx.s().decls.len(); ed.raw() as usize * 7 % n } _ => t.a };
  let val = cx.gen(ANY).decl(&mut en, di, 0);
  let bytes = match cx.tree(di, &val) {
    Some(tree) if ed.pick(6) != 5 => {
      let mut tree = tree;
      if ed.chance(1, 2) { docs::spoil(cx.s(), di, &mut tree, &mut ed); }
      if ed.chance(1, 3) { docs::scramble(&mut tree, &mut ed); }
      let (doc, _) = render(&tree, &if ed.chance(1, 2) { ALL } else { PLAIN }, &mut ed);
      faults::mutate(doc.into_bytes(), &mut ed, &vocabulary(cx, t.a))
    }
    _ => faults::soup(&mut ed, &vocabulary(cx, t.a)),
  };
  let (ok, l) = total(cx, t.a, &bytes)?;
  let mut l = l;
  l.push(if ok { "read to a value" } else { "read to an error" });
  let s = String::from_utf8_lossy(&bytes).into_owned();
  info(&s, ed.used > 0 && bytes.contains(&b'<'), l, 1)
}
/// Unknown markup thousands of levels deep, read with a small stack: what a type does not declare
/// must not take stack space for every level.
fn c07_deep(cx: &Cx, t: &Target, v: &[u16], ed: &mut Ent) -> Out {
  let mut en = Ent::new(v);
  let val = cx.gen(Opts { big: false, ..PLAIN_STR }).decl(&mut en, t.a, 0);
  let Some(tree) = cx.tree(t.a, &val) else { return trivial("no tree") };
  let (doc, _) = render(&tree, &PLAIN, &mut Ent::new(&[]));
  // after one of the tags
  let tags: Vec<usize> = doc.char_indices().filter(|(_, c)| *c == '>').map(|(i, _)| i + 1).collect();
  let at = tags[ed.pick(tags.len())];
  let n = 6000 + ed.pick(3) * 2000;
  let close = ed.pick(3) != 2;
  let w = ["zz", "zz", "u:zz"][ed.pick(3)];
  let open = if w == "zz" { format!("<{w}>") } else { format!("<{w} xmlns:u=\"urn:u\">") };
  let mut doc2 = doc[..at].to_string();
  for _ in 0..n { doc2.push_str(&open) }
  if close { for _ in 0..n { doc2.push_str("</"); doc2.push_str(w); doc2.push('>') } }
  doc2.push_str(&doc[at..]);
  let f = cx.reg[t.a].de.as_ref().unwrap().from_str;
  let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, || crate::guard::guard(doc2.len(), || f(&doc2))).unwrap().join().unwrap());
  let shown = || format!("{} with {n} nested {open} after byte {at} ({})", doc, if close { "closed" } else { "not closed" });
  match r {
    Ok(r) if !close && r.is_ok() && !cx.d(t.a).flatten && at < doc.len() && matches!(cx.d(t.a).kind, Kind::Struct(_)) => return fail(format!("{} from {}: a value, although the document is malformed", cx.d(t.a).name, shown())),
    Ok(_) => {}
    Err(b) => return fail(format!("deserialization of {} from {} {b}", cx.d(t.a).name, shown())),
  }
  info(&shown(), true, vec!["thousands of unknown levels on a small stack"], 1)
}
pub fn total(cx: &Cx, di: usize, bytes: &[u8]) -> Result<(bool, Vec<&'static str>), Fail> {
  let f = cx.reg[di].de.as_ref().unwrap().from_reader;
  let r = match crate::guard::guard(bytes.len(), || f(&mut &bytes[..])) {
    Ok(r) => r,
    Err(b) => return fail(format!("deserialization of {} from {:?} {b}", cx.d(di).name, String::from_utf8_lossy(bytes))),
  };
  let mut l = vec![];
  if let Ok(s) = std::str::from_utf8(bytes) {
    let r2 = cx.de(di, s)?;
    if r.is_ok() != r2.is_ok() || (r.is_ok() && r != r2) { return fail(format!("{} from {s:?}: {} from a reader, {} from the string", cx.d(di).name, show(&r), show(&r2))) }
  } else { l.push("invalid UTF-8") }
  Ok((r.is_ok(), l))
}
/// Names and words a type reacts to.
pub fn vocabulary(cx: &Cx, di: usize) -> Vec<String> {
  let mut w: Vec<String> = vec!["zz".into()];
  let mut seen = vec![];
  let mut todo = vec![di];
  while let Some(i) = todo.pop() {
    if seen.contains(&i) || seen.len() > 12 { continue }
    seen.push(i);
    let d = cx.d(i);
    w.push(d.local().to_string());
    match &d.kind {
      Kind::Struct(fs) => for f in fs { w.push(match &f.prefix { Some(p) => format!("{p}:{}", f.local()), None => f.local().into() }) },
      Kind::Enum(vs, _) => for x in vs { w.push(x.local().to_string()) },
      _ => {}
    }
    if let Some(t) = &d.tag { w.push(t.clone()) }
    todo.extend(deps(d));
  }
  w
}

fn c10(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let mut en = Ent::new(v);
  let dd = cx.d(t.a);
  let o = Opts { plain: true, ..RT };
  let rt = if both(dd) { cx.gen(o).rt(&mut en, t.a) } else { None };
  let mut val = match &rt { Some(v) => v.clone(), None => { let mut en = Ent::new(v); cx.gen(PLAIN_STR).decl(&mut en, t.a, 0) } };
  let rt = if is_huge(t) {
    if values::enlarge(&mut val, &mut en, 4 << 20) == 0 { return trivial("nothing to enlarge") }
    rt.map(|_| val.clone())
  } else { rt };
  let mut ed = Ent::new(d);
  let plain = cx.ser(t.a, &val)?;
  let tree = cx.parse(t.a, &plain)?;
  let eq = |what: &str, a: &str, b: &str| -> Result<(), Fail> { if a == b { Ok(()) } else { fail(format!("{} of {val}: {what} wrote {b:?} instead of {a:?}", dd.name)) } };
  eq("to_string_with_config (default)", &plain, &cx.ser_cfg(t.a, &val, &Cfg::default_())?)?;
  let indents = [None, Some("  "), Some("\t"), Some(""), Some("      "), Some("\n"), Some("    ")];
  let mut runs = 2;
  for _ in 0..3 {
    let c = Cfg { indent: ed.pick(2) == 1, decl: ed.pick(2) == 0, indent_string: indents[ed.pick(indents.len())].map(|s| s.to_string()) };
    let x = cx.ser_cfg(t.a, &val, &c)?;
    let mut buf: Vec<u8> = vec![];
    let f = cx.reg[t.a].ser.as_ref().unwrap().to_writer;
    match cx.bad("serialization", t.a, crate::guard::guard(4096, || f(&val, &mut buf, &c)))? { Ok(()) => {} Err(e) => return fail(format!("{} of {val}: serialize_with_writer {c:?} failed: {e}", dd.name)) }
    eq("serialize_with_writer", &x, &String::from_utf8_lossy(&buf))?;
    runs += 2;
    let p = cx.parse(t.a, &x)?;
    if !p.roots.is_empty() && p.declaration != c.decl { return fail(format!("{} of {val} with {c:?}: declaration {} in {x:?}", dd.name, if p.declaration { "present" } else { "absent" })) }
    if !c.indent {
      let body = plain.strip_prefix("<?xml version=\"1.0\" encoding=\"utf-8\"?>").unwrap_or(&plain);
      eq("without indentation, the document after its declaration", body, x.strip_prefix("<?xml version=\"1.0\" encoding=\"utf-8\"?>").unwrap_or(&x))?;
    } else {
      if tree.roots.len() != p.roots.len() { return fail(format!("{} of {val} with {c:?} wrote {x:?}: {} roots instead of {}", dd.name, p.roots.len(), tree.roots.len())) }
      for (a, b) in tree.roots.iter().zip(&p.roots) {
        let (mut a, mut b) = (a.clone(), b.clone());
        // an empty text content is written, too, and keeps the end tag on its line
        if !cx.s().reach(t.a, &|d| d.fields().iter().any(|f| f.pos == Pos::Text)) { indentation(&a, &b, c.indent_string.as_deref().unwrap_or("  "), 0).map_err(|e| Fail { msg: format!("{} of {val} with {c:?} wrote {x:?}: {e}", dd.name) })? }
        a.strip_ws();
        b.strip_ws();
        xml::diff(&a, &b, "").map_err(|e| Fail { msg: format!("{} of {val} with {c:?} wrote {x:?}: {e}", dd.name) })?;
      }
    }
    if let Some(want) = &rt {
      let got = cx.de(t.a, &x)?;
      runs += 1;
      if got.as_ref() != Ok(want) { return fail(format!("{}: {val} was written with {c:?} as {x:?} and read back as {}", dd.name, show(&got))) }
    }
  }
  // content only
  let s = cx.reg[t.a].ser.as_ref().unwrap();
  let inner = match cx.bad("serialization", t.a, crate::guard::guard(4096, || (s.content)(&val)))? { Ok(x) => x, Err(e) => return fail(format!("{} of {val}: to_string_content failed: {e}", dd.name)) };
  let mut buf: Vec<u8> = vec![];
  match cx.bad("serialization", t.a, crate::guard::guard(4096, || (s.content_writer)(&val, &mut buf)))? { Ok(()) => {} Err(e) => return fail(format!("{} of {val}: serialize_with_writer_content failed: {e}", dd.name)) }
  eq("serialize_with_writer_content", &inner, &String::from_utf8_lossy(&buf))?;
  runs += 2;
  if !dd.flatten && !tree.roots[0].decls.is_empty() {
    // bindings of the root are repeated where they are needed
    let part = xml::parse(&inner, true, &tree.roots[0].decls).map_err(|e| Fail { msg: format!("{} of {val}: to_string_content wrote {inner:?}: {e}", dd.name) })?;
    let kids: Vec<&Elem> = tree.roots[0].kid_elems().collect();
    if kids.len() != part.roots.len() || part.stray != tree.roots[0].text() { return fail(format!("{} of {val}: to_string_content wrote {inner:?}, the document is {plain:?}", dd.name)) }
    for (a, b) in kids.iter().zip(&part.roots) { xml::diff(a, b, "").map_err(|e| Fail { msg: format!("{} of {val}: to_string_content wrote {inner:?}, the document is {plain:?}: {e}", dd.name) })? }
  } else if !dd.flatten { eq("to_string_content", &plain[tree.inner.0..tree.inner.1], &inner)? }
  // a serializer made from the caller's own event writer: the same document, but for how it is spelled
  let own = cx.reg[t.a].ser.as_ref().unwrap().own_writer;
  let write = |c: &glue::EmitterConfig| -> Result<String, Fail> { match cx.bad("serialization", t.a, crate::guard::guard(4096, || own(&val, c)))? { Ok(x) => Ok(x), Err(e) => fail(format!("{} of {val}: writing to the caller's event writer failed: {e}", dd.name)) } };
  let same = glue::EmitterConfig::new().cdata_to_characters(false).perform_indent(false).write_document_declaration(true);
  eq("Serializer::new with the writer of to_string", &plain, &write(&same)?)?;
  let c = glue::EmitterConfig::new().cdata_to_characters(ed.pick(2) == 1).normalize_empty_elements(ed.pick(2) == 0).pad_self_closing(ed.pick(2) == 0).keep_element_names_stack(true).write_document_declaration(ed.pick(2) == 0);
  let x = write(&c)?;
  let p = cx.parse(t.a, &x)?;
  if tree.roots.len() != p.roots.len() || tree.stray != p.stray { return fail(format!("{} of {val} through {c:?} wrote {x:?}: {} roots instead of {}", dd.name, p.roots.len(), tree.roots.len())) }
  for (a, b) in tree.roots.iter().zip(&p.roots) { xml::diff(a, b, "").map_err(|e| Fail { msg: format!("{} of {val} through {c:?} wrote {x:?}: {e}", dd.name) })? }
  runs += 2;
  if let Some(want) = &rt {
    let got = cx.de(t.a, &x)?;
    runs += 1;
    if got.as_ref() != Ok(want) { return fail(format!("{}: {val} was written through {c:?} as {x:?} and read back as {}", dd.name, show(&got))) }
  }
  let mut l = vec![];
  classes(&val, &mut l);
  info(&plain, tree.roots.iter().map(|r| r.count()).sum::<usize>() > 1, l, runs)
}
/// White space added by indentation: a line break and one indent string per level.
fn indentation(plain: &Elem, got: &Elem, ind: &str, depth: usize) -> Result<(), String> {
  if !ind.chars().all(schema::lit::is_ws) { return Ok(()) }
  let only = plain.has_elems() && plain.text().is_empty();
  if only {
    for (i, n) in got.kids.iter().enumerate() {
      if let Node::T(t) = n {
        let last = i + 1 == got.kids.len();
        let want = format!("\n{}", ind.repeat(if last { depth } else { depth + 1 }));
        if *t != want { return Err(format!("white space {t:?} instead of {want:?} inside of {}", plain.local)) }
      }
    }
    if got.kids.len() != 2 * plain.kids.len() + 1 { return Err(format!("elements inside of {} are not on lines of their own", plain.local)) }
  }
  for (a, b) in plain.kid_elems().zip(got.kid_elems()) { indentation(a, b, ind, depth + 1)? }
  Ok(())
}

fn c11(cx: &Cx, t: &Target, v: &[u16], _d: &[u16]) -> Out {
  let dd = cx.d(t.a);
  let mut en = Ent::new(v);
  let val = cx.gen(PLAIN_STR).decl(&mut en, t.a, 0);
  let mut l = vec![];
  let (mut out, mut kept) = (0, 0);
  if dd.ser {
    let doc = cx.ser(t.a, &val)?;
    cx.matches(t.a, &val, &doc)?;
    if let (Kind::Struct(fs), Val::Struct(x)) = (&dd.kind, &val) {
      for (f, y) in fs.iter().zip(x) {
        if !(f.skip || f.skip_if.is_some() || f.default.is_some()) { continue }
        if Schema::omitted(f, y, x) { out += 1; l.push(match f.pos { Pos::Attr => "attribute left out", Pos::Text => "text left out", Pos::Flat => "flattened member left out", Pos::Cdata => "CDATA left out", Pos::Elem => "element left out" }) } else { kept += 1 }
      }
    }
  }
  // reading back what was left out
  if both(dd) {
    let mut en = Ent::new(v);
    if let Some(val) = cx.gen(RT).rt(&mut en, t.a) {
      let doc = cx.ser(t.a, &val)?;
      let back = cx.de(t.a, &doc)?;
      if back.as_ref() != Ok(&val) { return fail(format!("{}: {val} was written as {doc:?} and read back as {}", dd.name, show(&back))) }
      l.push("read back");
    }
  }
  l.sort();
  l.dedup();
  if out > 0 && kept > 0 { l.push("some left out, some written") }
  info(&format!("{val}"), out > 0 && kept > 0, l, 3)
}

fn c12_targets(cx: &Cx) -> Vec<Target> {
  let mut t = vec![];
  for (a, b) in &cx.u.pairs { let mut x = tg(cx, *a, 1200); x.b = *b; x.name = format!("{}/{}", cx.d(*a).name, cx.d(*b).name); t.push(x) }
  t.extend(pick(cx, 900, |d| g(d, "flat")));
  t
}
/// The fields of flattened structs moved to where they are flattened.
pub fn splice(s: &Schema, di: usize, v: &Val, out: &mut Vec<Val>) {
  for (f, x) in s.decls[di].fields().iter().zip(v.fields()) {
    match (f.pos, &f.ty) {
      (Pos::Flat, Ty::D(j)) if matches!(s.decls[*j].kind, Kind::Struct(_)) => splice(s, *j, x, out),
      _ => out.push(x.clone()),
    }
  }
}
fn inlined(cx: &Cx, di: usize, v: &Val) -> Val { let mut o = vec![]; splice(cx.s(), di, v, &mut o); Val::Struct(o) }
fn c12(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let mut en = Ent::new(v);
  let dd = cx.d(t.a);
  let val = cx.gen(PLAIN_STR).decl(&mut en, t.a, 0);
  let mut l = vec![];
  let mut sample = String::new();
  if t.a != t.b {
    let (x, y) = (cx.ser(t.a, &val)?, cx.ser(t.b, &inlined(cx, t.a, &val))?);
    let (p, q) = (cx.parse(t.a, &x)?, cx.parse(t.b, &y)?);
    xml::diff(&q.roots[0], &p.roots[0], "").map_err(|e| Fail { msg: format!("{val}: the flattened {} wrote {x:?}, the inlined {} {y:?}: {e}", dd.name, cx.d(t.b).name) })?;
    cx.matches(t.a, &val, &x)?;
    l.push("compared with the inlined form");
    sample = x;
  } else if dd.ser {
    let x = cx.ser(t.a, &val)?;
    cx.matches(t.a, &val, &x)?;
    sample = x;
  }
  if dd.de {
    if let Some((mut tree, _)) = base(cx, t.a, v) {
      let mut ed = Ent::new(d);
      let mut done = docs::thin(cx.s(), t.a, &mut tree, &mut ed);
      if ed.chance(1, 4) { done.extend(docs::spoil(cx.s(), t.a, &mut tree, &mut ed)) }
      if ed.chance(1, 3) && !done.contains(&"elements inside of a scalar") { done.extend(docs::noise(cx.s(), t.a, &mut tree, &mut ed, false)) }
      if gone(&tree) { return info(&sample, false, l, 2) }
      let st = if ed.chance(1, 3) { ALL } else { PLAIN };
      let (doc, _) = render(&tree, &st, &mut ed);
      let got = cx.de(t.a, &doc)?;
      if t.a != t.b {
        let other = cx.de(t.b, &doc)?;
        match (&got, &other) {
          (Ok(a), Ok(b)) if inlined(cx, t.a, a) == *b => l.push("both read"),
          (Err(_), Err(_)) => l.push("both refused"),
          _ => return fail(format!("{doc:?}: {} reads {}, {} reads {}", dd.name, show(&got), cx.d(t.b).name, show(&other))),
        }
      } else {
        cx.agree(t.a, &doc, &cx.s().de_elem(t.a, &tree))?;
      }
      if !done.is_empty() { l.push("edited document") }
      sample = doc;
    }
  }
  info(&sample, sample.matches('<').count() > 4, l, 4)
}

fn c13(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let dd = cx.d(t.a);
  let mut en = Ent::new(v);
  let val = cx.gen(PLAIN_STR).decl(&mut en, t.a, 0);
  let mut l = vec![];
  classes(&val, &mut l);
  let mut sample = String::new();
  if dd.ser {
    let doc = cx.ser(t.a, &val)?;
    cx.matches(t.a, &val, &doc)?;
    sample = doc;
  }
  let mut edited = false;
  if dd.de {
    let Some((mut tree, val)) = base(cx, t.a, v) else { return info(&sample, false, l, 1) };
    if dd.ser {
      let doc = cx.ser(t.a, &val)?;
      let back = cx.de(t.a, &doc)?;
      if back.as_ref() != Ok(&val) { return fail(format!("{}: {val} was written as {doc:?} and read back as {}", dd.name, show(&back))) }
    }
    let mut ed = Ent::new(d);
    let mut done = docs::variants(cx.s(), t.a, &mut tree, &mut ed);
    if ed.chance(1, 3) { done.extend(docs::thin(cx.s(), t.a, &mut tree, &mut ed)) }
    if ed.chance(1, 4) { done.extend(docs::spoil(cx.s(), t.a, &mut tree, &mut ed)) }
    if ed.chance(1, 4) { let s = docs::slots(cx.s(), t.a, &tree); if !s.is_empty() { let k = ed.pick(s.len()); let x = lit_for(cx, &s[k].what, &mut ed); docs::set(&mut tree, &s[k], &x); done.push("literal replaced") } }
    if gone(&tree) { return info(&sample, false, l, 2) }
    let want = cx.s().de_elem(t.a, &tree);
    let (doc, _) = render(&tree, &if ed.chance(1, 4) { ALL } else { PLAIN }, &mut ed);
    cx.agree(t.a, &doc, &want)?;
    edited = !done.is_empty();
    if want.is_err() { l.push("expected to fail") }
    l.extend(done);
    if edited { sample = doc }
  }
  let nt = edited || l.contains(&"payload variant") || l.contains(&"unit variant");
  l.sort();
  l.dedup();
  info(&sample, nt, l, 3)
}
fn lit_for(cx: &Cx, w: &What, ed: &mut Ent) -> String { match w { What::Scalar(s) => docs::literal(ed, *s), What::Decl(j) => docs::decl_literal(ed, cx.s(), *j) } }

fn c14(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out { literals(cx, t, v, d) }
fn c15(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out { literals(cx, t, v, d) }
fn literals(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let dd = cx.d(t.a);
  let mut l = vec![];
  let mut runs = 0;
  let mut en = Ent::new(v);
  let mut sample = String::new();
  if dd.ser {
    let val = cx.gen(PLAIN_STR).decl(&mut en, t.a, 0);
    let doc = cx.ser(t.a, &val)?;
    cx.matches(t.a, &val, &doc)?;
    classes(&val, &mut l);
    runs += 1;
    sample = doc;
  }
  let used = en.used;
  if !dd.de { return info(&sample, used > 0, l, runs) }
  let Some((mut tree, val)) = base(cx, t.a, v) else { return info(&sample, used > 0, l, runs) };
  if dd.ser {
    let doc = cx.ser(t.a, &val)?;
    let back = cx.de(t.a, &doc)?;
    runs += 2;
    if back.as_ref() != Ok(&val) { return fail(format!("{}: {val} was written as {doc:?} and read back as {}", dd.name, show(&back))) }
  }
  let mut ed = Ent::new(d);
  let s = docs::slots(cx.s(), t.a, &tree);
  let mut n = 0;
  if !s.is_empty() {
    for _ in 0..1 + ed.pick(3) {
      let k = ed.pick(s.len());
      let mut x = lit_for(cx, &s[k].what, &mut ed);
      if s[k].list && ed.chance(1, 2) { x = format!("{} {x}", lit_for(cx, &s[k].what, &mut ed)) }
      // attributes of declared types carry markup (known finding): no markup characters in them
      if s[k].attr.is_some() && matches!(s[k].what, What::Decl(_)) { x = x.replace(['<', '>', '&'], "").trim().to_string() }
      docs::set(&mut tree, &s[k], &x);
      n += 1;
      l.push(if s[k].attr.is_some() { "attribute literal" } else { "element literal" });
    }
  }
  let want = cx.s().de_elem(t.a, &tree);
  let (doc, _) = render(&tree, &if ed.chance(1, 4) { LEX } else { PLAIN }, &mut ed);
  cx.agree(t.a, &doc, &want)?;
  l.push(if want.is_ok() { "accepted" } else { "refused" });
  l.sort();
  l.dedup();
  info(&doc, n > 0 || used > 0, l, runs + 1)
}

fn c17(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let Some((mut tree, val)) = base(cx, t.a, v) else { return trivial("outside of the domain") };
  let mut ed = Ent::new(d);
  let mut l = vec![];
  shape(&tree, &mut l);
  // thin out, spoil, and add noise everywhere: the model resolves each name at its own level
  let mode = ed.pick(4);
  if mode > 0 { docs::thin(cx.s(), t.a, &mut tree, &mut ed); }
  if mode == 2 { docs::spoil(cx.s(), t.a, &mut tree, &mut ed); }
  if mode == 3 { docs::noise(cx.s(), t.a, &mut tree, &mut ed, false); }
  if gone(&tree) { return trivial("nothing left") }
  let want = cx.s().de_elem(t.a, &tree);
  if mode == 0 && want.as_ref() != Ok(&val) { panic!("harness: model reads {val} as {want:?}") }
  let (doc, _) = render(&tree, &PLAIN, &mut Ent::new(&[]));
  cx.agree(t.a, &doc, &want)?;
  let mut runs = 1;
  // and so does writing
  if mode == 0 && cx.d(t.a).ser {
    let mut en = Ent::new(v);
    let pv = cx.gen(PLAIN_STR).decl(&mut en, t.a, 0);
    let pdoc = cx.ser(t.a, &pv)?;
    cx.matches(t.a, &pv, &pdoc)?;
    runs += 1;
  }
  // every nested element read on its own gives the value it has in place
  if let Ok(w) = &want { runs += compose(cx, t.a, &tree, w)?; l.push("items read alone") }
  info(&doc, tree.depth() >= 3, l, runs)
}
fn compose(cx: &Cx, di: usize, e: &Elem, v: &Val) -> Result<u64, Fail> {
  let dd = cx.d(di);
  let mut runs = 0;
  if let (Kind::Struct(fs), Val::Struct(vs)) = (&dd.kind, v) {
    for (f, x) in fs.iter().zip(vs) {
      if !matches!(f.pos, Pos::Elem) { continue }
      let Ty::D(j) = f.ty.base() else { continue };
      let ns = dd.uri_of(&f.prefix).unwrap_or("");
      let els: Vec<&Elem> = e.kid_elems().filter(|k| k.local == f.local() && k.ns == ns).collect();
      let vals: Vec<&Val> = match x { Val::List(l) => l.iter().collect(), Val::None => vec![], Val::Some(x) => vec![x], x => vec![x] };
      if els.len() != vals.len() { continue }
      for (k, x) in els.iter().zip(vals) {
        let jd = cx.d(*j);
        if !matches!(jd.kind, Kind::Struct(_)) || !jd.de { continue }
        if !ns.is_empty() && jd.uri_of(&jd.prefix) != Some(ns) { continue }
        // of a long chain of levels only some are read alone
        let depth = k.depth();
        if depth > 12 && depth % 50 != 0 { runs += compose(cx, *j, k, x)?; continue }
        let (doc, _) = render(k, &PLAIN, &mut Ent::new(&[]));
        let got = cx.de(*j, &doc)?;
        runs += 1;
        if got.as_ref() != Ok(x) { return fail(format!("{}: an item of {} is read in place as {x}, but alone, from {doc:?}, as {}", dd.name, f.ident, show(&got))) }
        runs += compose(cx, *j, k, x)?;
      }
    }
  }
  Ok(runs)
}

fn c18_targets(cx: &Cx) -> Vec<Target> {
  let mut t = vec![];
  for (a, b) in &cx.u.twins { let mut x = tg(cx, *a, if cx.d(*a).wrap.is_some() { 200 } else { 1200 }); x.b = *b; x.name = format!("{}/{}", cx.d(*a).name, cx.d(*b).name); t.push(x) }
  t.extend(pick(cx, 700, |d| g(d, "odd") && d.wrap.is_none()));
  t.extend(pick(cx, 40, |d| !g(d, "odd")));
  t
}
fn c18(cx: &Cx, t: &Target, v: &[u16], d: &[u16]) -> Out {
  let dd = cx.d(t.a);
  let mut en = Ent::new(v);
  let val = cx.gen(PLAIN_STR).decl(&mut en, t.a, 0);
  let mut sample = String::new();
  let mut l = vec![];
  if dd.ser {
    let x = cx.ser(t.a, &val)?;
    cx.matches(t.a, &val, &x)?;
    if t.a != t.b {
      let y = cx.ser(t.b, &val)?;
      if x != y { return fail(format!("{val}: {} wrote {x:?}, its plain form {y:?}", dd.name)) }
      l.push("compared with the plain form");
    }
    sample = x;
  }
  if dd.de {
    if let Some((mut tree, _)) = base(cx, t.a, v) {
      let mut ed = Ent::new(d);
      let mode = ed.pick(3);
      if mode > 0 { docs::thin(cx.s(), t.a, &mut tree, &mut ed); }
      if mode > 1 { docs::noise(cx.s(), t.a, &mut tree, &mut ed, false); }
      if gone(&tree) { return info(&sample, false, l, 2) }
      let (doc, _) = render(&tree, &if ed.chance(1, 4) { ALL } else { PLAIN }, &mut ed);
      cx.agree(t.a, &doc, &cx.s().de_elem(t.a, &tree))?;
      if t.a != t.b {
        let (a, b) = (cx.de(t.a, &doc)?, cx.de(t.b, &doc)?);
        if a.is_ok() != b.is_ok() || (a.is_ok() && a != b) { return fail(format!("{doc:?}: {} reads {}, its plain form {}", dd.name, show(&a), show(&b))) }
      }
      l.push("read");
      sample = doc;
    }
  }
  info(&sample, sample.matches('<').count() > 3 || sample.contains('='), l, 3)
}
#[allow(dead_code)]
fn _unused(_: &values::Opts) {}
