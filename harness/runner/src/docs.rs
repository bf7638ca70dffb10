//! Edits of document trees that know which declaration each element belongs to.
use crate::values;
use schema::ast::*;
use schema::lit;
use schema::xml::{Elem, Ent, Node, FRAGMENT};

/// What an element stands for.
pub enum Role<'a> { /// a declared type, with the flattened members living in the same element
  Host(Vec<usize>),
  Scalar(Scalar), /// field or variant unknown
  Unknown(std::marker::PhantomData<&'a ()>) }

pub fn hosts(s: &Schema, di: usize) -> Vec<usize> {
  let mut out = vec![di];
  let mut i = 0;
  while i < out.len() {
    for f in s.decls[out[i]].fields() { if f.pos == Pos::Flat { if let Ty::D(j) = f.ty.base() { out.push(*j) } } }
    i += 1;
  }
  out
}
/// The type of a child element of a host, and whether it may repeat.
pub fn kid_ty(s: &Schema, hs: &[usize], ns: &str, local: &str) -> Option<(Ty, bool)> {
  for &h in hs {
    let dd = &s.decls[h];
    match &dd.kind {
      Kind::Struct(fs) => for f in fs {
        if matches!(f.pos, Pos::Elem | Pos::Cdata) && f.local() == local && dd.uri_of(&f.prefix).unwrap_or("") == ns { return Some((f.ty.base().clone(), matches!(f.ty, Ty::V(_)))) }
      },
      Kind::Enum(vs, _) => for v in vs {
        if let Pay::One(t) = &v.pay { if v.local() == local { return Some((t.base().clone(), matches!(t, Ty::V(_)))) } }
      },
      _ => {}
    }
  }
  None
}
pub fn attr_field<'a>(s: &'a Schema, hs: &[usize], local: &str) -> Option<&'a Field> {
  hs.iter().flat_map(|h| s.decls[*h].fields()).find(|f| f.pos == Pos::Attr && f.local() == local)
}
pub fn has_text(s: &Schema, hs: &[usize]) -> bool { hs.iter().any(|h| s.decls[*h].fields().iter().any(|f| f.pos == Pos::Text)) }
pub fn opaque(s: &Schema, hs: &[usize]) -> bool { hs.iter().any(|h| matches!(s.decls[*h].kind, Kind::Lit(_) | Kind::Custom(_))) }
pub fn is_enum(s: &Schema, hs: &[usize]) -> bool { matches!(s.decls[hs[0]].kind, Kind::Enum(..)) }
pub fn has_enum(s: &Schema, hs: &[usize]) -> bool { hs.iter().any(|h| matches!(s.decls[*h].kind, Kind::Enum(..))) }
/// A name the host reacts to, in whatever namespace.
pub fn known_local(s: &Schema, hs: &[usize], local: &str) -> bool {
  hs.iter().any(|h| match &s.decls[*h].kind {
    Kind::Struct(fs) => fs.iter().any(|f| matches!(f.pos, Pos::Elem | Pos::Cdata) && f.local() == local),
    Kind::Enum(vs, _) => vs.iter().any(|v| v.local() == local),
    _ => true,
  })
}

pub fn known_attr(s: &Schema, hs: &[usize], local: &str) -> bool {
  attr_field(s, hs, local).is_some() || hs.iter().any(|h| s.decls[*h].tag.as_deref() == Some(local))
}
/// A name made out of a declared one (of an attribute, an element, a variant or a tag) by a small change.
fn near_declared(s: &Schema, hs: &[usize], en: &mut Ent) -> Option<String> {
  let mut names: Vec<String> = vec![];
  for h in hs {
    let d = &s.decls[*h];
    names.extend(d.tag.clone());
    match &d.kind {
      Kind::Struct(fs) => names.extend(fs.iter().filter(|f| f.pos != Pos::Flat).map(|f| f.local().to_string())),
      Kind::Enum(vs, _) => names.extend(vs.iter().map(|v| v.local().to_string())),
      _ => {}
    }
  }
  if names.is_empty() { return None }
  let n = names[en.pick(names.len())].clone();
  let m = match en.pick(13) {
    12 => { let t = values::straddle(en).replace('\u{1F600}', "\u{10400}"); if en.chance(1, 2) { format!("{n}{t}") } else { t } }
    10 => format!("{n}{}", ["é", "日本", "0123456789", "ñandú-"][en.pick(4)].repeat([1, 7, 11, 21, 43, 90][en.pick(6)])),
    11 => format!("{}{n}", ["é", "日本", "x123456789", "ñandú-"][en.pick(4)].repeat([1, 7, 11, 21, 43, 90][en.pick(6)])),
    0 => format!("_{n}"), 1 => format!("{n}_"), 2 => format!("x{n}"), 3 => format!("{n}2"), 4 => n.to_uppercase(), 5 => n.to_lowercase(), 6 => format!("sub-{n}"), 7 => format!("{n}.x"),
    8 => n.replace(['-', '.'], "_"), _ => n.clone(),
  };
  (m.starts_with(|c: char| c.is_alphabetic() || c == '_') && m.chars().all(|c| c.is_alphanumeric() || "-._".contains(c)) && !m.to_lowercase().starts_with("xml")).then_some(m)
}

/// Calls `f` on every element that is a declared type, children first.
pub fn visit(s: &Schema, di: usize, e: &mut Elem, f: &mut dyn FnMut(&[usize], &mut Elem)) {
  let hs = hosts(s, di);
  for k in &mut e.kids {
    if let Node::E(k) = k { if let Some((Ty::D(j), _)) = kid_ty(s, &hs, &k.ns, &k.local) { visit(s, j, k, f) } }
  }
  f(&hs, e);
}

fn copy_somewhere(e: &Elem, en: &mut Ent) -> Option<Elem> {
  let n = e.kid_elems().count();
  if n == 0 { return None }
  let k = en.pick(n);
  e.kid_elems().nth(k).cloned()
}

/// Removes, repeats and moves declared markup. Returns what was done.
pub fn thin(s: &Schema, di: usize, e: &mut Elem, en: &mut Ent) -> Vec<&'static str> {
  let mut done = vec![];
  visit(s, di, e, &mut |hs, e| {
    if opaque(s, hs) { return }
    if en.pick(3) == 0 { return }
    for _ in 0..1 + en.pick(3) {
      match en.pick(6) {
        0 | 1 if !e.kids.is_empty() => {
          // unit variants are text: removing it gives the default variant
          let k = en.pick(e.kids.len());
          if matches!(&e.kids[k], Node::E(_)) && e.kids.iter().any(|n| matches!(n, Node::T(_))) && has_text(s, hs) {
            // text on both sides would become one piece
            let nt = e.kids.iter().filter(|n| matches!(n, Node::T(_))).count();
            if nt > 1 { continue }
          }
          e.kids.remove(k);
          done.push("removed element");
        }
        2 if !e.attrs.is_empty() => { let k = en.pick(e.attrs.len()); e.attrs.remove(k); done.push("removed attribute") }
        3 => {
          let n = e.kids.len();
          if n == 0 { continue }
          let k = en.pick(n);
          if let Node::E(x) = &e.kids[k] {
            if kid_ty(s, hs, &x.ns, &x.local).is_some_and(|(_, many)| many) {
              let c = e.kids[k].clone();
              let to = en.pick(n + 1);
              e.kids.insert(to, c);
              done.push("repeated element");
            }
          }
        }
        4 => { shuffle(e, en); done.push("moved elements") }
        _ => {}
      }
    }
  });
  merge(e);
  done
}
fn merge(e: &mut Elem) {
  let mut i = 0;
  while i + 1 < e.kids.len() {
    if let (Node::T(a), Node::T(b)) = (&e.kids[i], &e.kids[i + 1]) { let t = format!("{a}{b}"); e.kids[i] = Node::T(t); e.kids.remove(i + 1); } else { i += 1 }
  }
  for k in &mut e.kids { if let Node::E(k) = k { merge(k) } }
}

/// Permutes children, keeping the order among those of one name.
pub fn shuffle(e: &mut Elem, en: &mut Ent) {
  let texts = e.kids.iter().filter(|k| matches!(k, Node::T(_))).count();
  let mut n = 0;
  while n < 2 * e.kids.len() {
    n += 1;
    let len = e.kids.len();
    if len < 2 { return }
    let k = en.pick(len - 1);
    let swap = match (&e.kids[k], &e.kids[k + 1]) { (Node::E(a), Node::E(b)) => (&a.ns, &a.local) != (&b.ns, &b.local), (Node::T(_), Node::E(_)) | (Node::E(_), Node::T(_)) => texts == 1, _ => false };
    if swap { e.kids.swap(k, k + 1) }
    if en.pick(8) == 0 { return }
  }
}

/// Adds markup that no declaration knows, reorders attributes and elements.
pub fn noise(s: &Schema, di: usize, e: &mut Elem, en: &mut Ent, reorder: bool) -> Vec<&'static str> {
  let mut done = vec![];
  let whole = e.clone();
  visit(s, di, e, &mut |hs, e| {
    if opaque(s, hs) { return }
    // a flattened root has no element of its own, its document begins with one it knows
    if e.local == FRAGMENT && (e.kids.is_empty() || is_enum(s, hs)) { return }
    let frag = (e.local == FRAGMENT) as usize;
    let reorder = reorder && frag == 0;
    for _ in 0..en.pick(4) {
      match en.pick(5) {
        // text is one node, whatever is put before or behind it
        0..=2 => {
          let names = ["zz-unknown", "zz.other", "ZZ", "zz1"];
          let mut u = Elem::new(if en.chance(1, 4) { "urn:zz" } else { "" }, names[en.pick(4)]);
          for _ in 0..en.pick(4) {
            match en.pick(5) {
              0 => { let t = if en.chance(1, 6) { values::straddle(en) } else { "text & <markup>".into() }; u.push_text(&t) },
              1 => if let Some(c) = copy_somewhere(e, en) { u.kids.push(Node::E(c)) },
              2 if whole.local != FRAGMENT => u.kids.push(Node::E(whole.clone())),
              3 => { let mut v = Elem::new("", "zz-inner"); if let Some(c) = copy_somewhere(&whole, en) { v.kids.push(Node::E(c)) } u.kids.push(Node::E(v)) }
              _ => { let a = ("".to_string(), "zz-attr".to_string(), "1".to_string()); if !u.attrs.contains(&a) { u.attrs.push(a) } if let Some(b) = e.attrs.first() { if !u.attrs.iter().any(|x| x.1 == b.1) { u.attrs.push(b.clone()) } } }
            }
          }
          // nearly the name of something declared
          if en.chance(1, 3) {
            if let Some(n) = near_declared(s, hs, en) { if !known_local(s, hs, &n) && n != e.local { u.local = n; done.push("unknown element with nearly a declared name") } }
          }
          // same-named as the host itself
          if en.chance(1, 6) && frag == 0 && !known_local(s, hs, &e.local) && !has_enum(s, hs) { u.local = e.local.clone(); u.ns = e.ns.clone(); done.push("unknown element named like its parent") }
          let to = en.pick(e.kids.len() + 1).max(frag);
          if en.pick(24) == 17 {
            let n = values::size(en);
            if en.chance(1, 2) {
              let (ns, l) = (u.ns.clone(), u.local.clone());
              for k in 0..n { let mut w = Elem::new(&ns, if k % 3 == 2 { "zz-level" } else { &l }); w.kids.push(Node::E(u)); u = w }
              done.push("unknown elements many levels deep");
            } else {
              for _ in 0..n { e.kids.insert(to, Node::E(u.clone())) }
              done.push("hundreds of unknown elements");
            }
          }
          e.kids.insert(to, Node::E(u));
          done.push("unknown element");
        }
        3 if frag == 0 && !e.attrs.iter().any(|a| a.1 == "zz-a0") && en.pick(24) == 17 => {
          for k in 0..values::size(en) { e.attrs.push((String::new(), format!("zz-a{k}"), "1".into())) }
          if reorder { let k = en.pick(e.attrs.len()); e.attrs.rotate_left(k) }
          done.push("hundreds of unknown attributes");
        }
        3 if frag == 0 => {
          let mut l = ["zz", "zz-attr.1", "Zz"][en.pick(3)].to_string();
          if en.chance(1, 2) { if let Some(n) = near_declared(s, hs, en) { if !known_attr(s, hs, &n) { l = n } } }
          if !e.attrs.iter().any(|a| a.1 == l) { let to = en.pick(e.attrs.len() + 1); e.attrs.insert(to, (if en.chance(1, 4) { "urn:zz".into() } else { String::new() }, l, if en.chance(1, 2) { "un<kn\"own &".into() } else { "1".into() })); done.push("unknown attribute") }
        }
        4 if reorder => {
          if e.attrs.len() > 1 { let k = en.pick(e.attrs.len()); e.attrs.rotate_left(k); done.push("attributes reordered") }
          if e.kids.len() > 1 { let b = e.kids.clone(); shuffle(e, en); if b != e.kids { done.push("elements reordered") } }
        }
        _ => {}
      }
    }
  });
  done
}

/// A namespace name that differs from another one in a way that some comparisons overlook.
pub fn near_uri(en: &mut Ent, n: &str) -> String {
  let cut = |k: usize| n.char_indices().rev().nth(k).map(|c| n[..c.0].to_string()).unwrap_or_default();
  match en.pick(16) {
    0 => format!("{n}#"), 1 => format!("{n}/"), 2 => n.to_uppercase(), 3 => n.to_lowercase(), 4 => format!("{n}x"), 5 => cut(0), 6 => format!("x{n}"), 7 => n.trim_end_matches(['/', '#']).to_string(),
    8 => n.replacen("http:", "https:", 1), 9 => format!("{n}?"), 10 => n.replace('.', "%2E"), 11 => n.replacen(':', "::", 1), 12 => n.split(['#', '?']).next().unwrap_or("").to_string(),
    13 => n.rsplit_once(['/', ':']).map(|x| x.0.to_string()).unwrap_or_default(), 14 => n.chars().rev().collect(), _ => { let mut c = n.chars(); c.next().map(|x| if x.is_uppercase() { x.to_lowercase().to_string() } else { x.to_uppercase().to_string() } + c.as_str()).unwrap_or_default() }
  }
}

/// Adds elements that have the local name of a declared field in a namespace where it is not declared.
pub fn foreign(s: &Schema, di: usize, e: &mut Elem, en: &mut Ent) -> usize {
  let mut done = 0;
  visit(s, di, e, &mut |hs, e| {
    // enum variants are matched by local name (known finding)
    if opaque(s, hs) || has_enum(s, hs) { return }
    for _ in 0..en.pick(4) {
      let mut names: Vec<(String, String)> = vec![];
      for h in hs { let dd = &s.decls[*h]; for f in dd.fields() { if matches!(f.pos, Pos::Elem | Pos::Cdata) { names.push((dd.uri_of(&f.prefix).unwrap_or("").to_string(), f.local().to_string())) } } }
      if names.is_empty() { return }
      let (_, l) = names[en.pick(names.len())].clone();
      let cand = ["urn:foreign", "urn:p", "http://example.com/q#x", "http://example.com/ns/r/2.0", "urn:P", "", "urn:p/", "URN:P"];
      let mut ns = cand[en.pick(cand.len())].to_string();
      if en.chance(1, 2) { let (n, _) = &names[en.pick(names.len())]; ns = near_uri(en, n) }
      if names.contains(&(ns.clone(), l.clone())) { continue }
      let mut x = e.kid_elems().find(|k| k.local == l && en.pick(2) == 0).cloned().unwrap_or_else(|| { let mut x = Elem::new("", &l); x.push_text("1"); x });
      x.ns = ns;
      x.local = l;
      let to = en.pick(e.kids.len() + 1);
      e.kids.insert(to, Node::E(x));
      done += 1;
    }
  });
  done
}

/// Places that hold a literal: path of child indices, then attribute index or none for the text.
pub struct Slot { pub path: Vec<usize>, pub attr: Option<usize>, pub what: What, /// attribute or element content of a sequence attribute
  pub list: bool }
#[derive(Clone, Copy, Debug)]
pub enum What { Scalar(Scalar), Decl(usize) }
pub fn slots(s: &Schema, di: usize, e: &Elem) -> Vec<Slot> {
  let mut out = vec![];
  fn go(s: &Schema, di: usize, e: &Elem, path: &mut Vec<usize>, out: &mut Vec<Slot>) {
    let hs = hosts(s, di);
    if matches!(s.decls[di].kind, Kind::Lit(_) | Kind::Custom(Custom::Csv)) { out.push(Slot { path: path.clone(), attr: None, what: What::Decl(di), list: false }); return }
    if matches!(s.decls[di].kind, Kind::Custom(_)) { return }
    for (i, (_, l, _)) in e.attrs.iter().enumerate() {
      if let Some(f) = attr_field(s, &hs, l) {
        let what = match f.ty.base() { Ty::S(sc) => What::Scalar(*sc), Ty::D(j) => What::Decl(*j), _ => continue };
        out.push(Slot { path: path.clone(), attr: Some(i), what, list: matches!(f.ty, Ty::V(_)) });
      }
    }
    for (i, k) in e.kids.iter().enumerate() {
      if let Node::E(k) = k {
        match kid_ty(s, &hs, &k.ns, &k.local) {
          Some((Ty::S(sc), _)) => { path.push(i); out.push(Slot { path: path.clone(), attr: None, what: What::Scalar(sc), list: false }); path.pop(); }
          Some((Ty::D(j), _)) => { path.push(i); go(s, j, k, path, out); path.pop(); }
          _ => {}
        }
      }
    }
  }
  go(s, di, e, &mut vec![], &mut out);
  out
}
pub fn at<'a>(e: &'a mut Elem, path: &[usize]) -> &'a mut Elem {
  let mut x = e;
  for p in path { x = match &mut x.kids[*p] { Node::E(k) => k, _ => panic!("harness: path") } }
  x
}
pub fn set(e: &mut Elem, sl: &Slot, t: &str) {
  let x = at(e, &sl.path);
  match sl.attr { Some(i) => x.attrs[i].2 = t.to_string(), None => { x.kids.clear(); x.push_text(t) } }
}

/// Literals around the grammar of a scalar: valid spellings and near misses.
pub fn literal(en: &mut Ent, sc: Scalar) -> String {
  let o = values::ANY;
  let base = lit::scalar_lit(&values::scalar(en, sc, &o));
  let mangle = |en: &mut Ent, t: String| -> String {
    match en.pick(21) {
      19 => { let s = values::straddle(en); if en.chance(1, 2) { format!("{t}{s}") } else { s } }
      0 => format!("+{t}"), 1 => format!("-{t}"), 2 => format!("00{t}"), 3 => format!("{t} "), 4 => format!("{t}x"), 5 => format!("{t}0"), 6 => format!("{t}.0"), 7 => format!("0x{t}"),
      14 => format!("{}{t}", "0".repeat([40, 63, 64, 127, 255, 600][en.pick(6)])), 15 => format!("{t}{}", "0".repeat([40, 63, 64, 127, 255, 600][en.pick(6)])), 16 => format!("{t}.{}1", "0".repeat([40, 63, 64, 127, 255, 600][en.pick(6)])),
      17 => format!("{t}{}", ["é", "日本", "٣", "\u{FEFF}", "\u{A0}", "−"][en.pick(6)]), 18 => format!("{}{t}", ["é", "日本", "٣", "\u{FEFF}", "\u{A0}", "−"][en.pick(6)].repeat([1, 9, 40][en.pick(3)])),
      8 => t.to_uppercase(), 9 => String::new(), 10 => format!("{t}{t}"), 11 => t.replacen('1', "l", 1), 12 => t[..t.char_indices().map(|c| c.0).last().unwrap_or(0)].to_string(), _ => format!("{t}_1"),
    }
  };
  let edges: Vec<String> = match sc.range() {
    Some((lo, hi)) => vec![lo.to_string(), hi.to_string(), (lo - 1).to_string(), (hi + 1).to_string(), format!("+{hi}"), format!("-{hi}"), "-0".into(), "+0".into(), "".into(), "-".into(), "+".into(), format!("{hi}.0"), "1e1".into(), "١".into(), " 1".into(), "1 2".into(), "99999999999999999999999999".into(), "true".into(), (hi * 10).to_string(), (hi * 2 + 1).to_string(), (hi * 2 + 2).to_string(), format!("000000000000000000000000{hi}")],
    None => match sc {
      Bool => ["true", "false", "1", "0", "True", "FALSE", "yes", "no", "", "2", "10", "01", "t", "f", "truee", "true false", "on", "-1", "1.0", "TRUE", "tru", "00"].iter().map(|s| s.to_string()).collect(),
      F32 | F64 => ["inf", "-inf", "NaN", "nan", "INF", "-INF", "infinity", "1e400", "-1e400", "1e39", "1e-400", ".5", "5.", ".", "", "1,5", "1e", "e1", "0x1p3", "1_0", "+1.5", "--1", "1.5f", "1.7976931348623157e308", "4.9e-324", "3.4028236e38", "1e309", "0.1", "16777217", "9007199254740993"].iter().map(|s| s.to_string()).collect(),
      _ => return base,
    },
  };
  // decimals next to the middle of two neighbouring floats
  if matches!(sc, F32 | F64) && en.chance(1, 4) {
    let tail = ["", "00000000000000000000000000000000000001", "9"][en.pick(3)];
    let sign = ["", "-"][en.pick(2)];
    if sc == F32 {
      let a = f32::from_bits(values::int(en, 0x0080_0000, 0x6000_0000) as u32);
      let b = f32::from_bits(a.to_bits() + 1);
      return format!("{sign}{:.160}{tail}", (a as f64 + b as f64) / 2.0);
    }
    let n = (values::int(en, 1 << 53, (1 << 54) - 2) | 1) << en.pick(8);
    return if en.chance(1, 3) { format!("{sign}{}.9999999999999999999999999999999999", n - 1) } else { format!("{sign}{n}.0{tail}") };
  }
  match en.pick(4) { 0 => base, 1 => mangle(en, base), _ => edges[en.pick(edges.len())].clone() }
}
pub fn decl_literal(en: &mut Ent, s: &Schema, di: usize) -> String {
  match &s.decls[di].kind {
    Kind::Lit(Lit::Prim(sc)) => literal(en, *sc),
    Kind::Lit(Lit::Pair) => match en.pick(6) { 0 => "1~2".into(), 1 => "1~256".into(), 2 => "~".into(), 3 => "1".into(), 4 => "-2147483649~0".into(), _ => format!("{}~{}", literal(en, I32), literal(en, U8)) },
    Kind::Lit(Lit::Dur) => match en.pick(6) { 0 => "PT5S".into(), 1 => "PT".into(), 2 => "5".into(), 3 => "PT-1S".into(), 4 => "".into(), _ => format!("PT{}S", literal(en, U32)) },
    Kind::Lit(Lit::Angle) => match en.pick(5) { 0 => "<>".into(), 1 => "<x".into(), 2 => "".into(), 3 => "x>".into(), _ => "<<a>&amp;</a>>".into() },
    Kind::Lit(Lit::Hex(w)) => match en.pick(12) {
      0 => "0".into(), 1 => "ff".into(), 2 => "FF".into(), 3 => "0a".into(), 4 => "G1".into(), 5 => "".into(), 6 => format!("1{}", "0".repeat(*w as usize / 4)), 7 => "f".repeat(*w as usize / 4), 8 => "0x1F".into(), 9 => "-1".into(),
      10 => format!("{:X}", values::int(en, 0, (1i128 << *w) - 1)), _ => format!("{:0>20x}", values::int(en, 0, (1i128 << *w) - 1)),
    },
    Kind::Custom(Custom::Csv) => match en.pick(5) { 0 => "1,2,3".into(), 1 => "".into(), 2 => "1,,2".into(), 3 => "a".into(), _ => format!("{},{}", literal(en, I32), literal(en, I32)) },
    Kind::Enum(vs, _) => match en.pick(6) { 0 => "zz-none".into(), 1 => String::new(), 2 => { let k = en.pick(vs.len()); near(en, vs[k].local()) } _ => vs[en.pick(vs.len())].local().to_string() },
    _ => String::new(),
  }
}

fn slot_elem_scalar(sl: &Slot) -> bool { sl.attr.is_none() && matches!(sl.what, What::Scalar(_)) }
fn slot_elem_lit(s: &Schema, sl: &Slot) -> bool { sl.attr.is_none() && matches!(sl.what, What::Decl(j) if matches!(s.decls[j].kind, Kind::Lit(_))) }
/// Puts invalid content where a literal belongs: literals outside of the grammar, or elements.
pub fn spoil(s: &Schema, di: usize, e: &mut Elem, en: &mut Ent) -> Vec<&'static str> {
  let mut done = vec![];
  for _ in 0..1 + en.pick(2) {
    let all = slots(s, di, e);
    if all.is_empty() { return done }
    let k = en.pick(all.len());
    let sl = &all[k];
    if slot_elem_scalar(sl) && en.chance(1, 3) {
      let whole = e.clone();
      let x = at(e, &sl.path);
      let mut bad = match en.pick(3) { 0 => Elem::new("", "zz-inside"), 1 => { let mut c = copy_somewhere(&whole, en).unwrap_or_else(|| Elem::new("", "zz-inside")); c.cdata = false; c } _ => x.clone() };
      if en.chance(1, 3) { bad.push_text("5") }
      let to = en.pick(x.kids.len() + 1);
      x.kids.insert(to, Node::E(bad));
      if en.chance(1, 2) { x.push_text("7") }
      done.push("elements inside of a scalar");
      // the paths of the remaining slots are no longer the same
      continue;
    }
    if slot_elem_lit(s, sl) && en.chance(1, 3) {
      // a newtype is read from its first text, all other content is passed over
      let whole = e.clone();
      let x = at(e, &sl.path);
      if x.has_elems() { continue }
      for _ in 0..1 + en.pick(2) {
        let mut bad = match en.pick(3) { 0 => Elem::new("", "zz-inside"), 1 => copy_somewhere(&whole, en).unwrap_or_else(|| Elem::new("", "zz-inside")), _ => x.clone() };
        if en.chance(1, 3) { bad.push_text("5") }
        x.kids.push(Node::E(bad));
      }
      if en.chance(1, 3) { x.push_text("7") }
      done.push("elements inside of a newtype");
      continue;
    }
    let mut t = match sl.what { What::Scalar(sc) => literal(en, sc), What::Decl(j) => decl_literal(en, s, j) };
    // attributes of declared types carry markup (known finding)
    if sl.attr.is_some() && matches!(sl.what, What::Decl(_)) { t = t.replace(['<', '>', '&'], "").trim().to_string() }
    set(e, sl, &t);
    done.push("literal replaced");
  }
  done
}

/// Damage that respects only the syntax of XML.
pub fn scramble(e: &mut Elem, en: &mut Ent) {
  fn nth(e: &mut Elem, k: &mut usize) -> Option<*mut Elem> {
    if *k == 0 { return Some(e as *mut Elem) }
    *k -= 1;
    for n in &mut e.kids { if let Node::E(c) = n { if let Some(x) = nth(c, k) { return Some(x) } } }
    None
  }
  fn get(e: &mut Elem, k: usize) -> &mut Elem { let mut k = k; unsafe { &mut *nth(e, &mut k).expect("harness: nth") } }
  for _ in 0..1 + en.pick(4) {
    let n = e.count();
    if n > 400 { return }
    let (a, b) = (en.pick(n), en.pick(n));
    match en.pick(12) {
      10 => { let l = word(en, &get(e, a).local.clone()); if en.chance(1, 2) { get(e, b).local = l } else { let c = get(e, b); let k = en.pick(c.kids.len() + 1); c.kids.insert(k, Node::E(Elem::new("", &l))) } }
      11 => { let l = word(en, &get(e, a).local.clone()); let c = get(e, b); if !c.attrs.iter().any(|y| y.1 == l) { c.attrs.push((String::new(), l, "1".into())) } }
      8 => { let t = values::string(en, &values::ANY); let c = get(e, a); let k = en.pick(c.kids.len() + 1); c.kids.insert(k, Node::T(if en.chance(1, 2) { t } else { near(en, &t) })); merge(c) }
      9 => { let t = values::string(en, &values::ANY); let c = get(e, a); if !c.attrs.is_empty() { let k = en.pick(c.attrs.len()); let t = if en.chance(1, 2) { near(en, &c.attrs[k].2.clone()) } else { t }; c.attrs[k].2 = t } }
      0 => { let c = get(e, a).clone(); let to = get(e, b); let k = en.pick(to.kids.len() + 1); to.kids.insert(k, Node::E(c)) }
      1 => { let l = get(e, a).local.clone(); get(e, b).local = l }
      2 => { let c = get(e, a); if !c.kids.is_empty() { let k = en.pick(c.kids.len()); c.kids.remove(k); } }
      3 => { let c = get(e, a); let k = en.pick(c.kids.len() + 1); c.kids.insert(k, Node::T(["text", "12", "true", " ", "&<>"][en.pick(5)].into())); merge(c) }
      4 => { let x = get(e, a).attrs.first().cloned(); if let Some(x) = x { let to = get(e, b); if !to.attrs.iter().any(|y| y.1 == x.1) { to.attrs.push(x) } } }
      5 => { let c = get(e, a); if !c.attrs.is_empty() { let k = en.pick(c.attrs.len()); c.attrs.remove(k); } }
      6 => { let c = get(e, a); c.ns = ["", "urn:p", "urn:zz", "http://example.com/q#x"][en.pick(4)].into() }
      _ => { let c = get(e, a); let kids = std::mem::take(&mut c.kids); let mut w = Elem::new("", &c.local); w.kids = kids; c.kids.push(Node::E(w)) }
    }
  }
}

/// A name nobody declares, mostly a long one.
fn word(en: &mut Ent, n: &str) -> String {
  let t = if en.chance(1, 4) { near(en, n) } else { values::straddle(en) }.replace('\u{1F600}', "\u{10400}");
  let ok = t.starts_with(|c: char| c.is_alphabetic() || c == '_') && t.chars().all(|c| c.is_alphanumeric() || "-._".contains(c)) && !t.to_lowercase().starts_with("xml");
  if ok { t } else { format!("{n}x") }
}

fn near(en: &mut Ent, n: &str) -> String {
  let long = |en: &mut Ent| ["é", "日本", "a\u{1F600}", "\u{200B}x", "0123456789", "ñandú-"][en.pick(6)].repeat([1, 7, 11, 21, 43, 90, 260][en.pick(7)]);
  match en.pick(17) {
    15 => { let c = ['.', ',', '-', '_', '/', '#', '*', ':', '!', '1', '0', '\'', '"', '~', '(', ')'][en.pick(16)]; [format!("{n}{c}"), format!("{c}{n}"), format!("{n}{c}{c}"), n.replace(c, "")][en.pick(4)].clone() }
    16 => { let k = en.pick(n.chars().count().max(1)); n.chars().enumerate().flat_map(|(i, c)| if i == k { vec![c, c] } else { vec![c] }).collect() }
    13 => { let w = ["\u{a0}", "\u{3000}", "\u{2003}", "\u{feff}", "\u{200b}", "\u{85}"][en.pick(5)]; [format!("{w}{n}"), format!("{n}{w}"), format!("{w}{n}{w}")][en.pick(3)].clone() }
    14 => { let c: Vec<char> = n.chars().collect(); c[..en.pick(c.len().max(1)).min(c.len())].iter().collect() }
    9 => format!("{n}{}", long(en)), 10 => format!("{}{n}", long(en)), 11 => long(en), 12 => format!("{n}\u{301}"),
    0 => n.to_lowercase(), 1 => n.to_uppercase(), 2 => format!("{n}x"), 3 => n[..n.char_indices().last().map(|c| c.0).unwrap_or(0)].to_string(), 4 => format!(" {n} "), 5 => format!("x{n}"), 6 => n.replace(['-', ' ', '.'], "_"), 7 => format!("{n}\n"), _ => format!("{n} {n}"),
  }
}
/// Other variant names, near misses and nonsense in the place of the name of a variant.
pub fn variants(s: &Schema, di: usize, e: &mut Elem, en: &mut Ent) -> Vec<&'static str> {
  let mut done = vec![];
  visit(s, di, e, &mut |hs, e| {
    // the document of a flattened enum begins with a variant it knows
    if e.local == FRAGMENT && is_enum(s, hs) { return }
    for h in hs {
      let Kind::Enum(vs, _) = &s.decls[*h].kind else { continue };
      if en.pick(3) == 0 { continue }
      let other = |en: &mut Ent| vs[en.pick(vs.len())].clone();
      if let Some(tag) = &s.decls[*h].tag {
        let Some(k) = e.attrs.iter().position(|a| a.1 == *tag) else { continue };
        if en.chance(1, 3) {
          let l = match en.pick(7) { 0 => format!("sub{tag}"), 1 => format!("{tag}2"), 2 => format!("_{tag}"), 3 => tag.to_uppercase(), 4 => format!("{tag}.x"), 5 => tag[..1].to_uppercase() + &tag[1..], _ => "name".into() };
          if l != *tag && !e.attrs.iter().any(|a| a.1 == l) { let to = en.pick(2) * k; e.attrs.insert(to, (String::new(), l, other(en).local().to_string())); done.push("attribute with nearly the name of the tag"); continue }
        }
        match en.pick(4) {
          0 => { e.attrs.remove(k); done.push("tag removed") }
          1 => { let n = near(en, &e.attrs[k].2.clone()); e.attrs[k].2 = n; done.push("tag misspelled") }
          2 => { e.attrs[k].2 = other(en).ident.trim_start_matches("r#").to_string(); done.push("tag replaced") }
          _ => { e.attrs[k].2 = other(en).local().to_string(); done.push("tag replaced") }
        }
        continue;
      }
      let alone = *h == hs[0];
      let own: Vec<usize> = e.kids.iter().enumerate().filter(|(_, n)| matches!(n, Node::E(k) if vs.iter().any(|v| v.local() == k.local))).map(|(i, _)| i).collect();
      if alone && own.is_empty() {
        let n = other(en);
        let t = match en.pick(6) { 0 => near(en, n.local()), 1 => n.ident.trim_start_matches("r#").to_string(), 2 => "zz-none".into(), 3 => String::new(), _ => n.local().to_string() };
        e.kids.retain(|n| matches!(n, Node::E(_)));
        e.kids.insert(0, Node::T(t.clone()));
        if t.is_empty() { e.kids.remove(0); }
        done.push("variant text replaced");
        continue;
      }
      if own.is_empty() { continue }
      let k = own[en.pick(own.len())];
      let n = other(en);
      let cur = match &e.kids[k] { Node::E(x) => x.local.clone(), _ => unreachable!() };
      let t = match en.pick(7) { 0 => "zz-none".to_string(), 1 => n.ident.trim_start_matches("r#").to_string(), 2 => { let m = near(en, &cur); if m.chars().all(|c| c.is_alphanumeric() || "-._".contains(c)) && m.starts_with(|c: char| c.is_alphabetic()) { m } else { "zz-none".into() } } _ => n.local().to_string() };
      if t.contains(' ') || t.is_empty() { continue }
      if en.chance(1, 5) {
        let mut c = match &e.kids[k] { Node::E(x) => x.clone(), _ => unreachable!() };
        c.local = t;
        let to = en.pick(e.kids.len() + 1);
        e.kids.insert(to, Node::E(c));
        done.push("second variant element");
      } else if en.chance(1, 6) && alone {
        e.kids.insert(0, Node::T(t));
        done.push("variant text added");
      } else if en.chance(1, 6) {
        e.kids.remove(k);
        done.push("variant element removed");
      } else {
        if let Node::E(x) = &mut e.kids[k] { x.local = t }
        done.push("variant element renamed");
      }
    }
  });
  merge(e);
  done
}
