//! Values of declarations, decoded from a stream of choices (0 is always the simplest choice).
use schema::ast::*;
use schema::rng::Rng;
use schema::xml::{xml_char, Ent};
use val::{canon32, canon64, Val};

#[derive(Clone, Copy)]
pub struct Opts {
  /// only values that reading restores
  pub rt: bool,
  /// mostly strings made of markup
  pub nasty: bool,
  /// no carriage returns: written raw, they are line ends to XML readers
  pub plain: bool,
  /// now and then hundreds of items, and nesting hundreds of levels deep
  pub big: bool,
}
pub const RT: Opts = Opts { rt: true, nasty: false, plain: false, big: true };
pub const ANY: Opts = Opts { rt: false, nasty: false, plain: false, big: true };
/// Sizes beyond those of small values: around the limits of counters and buffers.
pub const SIZES: [usize; 8] = [17, 33, 65, 100, 129, 257, 300, 20];
pub fn size(en: &mut Ent) -> usize { SIZES[en.pick(8)] + en.pick(4) }
/// Makes one of the strings or sequences of scalars of a value as large as documents get: around the
/// sizes at which buffers, counters and limits of readers and writers end.
pub fn enlarge(v: &mut Val, en: &mut Ent, most: usize) -> usize {
  fn places(v: &mut Val, out: &mut Vec<*mut Val>) {
    let p: *mut Val = v;
    match v {
      Val::Str(_) => out.push(p),
      Val::List(l) => {
        if l.first().is_some_and(|x| !matches!(x, Val::List(_) | Val::Struct(_))) { out.push(p) }
        if l.len() < 4 { for x in l { places(x, out) } }
      }
      Val::Struct(l) => for x in l { places(x, out) },
      Val::Some(x) | Val::Enum(_, Some(x)) => places(x, out),
      _ => {}
    }
  }
  let mut all = vec![];
  places(v, &mut all);
  if all.is_empty() { return 0 }
  let at = all[en.pick(all.len())];
  let n = [8_100, 16_500, 33_000, 65_500, 131_000, 1_048_500, 4_194_300, 16_777_200][en.pick(8)].min(most) + en.pick(200);
  // SAFETY: one pointer into the value, which is not otherwise in use
  match unsafe { &mut *at } {
    Val::Str(s) => {
      let w = ["abcdefgh-", "é", "日本x", "0123456789", "word\u{1F600}"][en.pick(5)];
      if s.is_empty() { s.push('x') }
      while s.len() < n { s.push_str(w) }
      s.push('z');
      n
    }
    Val::List(l) => { let n = n.min(1_100_000) / 10; let x = l.clone(); while l.len() < n { l.extend(x.iter().cloned()) } n * 10 }
    _ => unreachable!(),
  }
}
fn choices(r: &mut Rng, n: usize) -> Vec<u16> { (0..n).map(|_| r.next() as u16).collect() }

const PIECES: [&str; 51] = [
  "&", "<", ">", "\"", "'", "]]>", "&amp;", "&#65;", "&lt;", "<!--", "-->", "<![CDATA[", "<a>", "</a>", "<a/>", "]]", "]", "--", "\n", "\t", " ", "  ", "é", "日本",
  "\u{1F600}", "\u{85}", "\u{2028}", "\u{A0}", "\u{FFFD}", "\u{7F}", "\u{10FFFF}", "%s", "{}", "xmlns=\"u\"", "<?pi x?>", "&nbsp;", "<?xml version=\"1.0\"?>", "true", "0", "\\n", "a", "z", ":", "=",
  "\u{FEFF}", "\u{200B}", "\u{3000}", "\u{2003}", "\u{1680}", "\u{202F}", "\u{2029}",
];
const WORDS: [&str; 12] = ["a", "b", "hello", "Some text", "x1", "value", "true", "12", "-3.5", "None", "name", "Zed zed"];

fn clean(s: String) -> String { s }

/// ASCII up to a place near a round length, and a character of several bytes over it.
pub fn straddle(en: &mut Ent) -> String {
  let k = [8usize, 16, 20, 24, 30, 32, 40, 48, 50, 60, 64, 72, 80, 100, 120, 128, 200, 255, 256, 512, 1000, 1024][en.pick(22)];
  let k = if en.chance(1, 4) { en.pick(300) } else { k - en.pick(5).min(k) };
  format!("{}{}{}", "a".repeat(k), ["é", "日", "\u{1F600}"][en.pick(3)].repeat([1, 3, 20][en.pick(3)]), "z".repeat(en.pick(3) * 20))
}

pub fn string(en: &mut Ent, o: &Opts) -> String {
  let k = if o.nasty { 4 + en.pick(8) } else { en.pick(14) };
  let mut s = String::new();
  match k {
    0 => {}
    1..=4 if !o.nasty => s.push_str(WORDS[en.pick(WORDS.len())]),
    5 | 6 if !o.nasty => { for _ in 0..1 + en.pick(8) { s.push((b'a' + en.pick(26) as u8) as char) } }
    7 => {
      // any XML characters
      for _ in 0..1 + en.pick(10) {
        let c = char::from_u32(match en.pick(5) { 0 => 0x20 + en.pick(0x60) as u32, 1 => 0x80 + en.pick(0x780) as u32, 2 => 0x800 + en.raw() as u32 % 0xF800, 3 => 0x10000 + en.raw() as u32 * 16 % 0x100000, _ => 0x20 + en.pick(0x60) as u32 });
        if let Some(c) = c.filter(|c| xml_char(*c)) { s.push(c) }
      }
    }
    8 => {
      // white space around and inside
      let w = [" ", "\n", "\t", "  ", " \n ", "\u{A0}", "\u{FEFF}", "\u{3000}", "\u{2003}", "\u{85}", "\u{2028}"];
      s.push_str(w[en.pick(w.len())]);
      s.push_str(WORDS[en.pick(WORDS.len())]);
      s.push_str(w[en.pick(w.len())]);
      if en.chance(1, 2) { s.push_str(WORDS[en.pick(WORDS.len())]) }
    }
    9 if en.chance(1, 3) => s.push_str(&straddle(en)),
    9 => {
      let n = if en.chance(1, 4) { 1500 + en.pick(4000) } else { 40 + en.pick(200) };
      let w = PIECES[en.pick(PIECES.len())];
      let v = WORDS[en.pick(WORDS.len())];
      let mut i = 0;
      while s.len() < n { s.push_str(if i % 7 == 6 { w } else { v }); i += 1 }
    }
    10 => {
      for _ in 0..1 + en.pick(6) { s.push_str(PIECES[en.pick(PIECES.len())]); if en.chance(1, 2) { s.push_str(WORDS[en.pick(WORDS.len())]) } }
      if en.chance(1, 4) && !o.plain { s.push('\r'); s.push_str(WORDS[en.pick(WORDS.len())]) }
    }
    _ => { for _ in 0..1 + en.pick(5) { s.push_str(PIECES[en.pick(PIECES.len())]) } }
  }
  clean(s)
}

pub fn int(en: &mut Ent, lo: i128, hi: i128) -> i128 {
  let w = (hi - lo) as u128 + 1;
  match en.pick(10) {
    0 => 0,
    1 => lo,
    2 => hi,
    3 => (lo + 1 + en.pick(3) as i128).min(hi),
    4 => (hi - 1 - en.pick(3) as i128).max(lo),
    5 => (en.pick(300) as i128).clamp(lo, hi),
    6 => (-(en.pick(300) as i128)).clamp(lo, hi),
    7 => {
      // near powers of two and ten
      let p = en.pick(64) as u32;
      let base = if en.chance(1, 2) { 10i128.pow(p % 20) } else { 1i128 << p };
      let x = base + en.pick(3) as i128 - 1;
      let x = if en.chance(1, 2) { -x } else { x };
      x.clamp(lo, hi)
    }
    _ => { let mut x: u128 = 0; for _ in 0..4 { x = x << 16 | en.raw() as u128 } lo + (x % w) as i128 }
  }
}
pub fn f64_(en: &mut Ent) -> f64 {
  let s = [0.0, -0.0, 1.0, -1.0, 0.1, 1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e21, 1e-7, 123456789.123456789, 9007199254740993.0, 0.30000000000000004, 1e300, 1e-300];
  match en.pick(4) {
    0 | 1 => s[en.pick(s.len())],
    2 => int(en, i64::MIN as i128, i64::MAX as i128) as f64 / [1.0, 10.0, 3.0, 1e5][en.pick(4)],
    _ => { let mut x = 0u64; for _ in 0..4 { x = x << 16 | en.raw() as u64 } f64::from_bits(x) }
  }
}
pub fn f32_(en: &mut Ent) -> f32 {
  let s = [0.0, -0.0, 1.0, -1.0, 0.1, 1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e21, 1e-7, 16777217.0, 0.3, 3.4e38];
  match en.pick(4) {
    0 | 1 => s[en.pick(s.len())],
    2 => int(en, i32::MIN as i128, i32::MAX as i128) as f32 / [1.0, 10.0, 3.0, 1e5][en.pick(4)],
    _ => { let x = (en.raw() as u32) << 16 | en.raw() as u32; f32::from_bits(x) }
  }
}
pub fn scalar(en: &mut Ent, sc: Scalar, o: &Opts) -> Val {
  match sc {
    Str => Val::Str(string(en, o)),
    Chr => {
      let x = if en.chance(1, 3) { ["<", "&", ">", "\"", "'", " ", "\n", "é", "日", "\u{1F600}", "\u{A0}"][en.pick(11)].to_string() } else { string(en, o) };
      Val::Str(x.chars().find(|c| *c != '\r').unwrap_or('x').to_string())
    }
    Bool => Val::Bool(en.pick(2) == 1),
    F32 => Val::F32(canon32(f32_(en))),
    F64 => Val::F64(canon64(f64_(en))),
    _ => { let (lo, hi) = sc.range().unwrap(); Val::Int(int(en, lo, hi)) }
  }
}

/// Is `b` inside of values of `a`?
fn within(s: &Schema, a: usize, b: usize) -> bool { deps(&s.decls[a]).iter().any(|k| s.reach(*k, &|d| d.name == s.decls[b].name)) }

pub struct Gen<'a> { pub s: &'a Schema, pub o: Opts }
impl Gen<'_> {
  fn len(&self, en: &mut Ent, depth: usize) -> usize {
    match depth { 0..=1 => match en.pick(8) { 0..=2 => en.pick(2), 3..=5 => 2, 6 => 3, _ => 1 + en.pick(7) }, 2 => en.pick(3), 3 => en.pick(2), _ => 0 }
  }
  pub fn ty(&self, en: &mut Ent, t: &Ty, depth: usize) -> Val {
    match t {
      Ty::S(sc) => scalar(en, *sc, &self.o),
      Ty::O(t) => if depth < 6 && en.pick(3) != 0 { Val::some(self.ty(en, t, depth)) } else { Val::None },
      Ty::V(t) if self.o.big && depth <= 1 && en.pick(40) == 17 => {
        let n = size(en);
        let mut r = Rng::new(en.raw() as u64, "items");
        Val::List((0..n).map(|_| { let c = choices(&mut r, 8); self.ty(&mut Ent::new(&c), t, depth + 3) }).collect())
      }
      Ty::V(t) => { let n = self.len(en, depth); Val::List((0..n).map(|_| self.ty(en, t, depth + 1)).collect()) }
      Ty::D(i) => self.decl(en, *i, depth + 1),
    }
  }
  pub fn decl(&self, en: &mut Ent, di: usize, depth: usize) -> Val {
    let dd = &self.s.decls[di];
    if depth == 0 && self.o.big && dd.groups.contains(&"rec") && en.pick(10) == 7 { return self.nested(en, di) }
    match &dd.kind {
      Kind::Struct(fs) => Val::Struct(fs.iter().map(|f| self.field(en, f, depth)).collect()),
      Kind::Enum(vs, k) => {
        let mut c = en.pick(vs.len());
        // the simplest choice is the default variant
        if c == 0 { c = *k } else if c == *k { c = 0 }
        if depth > 5 || (self.o.rt && vs[c].pay == Pay::Unit && vs[c].prefix.is_some() && vs[c].prefix != dd.default_ns) { c = *k }
        Val::Enum(c, match &vs[c].pay {
          Pay::Unit => None,
          Pay::One(t) => Some(Box::new(match t {
            Ty::O(b) if self.o.rt => Val::some(self.ty(en, b, depth)),
            Ty::V(b) if self.o.rt => { let n = self.len(en, depth + 1).max(1); Val::List((0..n).map(|_| self.ty(en, b, depth + 1)).collect()) }
            t => self.ty(en, t, depth),
          })),
          Pay::Named(fs) => Some(Box::new(Val::Struct(fs.iter().map(|f| self.field(en, f, depth)).collect()))),
        })
      }
      Kind::Lit(l) => match l {
        Lit::Prim(sc) => scalar(en, *sc, &self.o),
        Lit::Pair => Val::Struct(vec![scalar(en, I32, &self.o), scalar(en, U8, &self.o)]),
        Lit::Dur => scalar(en, U32, &self.o),
        Lit::Angle => Val::Str(string(en, &self.o)),
        Lit::Hex(w) => Val::Int(int(en, 0, ((1u128 << w) - 1) as i128)),
      },
      Kind::Custom(Custom::Csv) => { let n = en.pick(4); Val::List((0..n).map(|_| scalar(en, I32, &self.o)).collect()) }
      Kind::Custom(Custom::Bag) => {
        let n = if depth > 4 { 0 } else { en.pick(4) };
        const NAMES: [&str; 6] = ["k", "one", "list", "n", "Bag", "x-y.z"];
        Val::List((0..n).map(|_| Val::Struct(vec![Val::s(NAMES[en.pick(NAMES.len())]), Val::Str(string(en, &self.o))])).collect())
      }
    }
  }
  /// A value many levels deep of a declaration that contains itself.
  fn nested(&self, en: &mut Ent, di: usize) -> Val {
    let n = size(en);
    let mut r = Rng::new(en.raw() as u64, "levels");
    let group: Vec<usize> = (0..self.s.decls.len()).filter(|h| within(self.s, di, *h) && within(self.s, *h, di)).collect();
    let (mut ci, mut v) = (di, self.decl(en, di, 5));
    let mut level = 0;
    while level < n || ci != di {
      level += 1;
      let hosts: Vec<usize> = group.iter().copied().filter(|h| deps(&self.s.decls[*h]).contains(&ci)).collect();
      let h = hosts[r.below(hosts.len())];
      let c = choices(&mut r, 4);
      let put = |t: &Ty, v: Val| match t { Ty::V(_) => Val::List(vec![v]), Ty::O(_) => Val::some(v), _ => v };
      v = match &self.s.decls[h].kind {
        Kind::Struct(fs) => {
          let Val::Struct(mut x) = self.decl(&mut Ent::new(&c), h, 4) else { unreachable!() };
          let at: Vec<usize> = (0..fs.len()).filter(|k| *fs[*k].ty.base() == Ty::D(ci)).collect();
          let k = at[r.below(at.len())];
          x[k] = put(&fs[k].ty, v);
          Val::Struct(x)
        }
        Kind::Enum(vs, _) => {
          let at: Vec<(usize, &Ty)> = vs.iter().enumerate().filter_map(|(k, x)| match &x.pay { Pay::One(t) if *t.base() == Ty::D(ci) => Some((k, t)), _ => None }).collect();
          let (k, t) = at[r.below(at.len())];
          Val::Enum(k, Some(Box::new(put(t, v))))
        }
        _ => unreachable!(),
      };
      ci = h;
    }
    v
  }
  fn field(&self, en: &mut Ent, f: &Field, depth: usize) -> Val {
    let mut marks: Vec<Val> = f.default.iter().cloned().collect();
    if let Some(SkipIf::Eq(x)) = &f.skip_if { marks.push(x.clone()) }
    if !marks.is_empty() && en.pick(3) == 0 { return marks[en.pick(marks.len())].clone() }
    let v = if !marks.is_empty() && en.pick(6) == 4 { let m = marks[en.pick(marks.len())].clone(); self.close(en, &f.ty, m, depth) } else { self.ty(en, &f.ty, depth) };
    if f.pos == Pos::Attr { self.attr(&f.ty, v) } else { v }
  }
  /// A value that is nearly `v`.
  fn close(&self, en: &mut Ent, t: &Ty, v: Val, depth: usize) -> Val {
    match (t, v) {
      (Ty::S(Str), Val::Str(x)) => {
        let y = match en.pick(12) {
          0 => format!(" {x}"), 1 => format!("{x} "), 2 => x.to_uppercase(), 3 => format!("{x}{x}"), 4 => format!("{x}."), 5 => { let mut c = x.chars(); c.next_back(); c.as_str().to_string() }
          6 => { let mut c = x.chars(); c.next(); c.as_str().to_string() } 7 => x.chars().rev().collect(), 8 => format!("\n{x}\n"), 9 => format!("{x}\u{301}"), 10 => format!("{x}é"), _ => String::new(),
        };
        Val::Str(y)
      }
      (Ty::O(t), Val::Some(x)) => match en.pick(6) { 0 => Val::None, _ => Val::some(self.close(en, t, *x, depth)) },
      (Ty::V(t), Val::List(mut l)) => {
        match en.pick(4) {
          0 if !l.is_empty() => { let k = en.pick(l.len()); l.remove(k); }
          1 if !l.is_empty() => { let k = en.pick(l.len()); let x = l[k].clone(); l.insert(k, x) }
          2 if !l.is_empty() => { let k = en.pick(l.len()); let x = l[k].clone(); l[k] = self.close(en, t, x, depth) }
          _ => { let k = en.pick(l.len() + 1); let x = self.ty(en, t, depth + 1); l.insert(k, x) }
        }
        Val::List(l)
      }
      (Ty::D(j), Val::Struct(mut x)) => match &self.s.decls[*j].kind {
        Kind::Struct(fs) if !x.is_empty() => { let k = en.pick(x.len()); let y = x[k].clone(); x[k] = self.close(en, &fs[k].ty, y, depth); Val::Struct(x) }
        _ => Val::Struct(x),
      },
      // other values of this type: mostly small ones, near to everything that a declaration has as a mark
      (t, _) => self.ty(en, t, depth),
    }
  }
  /// What attributes can carry for all XML readers: no raw tabs; declared types carry an XML
  /// fragment, so no markup characters and no payloads in them (known findings).
  fn attr(&self, t: &Ty, v: Val) -> Val {
    match (t, v) {
      (Ty::O(t), Val::Some(x)) => Val::some(self.attr(t, *x)),
      (Ty::V(t), Val::List(l)) => Val::List(l.into_iter().map(|x| self.attr(t, x)).collect()),
      (Ty::S(Str), Val::Str(x)) if self.o.plain => Val::Str(x.replace('\t', " ")),
      (Ty::S(Chr), Val::Str(x)) if matches!(&*x, "<" | ">" | "&" | "\t") => Val::s("x"),
      (Ty::D(j), v) => match (&self.s.decls[*j].kind, v) {
        (Kind::Lit(Lit::Prim(Str) | Lit::Angle), Val::Str(x)) => Val::Str(x.chars().filter(|c| !matches!(c, '<' | '>' | '&' | '\r')).map(|c| if self.o.plain && c == '\t' { ' ' } else { c }).collect()),
        (Kind::Enum(vs, k), Val::Enum(..)) if vs[*k].pay != Pay::Unit => panic!("harness: attribute of an enum with a payload default"),
        (Kind::Enum(_, k), Val::Enum(_, Some(_))) => Val::Enum(*k, None),
        (_, v) => v,
      },
      (_, v) => v,
    }
  }
  /// A value inside the domain on which writing then reading is the identity.
  pub fn rt(&self, en: &mut Ent, di: usize) -> Option<Val> {
    let v = self.decl(en, di, 0);
    let v = self.s.normalize(di, &v)?;
    // a document without any element is no document
    if self.s.decls[di].flatten && !self.s.ser_root(di, &v).iter().any(|n| matches!(n, schema::xml::Node::E(_))) { return None }
    Some(v)
  }
}
