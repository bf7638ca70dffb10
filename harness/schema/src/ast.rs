use val::Val;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Scalar { Str, Bool, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64,
  /// writing only
  Chr, Isize, Usize }
pub use Scalar::*;
pub const WRITE_ONLY: [Scalar; 3] = [Chr, Isize, Usize];
pub const SCALARS: [Scalar; 12] = [Str, Bool, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64];
impl Scalar {
  pub fn rust(self) -> &'static str {
    match self { Str => "String", Bool => "bool", I8 => "i8", U8 => "u8", I16 => "i16", U16 => "u16", I32 => "i32", U32 => "u32", I64 => "i64", U64 => "u64", F32 => "f32", F64 => "f64", Chr => "char", Isize => "isize", Usize => "usize" }
  }
  pub fn range(self) -> Option<(i128, i128)> {
    Some(match self {
      I8 => (i8::MIN as i128, i8::MAX as i128), U8 => (0, u8::MAX as i128),
      I16 => (i16::MIN as i128, i16::MAX as i128), U16 => (0, u16::MAX as i128),
      I32 => (i32::MIN as i128, i32::MAX as i128), U32 => (0, u32::MAX as i128),
      I64 | Isize => (i64::MIN as i128, i64::MAX as i128), U64 | Usize => (0, u64::MAX as i128),
      _ => return None,
    })
  }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { S(Scalar), D(usize), O(Box<Ty>), V(Box<Ty>) }
impl Ty {
  pub fn base(&self) -> &Ty { match self { Ty::O(t) | Ty::V(t) => t.base(), t => t } }
}
pub fn s(x: Scalar) -> Ty { Ty::S(x) }
pub fn d(x: usize) -> Ty { Ty::D(x) }
pub fn o(t: Ty) -> Ty { Ty::O(Box::new(t)) }
pub fn v(t: Ty) -> Ty { Ty::V(Box::new(t)) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pos { Elem, Attr, Text, Cdata, Flat }

#[derive(Clone, PartialEq, Debug)]
pub enum SkipIf { Always, Never, Eq(Val), /// another field (index) equals a value
  Other(usize, Val) }

#[derive(Clone, PartialEq, Debug)]
pub struct Field {
  pub ident: String,
  pub rename: Option<String>,
  pub prefix: Option<String>,
  pub pos: Pos,
  pub ty: Ty,
  pub default: Option<Val>,
  pub skip: bool,
  pub skip_if: Option<SkipIf>,
  /// spelling of the type in the source, when not the plain one
  pub spelled: Option<String>,
}
pub fn f(ident: &str, ty: Ty) -> Field {
  Field { ident: ident.into(), rename: None, prefix: None, pos: Pos::Elem, ty, default: None, skip: false, skip_if: None, spelled: None }
}
impl Field {
  pub fn attr(mut self) -> Self { self.pos = Pos::Attr; self }
  pub fn text(mut self) -> Self { self.pos = Pos::Text; self }
  pub fn cdata(mut self) -> Self { self.pos = Pos::Cdata; self }
  pub fn flat(mut self) -> Self { self.pos = Pos::Flat; self }
  pub fn rn(mut self, x: &str) -> Self { self.rename = Some(x.into()); self }
  pub fn px(mut self, x: &str) -> Self { self.prefix = Some(x.into()); self }
  pub fn dflt(mut self, x: Val) -> Self { self.default = Some(x); self }
  pub fn skip(mut self) -> Self { self.skip = true; self }
  pub fn skip_if(mut self, x: SkipIf) -> Self { self.skip_if = Some(x); self }
  pub fn spell(mut self, x: &str) -> Self { self.spelled = Some(x.into()); self }
  pub fn bare(&self) -> &str { self.ident.strip_prefix("r#").unwrap_or(&self.ident) }
  /// local name of the markup
  pub fn local(&self) -> &str { self.rename.as_deref().unwrap_or(self.bare()) }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Pay { Unit, One(Ty), /// struct-like variant: writing only
  Named(Vec<Field>) }
#[derive(Clone, PartialEq, Debug)]
pub struct Variant { pub ident: String, pub rename: Option<String>, pub prefix: Option<String>, pub flatten: bool, pub pay: Pay }
pub fn unit(ident: &str) -> Variant { Variant { ident: ident.into(), rename: None, prefix: None, flatten: false, pay: Pay::Unit } }
pub fn one(ident: &str, ty: Ty) -> Variant { Variant { ident: ident.into(), rename: None, prefix: None, flatten: false, pay: Pay::One(ty) } }
pub fn named(ident: &str, fs: Vec<Field>) -> Variant { Variant { ident: ident.into(), rename: None, prefix: None, flatten: false, pay: Pay::Named(fs) } }
impl Variant {
  pub fn rn(mut self, x: &str) -> Self { self.rename = Some(x.into()); self }
  pub fn px(mut self, x: &str) -> Self { self.prefix = Some(x.into()); self }
  pub fn flat(mut self) -> Self { self.flatten = true; self }
  pub fn local(&self) -> &str { self.rename.as_deref().unwrap_or(self.ident.strip_prefix("r#").unwrap_or(&self.ident)) }
}

/// Newtypes whose text form is given by Display/FromStr.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lit {
  /// derive(PrimitiveYaSerde) over a scalar
  Prim(Scalar),
  /// derive(DefaultYaSerde) with a hand-written Display/FromStr: "x-y" pair of i32 and u8
  Pair,
  /// derive(DefaultYaSerde): seconds as "PT<n>S"
  Dur,
  /// derive(DefaultYaSerde): string in angle brackets "<text>"
  Angle,
  /// derive(HexBinaryYaSerde) on bits of the given width
  Hex(u32),
}
/// Hand-written YaSerialize/YaDeserialize implementations.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Custom { 
  /// comma separated list of i32 as text of the element
  Csv,
  /// reads all its children names/texts via the event API, writes them back
  Bag,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind { Struct(Vec<Field>), Enum(Vec<Variant>, usize), Lit(Lit), Custom(Custom) }

#[derive(Clone, PartialEq, Debug)]
pub struct Decl {
  pub name: String,
  pub rename: Option<String>,
  pub prefix: Option<String>,
  pub ns: Vec<(String, String)>,
  pub default_ns: Option<String>,
  pub flatten: bool,
  pub tag: Option<String>,
  pub kind: Kind,
  pub ser: bool,
  pub de: bool,
  /// complete source of the type, when it is not generated from this description
  pub src: Option<String>,
  /// how the type is written in other declarations and in the registry
  pub path: Option<String>,
  /// declared in a module of its own that imports nothing and begins with this text
  pub wrap: Option<String>,
  /// belongs to these groups
  pub groups: Vec<&'static str>,
  /// value of `Default` payload for enums with a payload default
  pub shard: Option<usize>,
}
fn decl(name: &str, kind: Kind) -> Decl {
  Decl { name: name.into(), rename: None, prefix: None, ns: vec![], default_ns: None, flatten: false, tag: None, kind, ser: true, de: true, src: None, path: None, wrap: None, groups: vec![], shard: None }
}
pub fn st(name: &str, fs: Vec<Field>) -> Decl { decl(name, Kind::Struct(fs)) }
pub fn en(name: &str, vs: Vec<Variant>) -> Decl { decl(name, Kind::Enum(vs, 0)) }
pub fn lit(name: &str, l: Lit) -> Decl { decl(name, Kind::Lit(l)) }
pub fn custom(name: &str, c: Custom) -> Decl { decl(name, Kind::Custom(c)) }
impl Decl {
  pub fn rn(mut self, x: &str) -> Self { self.rename = Some(x.into()); self }
  pub fn px(mut self, x: &str) -> Self { self.prefix = Some(x.into()); self }
  pub fn ns(mut self, ps: &[&str]) -> Self { self.ns = ps.iter().map(|p| (p.to_string(), uri(p).to_string())).collect(); self }
  pub fn dns(mut self, p: &str) -> Self { self.default_ns = Some(p.into()); self }
  pub fn flat(mut self) -> Self { self.flatten = true; self }
  pub fn tag(mut self, t: &str) -> Self { self.tag = Some(t.into()); self }
  pub fn dv(mut self, i: usize) -> Self { if let Kind::Enum(_, ref mut k) = self.kind { *k = i } self }
  pub fn only_ser(mut self) -> Self { self.de = false; self }
  pub fn only_de(mut self) -> Self { self.ser = false; self }
  pub fn src(mut self, x: &str) -> Self { self.src = Some(x.into()); self }
  pub fn path(mut self, x: &str) -> Self { self.path = Some(x.into()); self }
  pub fn g(mut self, x: &'static str) -> Self { self.groups.push(x); self }
  pub fn rust(&self) -> &str { self.path.as_deref().unwrap_or(&self.name) }
  pub fn bare(&self) -> &str { self.name.strip_prefix("r#").unwrap_or(&self.name) }
  pub fn local(&self) -> &str { self.rename.as_deref().unwrap_or(self.bare()) }
  pub fn fields(&self) -> &[Field] { match &self.kind { Kind::Struct(f) => f, _ => &[] } }
  pub fn uri_of(&self, prefix: &Option<String>) -> Option<&str> {
    let p = prefix.as_deref()?;
    self.ns.iter().find(|(q, _)| q == p).map(|(_, u)| u.as_str())
  }
}

/// One global binding, so that nested and flattened types never redefine a prefix of their parent.
pub fn uri(p: &str) -> &'static str {
  match p {
    "p" => "urn:p", "q" => "http://example.com/q#x", "r" => "http://example.com/ns/r/2.0", "nsx" => "urn:long:name:space:with:many:parts:1",
    "P" => "urn:P", "n" => "urn:n", "ns" => "urn:n:s", "sn" => "urn:s", "x" => "urn:x", "a-rather-long-prefix.1" => "http://example.com/a/rather/long/name/space/2026/11/19?with=a;query#and-a-fragment", _ => panic!("harness: prefix {p}"),
  }
}

#[derive(Clone, Debug, Default)]
pub struct Schema { pub decls: Vec<Decl> }
impl Schema {
  pub fn add(&mut self, d: Decl) -> usize {
    assert!(self.decls.iter().all(|x| x.name != d.name), "harness: duplicate {}", d.name);
    self.decls.push(d);
    self.decls.len() - 1
  }
  pub fn ty_rust(&self, t: &Ty) -> String {
    match t {
      Ty::S(s) => s.rust().to_string(),
      Ty::D(i) => self.decls[*i].rust().to_string(),
      Ty::O(t) => format!("Option<{}>", self.ty_rust(t)),
      Ty::V(t) => format!("Vec<{}>", self.ty_rust(t)),
    }
  }
  /// Does any declaration reachable from `i` (included) satisfy `p`?
  pub fn reach(&self, i: usize, p: &dyn Fn(&Decl) -> bool) -> bool {
    let mut seen = vec![false; self.decls.len()];
    let mut todo = vec![i];
    while let Some(i) = todo.pop() {
      if seen[i] { continue }
      seen[i] = true;
      let dd = &self.decls[i];
      if p(dd) { return true }
      for t in deps(dd) { todo.push(t) }
    }
    false
  }
}
pub fn deps(dd: &Decl) -> Vec<usize> {
  let mut r = vec![];
  let mut add = |t: &Ty| if let Ty::D(i) = t.base() { r.push(*i) };
  match &dd.kind {
    Kind::Struct(fs) => fs.iter().for_each(|f| add(&f.ty)),
    Kind::Enum(vs, _) => for v in vs { match &v.pay { Pay::One(t) => add(t), Pay::Named(fs) => fs.iter().for_each(|f| add(&f.ty)), Pay::Unit => {} } },
    _ => {}
  }
  r
}
