//! Dynamic values: the common currency between strategies, models and generated types.

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
  Str(String),
  Bool(bool),
  Int(i128),
  F32(u32),
  F64(u64),
  None,
  Some(Box<Val>),
  List(Vec<Val>),
  Struct(Vec<Val>),
  Enum(usize, Option<Box<Val>>),
}

pub fn canon32(f: f32) -> u32 {
  if f.is_nan() { f32::NAN.to_bits() } else { f.to_bits() }
}
pub fn canon64(f: f64) -> u64 {
  if f.is_nan() { f64::NAN.to_bits() } else { f.to_bits() }
}

impl Val {
  pub fn s(x: &str) -> Val { Val::Str(x.to_string()) }
  pub fn some(v: Val) -> Val { Val::Some(Box::new(v)) }
  pub fn str(&self) -> &str {
    match self { Val::Str(s) => s, o => panic!("harness: not a string: {o:?}") }
  }
  pub fn fields(&self) -> &[Val] {
    match self { Val::Struct(f) => f, o => panic!("harness: not a struct: {o:?}") }
  }
  /// Equality in the sense of Rust's PartialEq on the concrete types (floats numerically).
  pub fn eq_num(&self, o: &Val) -> bool {
    match (self, o) {
      (Val::F32(a), Val::F32(b)) => f32::from_bits(*a) == f32::from_bits(*b),
      (Val::F64(a), Val::F64(b)) => f64::from_bits(*a) == f64::from_bits(*b),
      (Val::Some(a), Val::Some(b)) => a.eq_num(b),
      (Val::List(a), Val::List(b)) | (Val::Struct(a), Val::Struct(b)) =>
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq_num(y)),
      (Val::Enum(i, a), Val::Enum(j, b)) => i == j && match (a, b) {
        (Some(a), Some(b)) => a.eq_num(b), (None, None) => true, _ => false },
      (a, b) => a == b,
    }
  }

  /// Text codec for replay files (whitespace separated tokens, strings in hex).
  pub fn enc(&self, o: &mut String) {
    use std::fmt::Write;
    match self {
      Val::Str(s) => { o.push_str("s:"); for b in s.as_bytes() { write!(o, "{b:02x}").unwrap(); } o.push(' '); }
      Val::Bool(b) => write!(o, "b:{b} ").unwrap(),
      Val::Int(i) => write!(o, "i:{i} ").unwrap(),
      Val::F32(x) => write!(o, "f:{x} ").unwrap(),
      Val::F64(x) => write!(o, "d:{x} ").unwrap(),
      Val::None => o.push_str("n "),
      Val::Some(v) => { o.push_str("o "); v.enc(o) }
      Val::List(v) => { write!(o, "l:{} ", v.len()).unwrap(); for x in v { x.enc(o) } }
      Val::Struct(v) => { write!(o, "t:{} ", v.len()).unwrap(); for x in v { x.enc(o) } }
      Val::Enum(i, p) => { write!(o, "e:{i}:{} ", p.is_some() as u8).unwrap(); if let Some(p) = p { p.enc(o) } }
    }
  }
  pub fn dec<'a>(it: &mut impl Iterator<Item = &'a str>) -> Option<Val> {
    let t = it.next()?;
    let (k, r) = t.split_once(':').unwrap_or((t, ""));
    Some(match k {
      "s" => {
        let mut b = vec![];
        let mut i = 0;
        while i + 1 < r.len() + 1 && i < r.len() { b.push(u8::from_str_radix(r.get(i..i + 2)?, 16).ok()?); i += 2; }
        Val::Str(String::from_utf8(b).ok()?)
      }
      "b" => Val::Bool(r == "true"),
      "i" => Val::Int(r.parse().ok()?),
      "f" => Val::F32(r.parse().ok()?),
      "d" => Val::F64(r.parse().ok()?),
      "n" => Val::None,
      "o" => Val::Some(Box::new(Val::dec(it)?)),
      "l" | "t" => {
        let n: usize = r.parse().ok()?;
        let mut v = vec![];
        for _ in 0..n { v.push(Val::dec(it)?); }
        if k == "l" { Val::List(v) } else { Val::Struct(v) }
      }
      "e" => {
        let (i, p) = r.split_once(':')?;
        let p = if p == "1" { Some(Box::new(Val::dec(it)?)) } else { None };
        Val::Enum(i.parse().ok()?, p)
      }
      _ => return None,
    })
  }
}

impl std::fmt::Display for Val {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self {
      Val::Str(s) => write!(f, "{s:?}"),
      Val::Bool(b) => write!(f, "{b}"),
      Val::Int(i) => write!(f, "{i}"),
      Val::F32(x) => write!(f, "{:?}f32", f32::from_bits(*x)),
      Val::F64(x) => write!(f, "{:?}f64", f64::from_bits(*x)),
      Val::None => write!(f, "None"),
      Val::Some(v) => write!(f, "Some({v})"),
      Val::List(v) => { write!(f, "[")?; for (i, x) in v.iter().enumerate() { if i > 0 { write!(f, ", ")? } write!(f, "{x}")?; } write!(f, "]") }
      Val::Struct(v) => { write!(f, "{{")?; for (i, x) in v.iter().enumerate() { if i > 0 { write!(f, ", ")? } write!(f, "{x}")?; } write!(f, "}}") }
      Val::Enum(i, p) => { write!(f, "#{i}")?; if let Some(p) = p { write!(f, "({p})")? } Ok(()) }
    }
  }
}

/// Conversion of concrete values, implemented by the generated glue.
pub trait Conv: Sized {
  fn to_val(&self) -> Val;
  fn from_val(v: &Val) -> Self;
}

macro_rules! ints { ($($t:ty)*) => { $(impl Conv for $t {
  fn to_val(&self) -> Val { Val::Int(*self as i128) }
  fn from_val(v: &Val) -> Self { match v { Val::Int(i) => <$t>::try_from(*i).expect("harness: int range"), o => panic!("harness: not an int {o:?}") } }
})* } }
ints!(i8 u8 i16 u16 i32 u32 i64 u64 usize isize);
impl Conv for u128 {
  fn to_val(&self) -> Val { Val::Int(*self as i128) }
  fn from_val(v: &Val) -> Self { match v { Val::Int(i) => *i as u128, o => panic!("harness: not an int {o:?}") } }
}
impl Conv for bool {
  fn to_val(&self) -> Val { Val::Bool(*self) }
  fn from_val(v: &Val) -> Self { match v { Val::Bool(b) => *b, o => panic!("harness: not a bool {o:?}") } }
}
impl Conv for char {
  fn to_val(&self) -> Val { Val::Str(self.to_string()) }
  fn from_val(v: &Val) -> Self { v.str().chars().next().expect("harness: char") }
}
impl Conv for String {
  fn to_val(&self) -> Val { Val::Str(self.clone()) }
  fn from_val(v: &Val) -> Self { v.str().to_string() }
}
impl Conv for f32 {
  fn to_val(&self) -> Val { Val::F32(canon32(*self)) }
  fn from_val(v: &Val) -> Self { match v { Val::F32(b) => f32::from_bits(*b), o => panic!("harness: not an f32 {o:?}") } }
}
impl Conv for f64 {
  fn to_val(&self) -> Val { Val::F64(canon64(*self)) }
  fn from_val(v: &Val) -> Self { match v { Val::F64(b) => f64::from_bits(*b), o => panic!("harness: not an f64 {o:?}") } }
}
impl<T: Conv> Conv for Option<T> {
  fn to_val(&self) -> Val { match self { None => Val::None, Some(v) => Val::some(v.to_val()) } }
  fn from_val(v: &Val) -> Self { match v { Val::None => None, Val::Some(v) => Some(T::from_val(v)), o => panic!("harness: not an option {o:?}") } }
}
impl<T: Conv> Conv for Vec<T> {
  fn to_val(&self) -> Val { Val::List(self.iter().map(|x| x.to_val()).collect()) }
  fn from_val(v: &Val) -> Self { match v { Val::List(v) => v.iter().map(T::from_val).collect(), o => panic!("harness: not a list {o:?}") } }
}
impl<T: Conv> Conv for Box<T> {
  fn to_val(&self) -> Val { (**self).to_val() }
  fn from_val(v: &Val) -> Self { Box::new(T::from_val(v)) }
}
