//! Reference literals: how a value is written, and which texts are values.
use crate::ast::*;
use val::{canon32, canon64, Val};

pub fn is_ws(c: char) -> bool { matches!(c, ' ' | '\t' | '\r' | '\n') }
pub fn trim(s: &str) -> &str { s.trim_matches(is_ws) }

pub fn scalar_lit(v: &Val) -> String {
  match v {
    Val::Str(s) => s.clone(),
    Val::Bool(b) => (if *b { "true" } else { "false" }).to_string(),
    Val::Int(i) => i.to_string(),
    Val::F32(b) => f32::from_bits(*b).to_string(),
    Val::F64(b) => f64::from_bits(*b).to_string(),
    o => panic!("harness: not a scalar {o:?}"),
  }
}

/// An independent statement of the integer grammar: optional sign, decimal digits, in range.
fn int(text: &str, lo: i128, hi: i128) -> Option<i128> {
  let (neg, digits) = match text.as_bytes().first()? {
    b'-' if lo < 0 => (true, &text[1..]),
    b'+' => (false, &text[1..]),
    _ => (false, text),
  };
  if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) { return None }
  let mut n: i128 = 0;
  for b in digits.bytes() {
    n = n * 10 + (b - b'0') as i128;
    if n > (1i128 << 70) { return None }
  }
  let n = if neg { -n } else { n };
  (lo <= n && n <= hi).then_some(n)
}

pub fn parse_scalar(s: Scalar, t: &str) -> Option<Val> {
  Some(match s {
    Str => Val::Str(t.to_string()),
    Chr => { let mut c = t.chars(); match (c.next(), c.next()) { (Some(_), None) => Val::Str(t.to_string()), _ => return None } }
    Bool => Val::Bool(match t { "true" | "1" => true, "false" | "0" => false, _ => return None }),
    F32 => Val::F32(canon32(t.parse::<f32>().ok()?)),
    F64 => Val::F64(canon64(t.parse::<f64>().ok()?)),
    _ => { let (lo, hi) = s.range().unwrap(); Val::Int(int(t, lo, hi)?) }
  })
}

pub fn lit_text(l: Lit, v: &Val) -> String {
  match (l, v) {
    (Lit::Prim(_), v) => scalar_lit(v),
    (Lit::Pair, Val::Struct(x)) => format!("{}~{}", scalar_lit(&x[0]), scalar_lit(&x[1])),
    (Lit::Dur, Val::Int(n)) => format!("PT{n}S"),
    (Lit::Angle, Val::Str(t)) => format!("<{t}>"),
    (Lit::Hex(_), Val::Int(n)) => format!("{n:02X}"),
    (l, v) => panic!("harness: {l:?} of {v:?}"),
  }
}
pub fn lit_parse(l: Lit, t: &str) -> Option<Val> {
  Some(match l {
    // the derived newtype parses with the scalar's own FromStr: booleans are true/false only
    Lit::Prim(Bool) => Val::Bool(match t { "true" => true, "false" => false, _ => return None }),
    Lit::Prim(s) => parse_scalar(s, t)?,
    Lit::Pair => {
      let (a, b) = t.split_once('~')?;
      Val::Struct(vec![parse_scalar(I32, a)?, parse_scalar(U8, b)?])
    }
    Lit::Dur => parse_scalar(U32, t.strip_prefix("PT")?.strip_suffix('S')?)?,
    Lit::Angle => Val::Str(t.strip_prefix('<')?.strip_suffix('>')?.to_string()),
    Lit::Hex(w) => {
      let h = t.strip_prefix('+').unwrap_or(t);
      if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) { return None }
      let h = h.trim_start_matches('0');
      if h.len() > 30 { return None }
      let n = if h.is_empty() { 0 } else { u128::from_str_radix(h, 16).ok()? };
      if w < 128 && n >> w != 0 { return None }
      Val::Int(n as i128)
    }
  })
}

pub fn csv_text(v: &Val) -> String {
  match v { Val::List(x) => x.iter().map(scalar_lit).collect::<Vec<_>>().join(","), o => panic!("harness: {o:?}") }
}
pub fn csv_parse(t: &str) -> Option<Val> {
  if t.is_empty() { return Some(Val::List(vec![])) }
  t.split(',').map(|x| parse_scalar(I32, x)).collect::<Option<Vec<_>>>().map(Val::List)
}
