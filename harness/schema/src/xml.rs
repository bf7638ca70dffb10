//! A small strict XML 1.0 + Namespaces reader and a document writer with free lexical choices.
//! Written for this harness; shares no code with xml-rs.

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Elem {
  pub ns: String,
  pub local: String,
  /// (namespace, local, value)
  pub attrs: Vec<(String, String, String)>,
  pub kids: Vec<Node>,
  /// prefix used / namespace declarations seen (parser) or wanted (model)
  pub prefix: String,
  pub decls: Vec<(String, String)>,
  /// every non-empty piece of text directly inside was in a CDATA section
  pub cdata: bool,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Node { E(Elem), T(String) }

impl Elem {
  pub fn new(ns: &str, local: &str) -> Elem { Elem { ns: ns.into(), local: local.into(), ..Default::default() } }
  pub fn kid_elems(&self) -> impl Iterator<Item = &Elem> { self.kids.iter().filter_map(|n| match n { Node::E(e) => Some(e), _ => None }) }
  pub fn text(&self) -> String { self.kids.iter().filter_map(|n| match n { Node::T(t) => Some(t.as_str()), _ => None }).collect() }
  pub fn has_elems(&self) -> bool { self.kid_elems().next().is_some() }
  pub fn push_text(&mut self, t: &str) {
    if t.is_empty() { return }
    if let Some(Node::T(x)) = self.kids.last_mut() { x.push_str(t) } else { self.kids.push(Node::T(t.into())) }
  }
  /// element content only: white space between child elements is not data
  pub fn strip_ws(&mut self) {
    if self.has_elems() {
      self.kids.retain(|n| match n { Node::T(t) => !t.chars().all(crate::lit::is_ws), _ => true });
    }
    for n in &mut self.kids { if let Node::E(e) = n { e.strip_ws() } }
  }
  pub fn count(&self) -> usize { 1 + self.kid_elems().map(|e| e.count()).sum::<usize>() }
  pub fn depth(&self) -> usize { 1 + self.kid_elems().map(|e| e.depth()).max().unwrap_or(0) }
  pub fn show(&self) -> String {
    let mut o = String::new();
    self.show_into(&mut o);
    o
  }
  fn show_into(&self, o: &mut String) {
    o.push('<');
    if !self.ns.is_empty() { o.push_str(&format!("{{{}}}", self.ns)) }
    o.push_str(&self.local);
    let mut a: Vec<_> = self.attrs.iter().collect();
    a.sort();
    for (n, l, v) in a {
      o.push(' ');
      if !n.is_empty() { o.push_str(&format!("{{{n}}}")) }
      o.push_str(&format!("{l}={v:?}"));
    }
    o.push('>');
    for k in &self.kids { match k { Node::E(e) => e.show_into(o), Node::T(t) => o.push_str(&format!("{t:?}")) } }
    o.push_str("</>");
  }
}

/// The prefixes names are written with, where both trees have the same shape.
pub fn diff_prefixes(want: &Elem, got: &Elem, path: &str) -> Result<(), String> {
  let path = format!("{path}/{}", want.local);
  if want.prefix != got.prefix { return Err(format!("{path}: expected prefix {:?}, found {:?}", want.prefix, got.prefix)) }
  for (a, b) in want.kid_elems().zip(got.kid_elems()) { diff_prefixes(a, b, &path)? }
  Ok(())
}
/// The elements that must be written as CDATA sections, and no other.
pub fn diff_cdata(want: &Elem, got: &Elem, path: &str) -> Result<(), String> {
  let path = format!("{path}/{}", want.local);
  if want.cdata && !want.kids.is_empty() && !got.cdata { return Err(format!("{path}: expected a CDATA section")) }
  if !want.cdata && got.cdata { return Err(format!("{path}: unexpected CDATA section")) }
  for (a, b) in want.kid_elems().zip(got.kid_elems()) { diff_cdata(a, b, &path)? }
  Ok(())
}

/// The order of attributes, where both trees are equal.
pub fn diff_order(want: &Elem, got: &Elem, path: &str) -> Result<(), String> {
  let path = format!("{path}/{}", want.local);
  if want.attrs != got.attrs { return Err(format!("{path}: expected the attributes in the order {:?}, found {:?}", want.attrs, got.attrs)) }
  for (a, b) in want.kid_elems().zip(got.kid_elems()) { diff_order(a, b, &path)? }
  Ok(())
}

/// Structural equality: expanded names, attributes as a set, children in order.
pub fn diff(want: &Elem, got: &Elem, path: &str) -> Result<(), String> {
  let path = format!("{path}/{}", want.local);
  if (&want.ns, &want.local) != (&got.ns, &got.local) {
    return Err(format!("{path}: expected element {{{}}}{}, found {{{}}}{}", want.ns, want.local, got.ns, got.local));
  }
  let mut a = want.attrs.clone();
  let mut b = got.attrs.clone();
  a.sort();
  b.sort();
  if a != b { return Err(format!("{path}: expected attributes {a:?}, found {b:?}")) }
  if want.kids.len() != got.kids.len() {
    return Err(format!("{path}: expected content {}, found {}", want.show(), got.show()));
  }
  for (x, y) in want.kids.iter().zip(&got.kids) {
    match (x, y) {
      (Node::T(s), Node::T(t)) => if s != t { return Err(format!("{path}: expected text {s:?}, found {t:?}")) },
      (Node::E(e), Node::E(g)) => diff(e, g, &path)?,
      _ => return Err(format!("{path}: expected content {}, found {}", want.show(), got.show())),
    }
  }
  Ok(())
}

pub fn xml_char(c: char) -> bool {
  matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn name_start(c: char) -> bool {
  matches!(c, ':' | 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}'
    | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
    | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
fn name_char(c: char) -> bool {
  name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

pub struct Doc { pub roots: Vec<Elem>, pub declaration: bool, /// text outside of any element (not allowed in a document)
  pub stray: String,
  /// byte offsets: start of the root's content, end of it, end of the root element
  pub inner: (usize, usize), pub root_end: usize }

struct P<'a> { s: &'a str, i: usize, scopes: Vec<Vec<(String, String)>> }
type R<T> = Result<T, String>;
impl<'a> P<'a> {
  fn rest(&self) -> &'a str { &self.s[self.i..] }
  fn err<T>(&self, m: &str) -> R<T> { Err(format!("not well-formed at byte {}: {m}", self.i)) }
  fn eat(&mut self, p: &str) -> bool { if self.rest().starts_with(p) { self.i += p.len(); true } else { false } }
  fn ws(&mut self) -> bool { let n = self.rest().len() - self.rest().trim_start_matches(crate::lit::is_ws).len(); self.i += n; n > 0 }
  fn name(&mut self) -> R<&'a str> {
    let r = self.rest();
    let mut it = r.char_indices();
    match it.next() { Some((_, c)) if name_start(c) => {} _ => return self.err("name expected") }
    let end = it.find(|(_, c)| !name_char(*c)).map(|(i, _)| i).unwrap_or(r.len());
    self.i += end;
    Ok(&r[..end])
  }
  fn until(&mut self, end: &str) -> R<&'a str> {
    match self.rest().find(end) {
      Some(n) => { let t = &self.rest()[..n]; self.i += n + end.len(); if t.chars().all(xml_char) { Ok(t) } else { self.err("illegal character") } }
      None => self.err(&format!("{end} expected")),
    }
  }
  fn reference(&mut self) -> R<char> {
    // after '&'
    let t = self.until(";")?;
    let c = match t {
      "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'',
      _ => {
        let n = if let Some(h) = t.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else if let Some(d) = t.strip_prefix('#') { d.parse().ok() } else { None };
        match n.and_then(char::from_u32) { Some(c) if xml_char(c) => c, _ => return self.err(&format!("bad reference &{t};")) }
      }
    };
    Ok(c)
  }
  fn misc(&mut self) -> R<bool> {
    // comment or processing instruction
    if self.eat("<!--") {
      let t = self.until("--")?;
      let _ = t;
      if !self.eat(">") { return self.err("-- in comment") }
      return Ok(true);
    }
    if self.rest().starts_with("<?") {
      self.i += 2;
      let n = self.name()?;
      if n.eq_ignore_ascii_case("xml") { return self.err("xml declaration not at start") }
      self.until("?>")?;
      return Ok(true);
    }
    Ok(false)
  }
  fn lookup(&self, prefix: &str) -> Option<String> {
    if prefix == "xml" { return Some("http://www.w3.org/XML/1998/namespace".into()) }
    self.scopes.iter().rev().flat_map(|sc| sc.iter().rev()).find(|(p, _)| p == prefix).map(|(_, u)| u.clone())
  }
  fn element(&mut self, inner: &mut (usize, usize)) -> R<Elem> {
    // at '<'
    self.i += 1;
    let qname = self.name()?;
    let mut raw: Vec<(String, String)> = vec![];
    let empty;
    loop {
      let sp = self.ws();
      if self.eat("/>") { empty = true; break }
      if self.eat(">") { empty = false; break }
      if !sp { return self.err("white space expected between attributes") }
      let n = self.name()?.to_string();
      self.ws();
      if !self.eat("=") { return self.err("= expected") }
      self.ws();
      let q = if self.eat("\"") { '"' } else if self.eat("'") { '\'' } else { return self.err("quote expected") };
      let mut v = String::new();
      loop {
        let Some(c) = self.rest().chars().next() else { return self.err("unterminated attribute") };
        if c == '<' { return self.err("< in attribute value") }
        if !xml_char(c) { return self.err("illegal character in attribute") }
        self.i += c.len_utf8();
        if c == q { break }
        match c {
          '&' => v.push(self.reference()?),
          '\r' => { if !self.rest().starts_with('\n') { v.push(' ') } }
          '\n' | '\t' => v.push(' '),
          c => v.push(c),
        }
      }
      if raw.iter().any(|(m, _)| *m == n) { return self.err("duplicate attribute") }
      raw.push((n, v));
    }
    let mut scope = vec![];
    for (n, v) in &raw {
      if n == "xmlns" { scope.push((String::new(), v.clone())) }
      else if let Some(p) = n.strip_prefix("xmlns:") {
        if p.is_empty() || v.is_empty() { return self.err("empty namespace binding") }
        scope.push((p.to_string(), v.clone()))
      }
    }
    self.scopes.push(scope.clone());
    let (prefix, local) = qname.split_once(':').unwrap_or(("", qname));
    if local.is_empty() || local.contains(':') { return self.err("bad qualified name") }
    let ns = match self.lookup(prefix) { Some(u) => u, None if prefix.is_empty() => String::new(), None => return self.err(&format!("unbound prefix {prefix}")) };
    let mut e = Elem { ns, local: local.into(), prefix: prefix.into(), decls: scope, ..Default::default() };
    for (n, v) in raw {
      if n == "xmlns" || n.starts_with("xmlns:") { continue }
      let (p, l) = n.split_once(':').unwrap_or(("", &n));
      if l.is_empty() || l.contains(':') { return self.err("bad qualified attribute name") }
      let ns = if p.is_empty() { String::new() } else { match self.lookup(p) { Some(u) => u, None => return self.err(&format!("unbound prefix {p}")) } };
      if e.attrs.iter().any(|(m, k, _)| *m == ns && k == l) { return self.err("duplicate expanded attribute") }
      e.attrs.push((ns, l.to_string(), v));
    }
    inner.0 = self.i;
    inner.1 = self.i;
    if !empty {
      let mut plain = false;
      let mut cd = false;
      loop {
        if self.rest().is_empty() { return self.err("element not closed") }
        if self.rest().starts_with("</") {
          inner.1 = self.i;
          self.i += 2;
          let n = self.name()?;
          if n != qname { return self.err(&format!("end tag {n} for {qname}")) }
          self.ws();
          if !self.eat(">") { return self.err("> expected") }
          break;
        }
        if self.eat("<![CDATA[") { let t = self.until("]]>")?; cd = true; let t = t.replace("\r\n", "\n").replace('\r', "\n"); e.push_text(&t); continue }
        if self.misc()? { continue }
        if self.rest().starts_with('<') { let mut x = (0, 0); let k = self.element(&mut x)?; e.kids.push(Node::E(k)); continue }
        if self.rest().starts_with("]]>") { return self.err("]]> in text") }
        let c = self.rest().chars().next().unwrap();
        if !xml_char(c) { return self.err("illegal character in text") }
        self.i += c.len_utf8();
        let c = match c { '&' => self.reference()?, '\r' => { if self.rest().starts_with('\n') { continue } '\n' } c => c };
        plain = true;
        e.push_text(c.encode_utf8(&mut [0; 4]));
      }
      e.cdata = cd && !plain;
    }
    self.scopes.pop();
    Ok(e)
  }
}

/// `bound`: namespace bindings in scope from outside (for fragments).
pub fn parse(s: &str, fragment: bool, bound: &[(String, String)]) -> Result<Doc, String> {
  let mut p = P { s, i: 0, scopes: vec![bound.to_vec()] };
  let mut declaration = false;
  p.eat("\u{feff}");
  if p.rest().starts_with("<?xml") && p.rest()[5..].starts_with(crate::lit::is_ws) {
    let t = { p.i += 5; p.until("?>")? };
    let t = crate::lit::trim(t).replace('\'', "\"");
    if !t.starts_with("version=\"1.0\"") && !t.starts_with("version=\"1.1\"") { return p.err("bad declaration") }
    declaration = true;
  }
  let mut d = Doc { roots: vec![], declaration, stray: String::new(), inner: (0, 0), root_end: 0 };
  while !p.rest().is_empty() {
    if p.ws() { continue }
    if p.misc()? { continue }
    if d.roots.is_empty() && p.eat("<!DOCTYPE") {
      // no internal subset with '>' is produced by this harness
      p.until(">")?;
      continue;
    }
    if p.rest().starts_with('<') {
      if !d.roots.is_empty() && !fragment { return p.err("second root element") }
      let mut x = (0, 0);
      let e = p.element(&mut x)?;
      d.roots.push(e);
      d.inner = x;
      d.root_end = p.i;
      continue;
    }
    if !fragment { return p.err("text outside of the root element") }
    let c = p.rest().chars().next().unwrap();
    p.i += c.len_utf8();
    d.stray.push(c);
  }
  if d.roots.is_empty() && !fragment { return p.err("no root element") }
  Ok(d)
}

/// Source of lexical choices: 0 always means the plain form.
pub struct Ent<'a> { pub d: &'a [u16], pub i: usize, pub used: usize }
impl<'a> Ent<'a> {
  pub fn new(d: &'a [u16]) -> Ent<'a> { Ent { d, i: 0, used: 0 } }
  pub fn raw(&mut self) -> u16 { let x = self.d.get(self.i).copied().unwrap_or(0); self.i += 1; x }
  /// 0..n, small values of the source give 0
  pub fn pick(&mut self, n: usize) -> usize { let x = self.raw() as usize % n.max(1); if x != 0 { self.used += 1 } x }
  pub fn chance(&mut self, num: usize, den: usize) -> bool { let x = self.pick(den); x != 0 && x <= num }
}

#[derive(Clone, Copy, PartialEq)]
pub struct Style {
  /// random quotes, spaces, references, CDATA, empty tags, declarations
  pub lexical: bool,
  /// random prefixes for namespaces
  pub prefixes: bool,
  /// comments and processing instructions and white space between elements of element-only content
  pub misc: bool,
  /// the default namespace may be used, too (with `prefixes`)
  pub dflt: bool,
}
pub const PLAIN: Style = Style { lexical: false, prefixes: false, misc: false, dflt: false };

fn ref_of(c: char, en: &mut Ent) -> String {
  match en.pick(3) { 0 => format!("&#{};", c as u32), 1 => format!("&#x{:x};", c as u32), _ => format!("&#x{:04X};", c as u32) }
}
fn put_text(t: &str, st: &Style, en: &mut Ent, o: &mut String) {
  if st.lexical {
    match en.pick(6) {
      1 if !t.contains('\r') && !t.contains("]]>") => { o.push_str("<![CDATA["); o.push_str(t); o.push_str("]]>"); return }
      2 if !t.contains('\r') && !t.contains("]]>") && t.chars().count() > 1 => {
        // split between plain and CDATA
        let n = t.chars().count();
        let k = 1 + en.pick(n - 1);
        let cut = t.char_indices().nth(k.min(n - 1)).unwrap().0;
        esc_text(&t[..cut], st, en, o);
        o.push_str("<![CDATA[");
        o.push_str(&t[cut..]);
        o.push_str("]]>");
        return;
      }
      3 if t.chars().count() > 1 => {
        // comment inside the text
        let n = t.chars().count();
        let k = 1 + en.pick(n - 1);
        let cut = t.char_indices().nth(k.min(n - 1)).unwrap().0;
        esc_text(&t[..cut], st, en, o);
        o.push_str("<!-- <x> & -->");
        esc_text(&t[cut..], st, en, o);
        return;
      }
      _ => {}
    }
  }
  esc_text(t, st, en, o);
}
fn esc_text(t: &str, st: &Style, en: &mut Ent, o: &mut String) {
  for c in t.chars() {
    match c {
      '&' => o.push_str(if st.lexical && en.chance(1, 3) { "&#38;" } else { "&amp;" }),
      '<' => o.push_str("&lt;"),
      '>' => o.push_str("&gt;"),
      '\r' => o.push_str("&#13;"),
      c if st.lexical && en.chance(1, 12) => o.push_str(&ref_of(c, en)),
      c => o.push(c),
    }
  }
}
fn put_attr(n: &str, v: &str, st: &Style, en: &mut Ent, o: &mut String) {
  let q = if st.lexical && en.chance(1, 2) { '\'' } else { '"' };
  o.push_str(n);
  if st.lexical && en.chance(1, 6) { o.push_str(" \n=\t") } else { o.push('=') }
  o.push(q);
  for c in v.chars() {
    match c {
      '&' => o.push_str("&amp;"), '<' => o.push_str("&lt;"), '"' if q == '"' => o.push_str("&quot;"), '\'' if q == '\'' => o.push_str("&apos;"),
      '\n' => o.push_str("&#10;"), '\t' => o.push_str("&#9;"), '\r' => o.push_str("&#xD;"),
      c if st.lexical && en.chance(1, 12) => o.push_str(&ref_of(c, en)),
      c => o.push(c),
    }
  }
  o.push(q);
}
fn put_misc(st: &Style, en: &mut Ent, o: &mut String) {
  if !st.misc { return }
  loop {
    match en.pick(12) {
      1 => o.push_str("<!--c-->"),
      2 => o.push_str("<?pi some data?>"),
      3 => o.push_str("\n   "),
      4 => o.push_str("<!-- <a>1</a> <b x='1'> & ]]> -->"),
      5 => o.push_str("<?x?>"),
      6 => o.push_str("\r\n\t"),
      _ => return,
    }
  }
}

const PREFIX_POOL: [&str; 8] = ["a", "b", "c", "p", "q", "r", "ns0", "x-y"];

fn put_elem(e: &Elem, st: &Style, en: &mut Ent, scope: &mut Vec<(String, String)>, o: &mut String) {
  // scope: visible bindings, later entries shadow earlier ones; ("", "") means no default namespace
  let base = scope.len();
  let visible = |scope: &[(String, String)], p: &str| scope.iter().rev().find(|(q, _)| q == p).map(|(_, u)| u.clone());
  let mut decls: Vec<(String, String)> = vec![];
  let mut fresh = 0;
  let mut bind = |u: &str, attr: bool, scope: &mut Vec<(String, String)>, decls: &mut Vec<(String, String)>, en: &mut Ent| -> String {
    if u.is_empty() {
      if !attr && visible(scope, "").is_some_and(|x| !x.is_empty()) {
        scope.push((String::new(), String::new()));
        decls.push((String::new(), String::new()));
      }
      return String::new();
    }
    let reuse = !(st.prefixes && en.chance(1, 3));
    if reuse {
      let found = scope.iter().rev().find(|(p, x)| x == u && (!attr || !p.is_empty()) && visible(scope, p).as_deref() == Some(u)).map(|(p, _)| p.clone());
      if let Some(p) = found { return p }
    }
    let mut cand: Vec<String> = vec![];
    if st.prefixes {
      if st.dflt && !attr && en.chance(1, 4) && !decls.iter().any(|(p, _)| p.is_empty()) { cand.push(String::new()) }
      let k = en.pick(PREFIX_POOL.len());
      cand.push(PREFIX_POOL[k].to_string());
    } else if let Some((_, p)) = KNOWN.iter().find(|(x, _)| *x == u) { cand.push(p.to_string()) }
    loop {
      let p = cand.pop().unwrap_or_else(|| { fresh += 1; format!("n{}{}", fresh, base) });
      if decls.iter().any(|(q, x)| *q == p && x != u) { continue }
      if !decls.iter().any(|(q, _)| *q == p) { decls.push((p.clone(), u.to_string())) }
      scope.push((p.clone(), u.to_string()));
      return p;
    }
  };
  // extra, unused or redundant declarations
  if st.prefixes && en.chance(1, 8) {
    let p = PREFIX_POOL[en.pick(PREFIX_POOL.len())].to_string();
    decls.push((p.clone(), "urn:unused".into()));
    scope.push((p, "urn:unused".into()));
  }
  // element name first: it may bind the default namespace, attributes never use it
  let mut ep = bind(&e.ns, false, scope, &mut decls, en);
  let aps: Vec<String> = e.attrs.iter().map(|(n, _, _)| bind(n, true, scope, &mut decls, en)).collect();
  let mut aps = aps;
  // a later declaration may have shadowed a prefix chosen earlier: fall back to fresh prefixes
  let ok = visible(scope, &ep).unwrap_or_default() == e.ns
    && e.attrs.iter().zip(&aps).all(|((n, _, _), p)| if p.is_empty() { n.is_empty() } else { visible(scope, p).as_deref() == Some(n.as_str()) });
  if !ok {
    scope.truncate(base);
    decls.clear();
    let mut k = 0;
    let mut mk = |u: &str, scope: &mut Vec<(String, String)>, decls: &mut Vec<(String, String)>| -> String {
      if let Some((p, _)) = decls.iter().find(|(p, x)| !p.is_empty() && x == u) { return p.clone() }
      k += 1;
      let p = format!("z{base}-{k}");
      decls.push((p.clone(), u.to_string()));
      scope.push((p.clone(), u.to_string()));
      p
    };
    ep = if e.ns.is_empty() {
      if visible(scope, "").is_some_and(|x| !x.is_empty()) { scope.push((String::new(), String::new())); decls.push((String::new(), String::new())); }
      String::new()
    } else { mk(&e.ns, scope, &mut decls) };
    aps = e.attrs.iter().map(|(n, _, _)| if n.is_empty() { String::new() } else { mk(n, scope, &mut decls) }).collect();
  }
  let q = |p: &str, l: &str| if p.is_empty() { l.to_string() } else { format!("{p}:{l}") };
  let name = q(&ep, &e.local);
  o.push('<');
  o.push_str(&name);
  let mut pieces: Vec<String> = vec![];
  for (p, u) in &decls {
    let mut t = String::new();
    put_attr(&if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{p}") }, u, &PLAIN, en, &mut t);
    pieces.push(t);
  }
  for ((_, l, v), p) in e.attrs.iter().zip(&aps) {
    let mut t = String::new();
    put_attr(&q(p, l), v, st, en, &mut t);
    pieces.push(t);
  }
  if st.lexical && pieces.len() > 1 { let k = en.pick(pieces.len()); pieces.rotate_left(k) }
  for t in pieces { o.push_str(if st.lexical && en.chance(1, 6) { "\n\t" } else { " " }); o.push_str(&t) }
  if st.lexical && en.chance(1, 6) { o.push(' ') }
  if e.kids.is_empty() && st.lexical && !en.chance(1, 2) {
    o.push_str("/>");
  } else {
    o.push('>');
    let only_elems = e.has_elems() && e.text().chars().all(crate::lit::is_ws);
    for k in &e.kids {
      if only_elems { put_misc(st, en, o) }
      match k { Node::E(c) => put_elem(c, st, en, scope, o), Node::T(t) => put_text(t, st, en, o) }
    }
    if only_elems { put_misc(st, en, o) }
    o.push_str("</");
    o.push_str(&name);
    if st.lexical && en.chance(1, 8) { o.push_str("\n ") }
    o.push('>');
  }
  scope.truncate(base);
}
const KNOWN: [(&str, &str); 5] = [("urn:p", "p"), ("http://example.com/q#x", "q"), ("http://example.com/ns/r/2.0", "r"), ("urn:long:name:space:with:many:parts:1", "nsx"), ("urn:P", "P")];

/// Name of the tree that holds the top level elements of a flattened root.
pub const FRAGMENT: &str = "#fragment";

/// Writes a document for the tree. Returns it with the byte offset of the end of the root element.
pub fn render(e: &Elem, st: &Style, en: &mut Ent) -> (String, usize) {
  let mut o = String::new();
  if st.lexical {
    if en.chance(1, 8) { o.push('\u{feff}') }
    match en.pick(5) {
      1 => o.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>"),
      2 => o.push_str("<?xml version='1.0' encoding='UTF-8' standalone='yes'?>\n"),
      3 => o.push_str("<?xml version=\"1.0\"?>"),
      _ => {}
    }
    if en.chance(1, 8) { o.push_str("<!DOCTYPE anything>") }
    if en.chance(1, 8) { o.push_str("<!-- prolog --><?pi?>\n") }
  }
  if e.local == FRAGMENT { for k in e.kid_elems() { put_elem(k, st, en, &mut vec![], &mut o) } } else { put_elem(e, st, en, &mut vec![], &mut o) }
  let end = o.len();
  if st.lexical {
    if en.chance(1, 8) { o.push_str("\n<!-- epilog -->\n") }
    if en.chance(1, 8) { o.push_str("<?end?>") }
  }
  (o, end)
}
