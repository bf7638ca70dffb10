//! Reference semantics of declarations: value -> tree, tree -> value.
use crate::ast::*;
use crate::lit::*;
use crate::xml::{Elem, Node};
use val::Val;

pub fn default_of(t: &Ty) -> Val {
  match t {
    Ty::S(Str) => Val::s(""),
    Ty::S(Bool) => Val::Bool(false),
    Ty::S(F32) => Val::F32(0),
    Ty::S(F64) => Val::F64(0),
    Ty::S(_) => Val::Int(0),
    Ty::O(_) => Val::None,
    Ty::V(_) => Val::List(vec![]),
    Ty::D(_) => panic!("harness: no default payload of declared type"),
  }
}

impl Schema {
  pub fn default_enum(&self, di: usize) -> Val {
    match &self.decls[di].kind {
      Kind::Enum(vs, k) => Val::Enum(*k, match &vs[*k].pay { Pay::Unit => None, Pay::One(t) => Some(Box::new(default_of(t))), Pay::Named(_) => panic!("harness: default") }),
      _ => panic!("harness: not an enum"),
    }
  }

  pub fn omitted(f: &Field, v: &Val, all: &[Val]) -> bool {
    if f.skip { return true }
    match &f.skip_if {
      Some(SkipIf::Always) => return true,
      Some(SkipIf::Eq(x)) if v.eq_num(x) => return true,
      Some(SkipIf::Other(i, x)) if all[*i].eq_num(x) => return true,
      _ => {}
    }
    matches!(&f.default, Some(dv) if v.eq_num(dv))
  }

  fn name_of(&self, dd: &Decl, prefix: &Option<String>, dflt: &str) -> String {
    match dd.uri_of(prefix) { Some(u) => u.to_string(), None => dflt.to_string() }
  }
  /// The prefix the name is written with.
  fn pre(&self, dd: &Decl, prefix: &Option<String>) -> String {
    if *prefix == dd.default_ns { return String::new() }
    prefix.clone().unwrap_or_default()
  }
  fn attr_ns(&self, dd: &Decl, prefix: &Option<String>) -> String {
    if *prefix == dd.default_ns { return String::new() }
    dd.uri_of(prefix).unwrap_or("").to_string()
  }
  fn enter(&self, dd: &Decl, out: &mut Elem, dflt: &str) -> String {
    let mut r = dflt.to_string();
    for (p, u) in &dd.ns {
      if dd.default_ns.as_ref() == Some(p) { out.decls.push((String::new(), u.clone())); r = u.clone() } else { out.decls.push((p.clone(), u.clone())) }
    }
    r
  }

  /// Root nodes of the document for a value (several only for flattened roots).
  pub fn ser_root(&self, di: usize, v: &Val) -> Vec<Node> {
    let dd = &self.decls[di];
    if dd.flatten {
      let mut e = Elem::new("", crate::xml::FRAGMENT);
      self.ser_content(di, v, &mut e, "");
      return e.kids;
    }
    let mut dflt = String::new();
    if let Some(p) = &dd.default_ns { dflt = dd.uri_of(&Some(p.clone())).unwrap_or("").to_string() }
    let mut e = Elem::new(&self.name_of(dd, &dd.prefix, &dflt), dd.local());
    e.prefix = self.pre(dd, &dd.prefix);
    self.ser_content(di, v, &mut e, "");
    vec![Node::E(e)]
  }

  pub fn ser_content(&self, di: usize, v: &Val, out: &mut Elem, dflt: &str) {
    let dd = &self.decls[di];
    match &dd.kind {
      Kind::Lit(l) => out.push_text(&lit_text(*l, v)),
      Kind::Custom(Custom::Csv) => out.push_text(&csv_text(v)),
      Kind::Custom(Custom::Bag) => {
        let Val::List(items) = v else { panic!("harness: bag {v:?}") };
        for it in items {
          let fs = it.fields();
          let mut e = Elem::new(dflt, fs[0].str());
          e.push_text(fs[1].str());
          out.kids.push(Node::E(e));
        }
      }
      Kind::Struct(fs) => {
        let dflt = self.enter(dd, out, dflt);
        self.ser_fields(dd, fs, v.fields(), out, &dflt);
      }
      Kind::Enum(vs, _) => {
        let dflt = self.enter(dd, out, dflt);
        let Val::Enum(k, p) = v else { panic!("harness: {v:?}") };
        let va = &vs[*k];
        if let Some(t) = &dd.tag { out.attrs.push((String::new(), t.clone(), va.local().to_string())) }
        match &va.pay {
          Pay::Unit => if dd.tag.is_none() {
            let label = match &va.prefix { Some(p) if va.prefix != dd.default_ns => format!("{p}:{}", va.local()), _ => va.local().to_string() };
            out.push_text(&label)
          },
          Pay::Named(fs) => self.ser_fields(dd, fs, p.as_ref().unwrap().fields(), out, &dflt),
          Pay::One(Ty::D(j)) if va.flatten => for n in self.nested_root(*j, p.as_ref().unwrap(), &dflt) { out.kids.push(n) },
          Pay::One(t) => self.ser_elems((&self.name_of(dd, &va.prefix, &dflt), &self.pre(dd, &va.prefix)), va.local(), t, p.as_ref().unwrap(), out, &dflt, false),
        }
      }
    }
  }
  fn nested_root(&self, di: usize, v: &Val, dflt: &str) -> Vec<Node> {
    let dd = &self.decls[di];
    let inner_dflt = match &dd.default_ns { Some(p) => dd.uri_of(&Some(p.clone())).unwrap_or("").to_string(), None => dflt.to_string() };
    let mut e = Elem::new(&self.name_of(dd, &dd.prefix, &inner_dflt), dd.local());
    e.prefix = self.pre(dd, &dd.prefix);
    self.ser_content(di, v, &mut e, dflt);
    vec![Node::E(e)]
  }
  fn ser_fields(&self, dd: &Decl, fs: &[Field], vs: &[Val], out: &mut Elem, dflt: &str) {
    // attributes come first, those of flattened members after the own ones
    let own = fs.iter().zip(vs).filter(|(f, _)| f.pos == Pos::Attr);
    for (f, v) in own.chain(fs.iter().zip(vs).filter(|(f, _)| f.pos != Pos::Attr)) {
      if Self::omitted(f, v, vs) { continue }
      match f.pos {
        Pos::Attr => {
          let t = match v {
            Val::None => continue,
            Val::List(x) if x.is_empty() && matches!(f.ty, Ty::V(_)) => continue,
            Val::List(x) if matches!(f.ty, Ty::V(_)) => x.iter().map(|x| self.attr_text(f.ty.base(), x)).collect::<Vec<_>>().join(" "),
            Val::Some(x) => self.attr_text(f.ty.base(), x),
            x => self.attr_text(f.ty.base(), x),
          };
          out.attrs.push((self.attr_ns(dd, &f.prefix), f.local().to_string(), t));
        }
        Pos::Text => match v { Val::None => {} Val::Some(x) => out.push_text(x.str()), x => out.push_text(x.str()) },
        Pos::Flat => match (v, f.ty.base()) {
          (Val::None, _) => {}
          (Val::Some(x), Ty::D(j)) => self.ser_content(*j, x, out, dflt),
          (Val::List(l), Ty::D(j)) if matches!(f.ty, Ty::V(_)) => for x in l { self.ser_content(*j, x, out, dflt) },
          (x, Ty::D(j)) => self.ser_content(*j, x, out, dflt),
          _ => panic!("harness: flatten of {:?}", f.ty),
        },
        Pos::Elem | Pos::Cdata => self.ser_elems((&self.name_of(dd, &f.prefix, dflt), &self.pre(dd, &f.prefix)), f.local(), &f.ty, v, out, dflt, f.pos == Pos::Cdata),
      }
    }
  }
  fn attr_text(&self, t: &Ty, v: &Val) -> String {
    match t {
      Ty::S(_) => scalar_lit(v),
      Ty::D(j) => {
        let mut e = Elem::new("", "x");
        self.ser_content(*j, v, &mut e, "");
        e.text()
      }
      _ => panic!("harness: attribute type"),
    }
  }
  fn ser_elems(&self, ns: (&str, &str), local: &str, t: &Ty, v: &Val, out: &mut Elem, dflt: &str, cdata: bool) {
    match (t, v) {
      (Ty::O(_), Val::None) => {}
      (Ty::O(t), Val::Some(x)) => self.ser_elems(ns, local, t, x, out, dflt, cdata),
      (Ty::V(t), Val::List(x)) => for x in x { self.ser_elems(ns, local, t, x, out, dflt, cdata) },
      (Ty::S(_), x) => {
        let mut e = Elem::new(ns.0, local);
        e.prefix = ns.1.to_string();
        e.push_text(&scalar_lit(x));
        e.cdata = cdata;
        out.kids.push(Node::E(e));
      }
      (Ty::D(j), x) => {
        let mut e = Elem::new(ns.0, local);
        e.prefix = ns.1.to_string();
        self.ser_content(*j, x, &mut e, dflt);
        out.kids.push(Node::E(e));
      }
      (t, v) => panic!("harness: {t:?} of {v:?}"),
    }
  }

  // ---------------------------------------------------------------- reading

  pub fn de_elem(&self, di: usize, e: &Elem) -> Result<Val, String> {
    let dd = &self.decls[di];
    match &dd.kind {
      Kind::Lit(l) => { let t = match e.kids.first() { Some(Node::T(t)) => t.clone(), _ => String::new() }; lit_parse(*l, trim(&t)).ok_or_else(|| format!("{t:?} is no literal of {}", dd.name)) }
      Kind::Custom(Custom::Csv) => { if e.has_elems() { return Err("elements inside of a csv".into()) } let t = e.text(); csv_parse(trim(&t)).ok_or_else(|| format!("{t:?} is no csv")) }
      Kind::Custom(Custom::Bag) => Ok(Val::List(e.kid_elems().map(|k| Val::Struct(vec![Val::s(&k.local), Val::s(trim(&k.text()))])).collect())),
      Kind::Struct(_) => self.de_struct(di, e, &e.kids.iter().collect::<Vec<_>>()),
      Kind::Enum(..) => self.de_enum(di, e, &e.kids.iter().collect::<Vec<_>>()),
    }
  }

  fn de_struct(&self, di: usize, e: &Elem, kids: &[&Node]) -> Result<Val, String> {
    let dd = &self.decls[di];
    let fs = dd.fields();
    let mut res: Vec<Option<Val>> = vec![];
    let key = |f: &Field| (dd.uri_of(&f.prefix).unwrap_or("").to_string(), f.local().to_string());
    let owned: Vec<_> = fs.iter().filter(|f| matches!(f.pos, Pos::Elem | Pos::Cdata)).map(key).collect();
    let rest: Vec<&Node> = kids.iter().copied().filter(|n| match n { Node::E(k) => !owned.iter().any(|(n, l)| *n == k.ns && *l == k.local), _ => true }).collect();
    for f in fs {
      let mut got: Option<Val> = None;
      let mut many: Vec<Val> = vec![];
      match f.pos {
        Pos::Attr => {
          for (_, l, t) in &e.attrs {
            if l != f.local() { continue }
            match &f.ty {
              Ty::V(b) => for w in t.split_whitespace() { many.push(self.attr_parse(b, w)?) },
              t2 => got = Some(self.attr_parse(t2.base(), t)?),
            }
          }
        }
        Pos::Text => {
          let t: String = kids.iter().filter_map(|n| match n { Node::T(t) => Some(t.as_str()), _ => None }).collect();
          let t = trim(&t);
          got = match &f.ty {
            Ty::O(_) => (!t.is_empty()).then(|| Val::s(t)),
            _ if t.is_empty() && f.default.is_some() => None,
            _ => Some(Val::s(t)),
          };
        }
        Pos::Flat => match (&f.ty, f.ty.base()) {
          (Ty::O(_), Ty::D(j)) => got = self.de_flat(*j, e, &rest).ok(),
          (_, Ty::D(j)) => got = Some(self.de_flat(*j, e, &rest)?),
          _ => panic!("harness: flatten"),
        },
        Pos::Elem | Pos::Cdata => {
          let (n, l) = key(f);
          for k in kids.iter().filter_map(|x| match x { Node::E(k) if k.ns == n && k.local == l => Some(k), _ => None }) {
            let x = match f.ty.base() {
              Ty::S(sc) => { if k.has_elems() { None } else { parse_scalar(*sc, trim(&k.text())) } }
              Ty::D(j) => Some(self.de_elem(*j, k)?),
              _ => unreachable!(),
            };
            if let Some(x) = x { many.push(x.clone()); got = Some(x) }
          }
        }
      }
      res.push(match &f.ty {
        Ty::V(_) => Some(Val::List(many)),
        Ty::O(_) => Some(got.map(Val::some).unwrap_or(Val::None)),
        _ => got.or_else(|| f.default.clone()),
      });
    }
    let mut out = vec![];
    for (f, r) in fs.iter().zip(res) { out.push(r.ok_or_else(|| format!("{} is missing in {}", f.local(), dd.name))?) }
    Ok(Val::Struct(out))
  }
  fn de_flat(&self, di: usize, e: &Elem, rest: &[&Node]) -> Result<Val, String> {
    match &self.decls[di].kind { Kind::Struct(_) => self.de_struct(di, e, rest), Kind::Enum(..) => self.de_enum(di, e, rest), _ => panic!("harness: flatten of {:?}", self.decls[di].kind) }
  }
  fn attr_parse(&self, t: &Ty, text: &str) -> Result<Val, String> {
    match t {
      Ty::S(sc) => parse_scalar(*sc, text).ok_or_else(|| format!("{text:?} is no {}", sc.rust())),
      Ty::D(j) => {
        let mut e = Elem::new("", self.decls[*j].bare());
        e.push_text(text);
        self.de_elem(*j, &e)
      }
      _ => panic!("harness: attribute"),
    }
  }
  fn de_enum(&self, di: usize, e: &Elem, kids: &[&Node]) -> Result<Val, String> {
    let dd = &self.decls[di];
    let Kind::Enum(vs, _) = &dd.kind else { unreachable!() };
    if let Some(tag) = &dd.tag {
      let t = e.attrs.iter().find(|(_, l, _)| l == tag).ok_or("no tag")?;
      return Ok(match vs.iter().position(|v| v.local() == t.2) { Some(k) => Val::Enum(k, None), None => self.default_enum(di) });
    }
    let mut cur: Option<(usize, Option<Box<Val>>)> = None;
    for n in kids {
      let k = match n {
        Node::T(t) => {
          if let Some(k) = vs.iter().position(|v| v.local() == trim(t) && v.pay == Pay::Unit) { return Ok(Val::Enum(k, None)) }
          continue
        }
        Node::E(k) => k,
      };
      let Some(i) = vs.iter().position(|v| v.local() == k.local) else { continue };
      let t = match &vs[i].pay { Pay::Unit => { return Ok(Val::Enum(i, None)) } Pay::One(t) => t, Pay::Named(_) => continue };
      let x = match t.base() {
        Ty::S(sc) => { if k.has_elems() { return Err("elements inside of a scalar payload".into()) } let t = k.text(); parse_scalar(*sc, trim(&t)).ok_or_else(|| format!("{t:?} is no {}", sc.rust()))? }
        Ty::D(j) => self.de_elem(*j, k)?,
        _ => unreachable!(),
      };
      match t {
        Ty::O(_) => cur = Some((i, Some(Box::new(Val::some(x))))),
        Ty::V(_) => match &mut cur {
          None => cur = Some((i, Some(Box::new(Val::List(vec![x]))))),
          Some((j, Some(p))) if *j == i => { if let Val::List(l) = &mut **p { l.push(x) } }
          _ => return Err("sequence of different types".into()),
        },
        _ => cur = Some((i, Some(Box::new(x)))),
      }
    }
    Ok(match cur { Some((i, p)) => Val::Enum(i, p), None => self.default_enum(di) })
  }

  /// What a field that is not in the document reads back as, if anything.
  pub fn restore(&self, f: &Field) -> Option<Val> {
    match (&f.ty, f.pos) {
      (Ty::O(_), _) => Some(Val::None),
      (Ty::V(_), _) => Some(Val::List(vec![])),
      (Ty::D(j), Pos::Flat) => {
        // a flattened member all of whose own fields are restorable
        match &self.decls[*j].kind {
          Kind::Struct(fs) => { if let Some(dv) = &f.default { let _ = dv; } fs.iter().map(|g| self.restore(g)).collect::<Option<Vec<_>>>().map(Val::Struct) }
          Kind::Enum(..) if self.decls[*j].tag.is_none() => Some(self.default_enum(*j)),
          _ => None,
        }
      }
      _ => f.default.clone().or_else(|| (f.pos == Pos::Text).then(|| Val::s(""))),
    }
  }

  /// Maps a value to one that writing followed by reading restores (None: there is none).
  pub fn normalize(&self, di: usize, v: &Val) -> Option<Val> {
    let dd = &self.decls[di];
    Some(match &dd.kind {
      Kind::Lit(Lit::Prim(Str)) => Val::s(trim(v.str())),
      Kind::Lit(_) => v.clone(),
      Kind::Custom(Custom::Csv) => v.clone(),
      Kind::Custom(Custom::Bag) => match v {
        Val::List(x) => Val::List(x.iter().map(|it| Val::Struct(vec![it.fields()[0].clone(), Val::s(trim(it.fields()[1].str()))])).collect()),
        _ => return None,
      },
      Kind::Struct(fs) => {
        let mut out: Vec<Val> = vec![];
        for (f, x) in fs.iter().zip(v.fields()) { out.push(self.norm_ty(&f.ty, x, f.pos)?) }
        // conditions may look at other fields: iterate to a fixed point
        for _ in 0..4 {
          let cur = out.clone();
          for (i, f) in fs.iter().enumerate() {
            if Self::omitted(f, &cur[i], &cur) { out[i] = self.restore(f)?; }
            // an empty text content leaves no trace
            if let (Pos::Text, Ty::S(_), Some(dv)) = (f.pos, &f.ty, &f.default) { if cur[i] == Val::s("") { out[i] = dv.clone() } }
          }
          if out == cur { break }
        }
        for (i, f) in fs.iter().enumerate() {
          if Self::omitted(f, &out[i], &out) && self.restore(f)? != out[i] { return None }
          // a default on an option or sequence is not applied when reading
        }
        Val::Struct(out)
      }
      Kind::Enum(vs, _) => {
        let Val::Enum(k, p) = v else { return None };
        match (&vs[*k].pay, p) {
          (Pay::Unit, _) => { if vs[*k].prefix.is_some() && vs[*k].prefix != dd.default_ns { return None } Val::Enum(*k, None) }
          (Pay::One(Ty::O(t)), Some(p)) => match &**p { Val::Some(x) => Val::Enum(*k, Some(Box::new(Val::some(self.norm_ty(t, x, Pos::Elem)?)))), _ => return None },
          (Pay::One(t), Some(p)) => {
            if matches!(&**p, Val::List(l) if l.is_empty()) { return None }
            Val::Enum(*k, Some(Box::new(self.norm_ty(t, p, Pos::Elem)?)))
          }
          _ => return None,
        }
      }
    })
  }
  fn norm_ty(&self, t: &Ty, v: &Val, pos: Pos) -> Option<Val> {
    Some(match (t, v) {
      (Ty::S(Str), Val::Str(x)) => if pos == Pos::Attr { v.clone() } else { Val::s(trim(x)) },
      (Ty::S(_), v) => v.clone(),
      (Ty::O(_), Val::None) => Val::None,
      (Ty::O(t), Val::Some(x)) => {
        let y = self.norm_ty(t, x, pos)?;
        if pos == Pos::Text && y == Val::s("") { Val::None } else { Val::some(y) }
      }
      (Ty::V(t), Val::List(x)) => {
        let mut l = vec![];
        for y in x { l.push(self.norm_ty(t, y, pos)?) }
        if pos == Pos::Attr {
          // items are separated by white space
          l = l.into_iter().map(|y| self.attr_token(t, y)).collect();
        }
        Val::List(l)
      }
      (Ty::D(j), v) => {
        let y = self.normalize(*j, v)?;
        if pos == Pos::Attr { self.attr_plain(*j, y) } else { y }
      }
      (t, v) => panic!("harness: {t:?} of {v:?}"),
    })
  }
  fn attr_token(&self, t: &Ty, v: Val) -> Val {
    match (t, &v) {
      (Ty::S(Str), Val::Str(x)) => { let y: String = x.chars().filter(|c| !c.is_whitespace()).collect(); Val::Str(if y.is_empty() { "e".into() } else { y }) }
      (Ty::D(j), Val::Str(x)) if matches!(self.decls[*j].kind, Kind::Lit(Lit::Prim(Str))) => {
        let y: String = x.chars().filter(|c| !c.is_whitespace()).collect(); Val::Str(if y.is_empty() { "e".into() } else { y }) }
      _ => v,
    }
  }
  /// Attributes of declared type carry an XML fragment: keep markup characters out (known finding).
  fn attr_plain(&self, j: usize, v: Val) -> Val {
    match (&self.decls[j].kind, &v) {
      (Kind::Lit(Lit::Prim(Str)), Val::Str(x)) => Val::Str(x.chars().filter(|c| !matches!(c, '<' | '>' | '&' | '\r')).collect::<String>().trim_matches(is_ws).to_string()),
      _ => v,
    }
  }
}
