//! Declarations as Rust source.
use crate::ast::*;
use std::fmt::Write;
use val::Val;

fn quoted(s: &str) -> String { format!("{s:?}") }

/// Which of the two derives the source asks for.
#[derive(Clone, Copy)]
pub struct Half { pub ser: bool, pub de: bool }

/// How the settings are spread does not matter: vary it with the declaration.
fn annotation(dd: &Decl, a: Vec<String>) -> String {
  match (a.len(), dd.name.bytes().map(usize::from).sum::<usize>() % 5) {
    (0, 0) => "#[yaserde()]".to_string(),
    (0, _) => String::new(),
    (_, 0) => format!("#[yaserde()] {}", a.iter().map(|x| format!("#[yaserde({x})]")).collect::<Vec<_>>().join(" #[allow(unused)] ")),
    (_, 1) => format!("#[yaserde({},)]", a.join(", ")),
    (_, 2) if a.len() > 1 => format!("#[yaserde({},)] #[yaserde({},)]", a[0], a[1..].join(", ")),
    _ => format!("#[yaserde({})]", a.join(", ")),
  }
}

impl Schema {
  /// A Rust expression of type `t` with value `v`.
  pub fn expr(&self, t: &Ty, v: &Val) -> String {
    match (t, v) {
      (Ty::S(Str), Val::Str(x)) => format!("{}.to_string()", quoted(x)),
      (Ty::S(Bool), Val::Bool(b)) => b.to_string(),
      (Ty::S(F32), Val::F32(b)) => format!("f32::from_bits({b})"),
      (Ty::S(F64), Val::F64(b)) => format!("f64::from_bits({b})"),
      (Ty::S(s), Val::Int(i)) => format!("{i}{}", s.rust()),
      (Ty::O(_), Val::None) => "::std::option::Option::None".into(),
      (Ty::O(t), Val::Some(x)) => format!("::std::option::Option::Some({})", self.expr(t, x)),
      (Ty::V(t), Val::List(x)) => format!("::std::vec![{}]", x.iter().map(|x| self.expr(t, x)).collect::<Vec<_>>().join(", ")),
      (Ty::D(i), v) => {
        let dd = &self.decls[*i];
        match (&dd.kind, v) {
          (Kind::Struct(fs), Val::Struct(x)) => format!("{} {{ {} }}", dd.rust(), fs.iter().zip(x).map(|(f, x)| format!("{}: {}", f.ident, self.expr(&f.ty, x))).collect::<Vec<_>>().join(", ")),
          (Kind::Enum(vs, _), Val::Enum(k, p)) => match (&vs[*k].pay, p) {
            (Pay::Unit, _) => format!("{}::{}", dd.rust(), vs[*k].ident),
            (Pay::One(t), Some(p)) => format!("{}::{}({})", dd.rust(), vs[*k].ident, self.expr(t, p)),
            (p, v) => panic!("harness: expr {p:?} {v:?}"),
          },
          (Kind::Lit(Lit::Prim(s)), v) => format!("{}({})", dd.rust(), self.expr(&Ty::S(*s), v)),
          (_, v) => { let mut o = String::new(); v.enc(&mut o); format!("<{} as glue::Conv>::from_val(&glue::Val::dec(&mut {}.split_whitespace()).unwrap())", dd.rust(), quoted(&o)) }
        }
      }
      (t, v) => panic!("harness: expr {t:?} {v:?}"),
    }
  }

  fn field_attr(&self, dd: &Decl, i: usize, f: &Field) -> String {
    let mut a: Vec<String> = vec![];
    match f.pos { Pos::Attr => a.push("attribute = true".into()), Pos::Text => a.push("text = true".into()), Pos::Cdata => a.push("cdata = true".into()), Pos::Flat => a.push("flatten = true".into()), Pos::Elem => {} }
    if let Some(r) = &f.rename { a.push(format!("rename = {}", quoted(r))) }
    if let Some(p) = &f.prefix { a.push(format!("prefix = {}", quoted(p))) }
    if f.default.is_some() { a.push(format!("default = \"dflt_{}_{i}\"", dd.bare())) }
    if f.skip { a.push("skip_serializing = true".into()) }
    if f.skip_if.is_some() { a.push(format!("skip_serializing_if = \"skip_{i}\"")) }
    // the order of annotations does not matter: vary it with the field
    if i % 2 == 1 { a.reverse() }
    annotation(dd, a) + " "
  }
  fn head_attr(&self, dd: &Decl) -> String {
    let mut a: Vec<String> = vec![];
    if let Some(r) = &dd.rename { a.push(format!("rename = {}", quoted(r))) }
    if let Some(p) = &dd.prefix { a.push(format!("prefix = {}", quoted(p))) }
    if let Some(p) = &dd.default_ns { a.push(format!("default_namespace = {}", quoted(p))) }
    if !dd.ns.is_empty() { a.push(format!("namespaces = {{ {} }}", dd.ns.iter().map(|(p, u)| format!("{} = {}", quoted(p), quoted(u))).collect::<Vec<_>>().join(", "))) }
    if dd.flatten { a.push("flatten = true".into()) }
    if let Some(t) = &dd.tag { a.push(format!("tag = {}", quoted(t))) }
    annotation(dd, a) + "\n"
  }
  pub fn ty_src(&self, f: &Field) -> String { f.spelled.clone().unwrap_or_else(|| self.ty_rust(&f.ty)) }

  fn helpers(&self, dd: &Decl) -> String {
    let mut o = String::new();
    let Kind::Struct(fs) = &dd.kind else { return o };
    let mut methods = String::new();
    for (i, f) in fs.iter().enumerate() {
      if let Some(v) = &f.default {
        writeln!(o, "fn dflt_{}_{i}() -> {} {{ {} }}", dd.bare(), self.ty_src(f), self.expr(&f.ty, v)).unwrap();
      }
      if let Some(c) = &f.skip_if {
        let body = match c {
          SkipIf::Always => "true".to_string(),
          SkipIf::Never => "false".to_string(),
          SkipIf::Eq(v) => format!("let wanted: {} = {}; *value == wanted", self.ty_src(f), self.expr(&f.ty, v)),
          SkipIf::Other(j, v) => format!("let wanted: {} = {}; self.{} == wanted", self.ty_src(&fs[*j]), self.expr(&fs[*j].ty, v), fs[*j].ident),
        };
        writeln!(methods, "fn skip_{i}(&self, value: &{}) -> bool {{ {body} }}", self.ty_src(f)).unwrap();
      }
    }
    if !methods.is_empty() { writeln!(o, "impl {} {{ {methods} }}", dd.rust()).unwrap() }
    o
  }

  fn body(&self, dd: &Decl, half: Half) -> String {
    let mut o = String::new();
    let mut derives = vec!["PartialEq", "Debug"];
    if half.ser { derives.push("YaSerialize") }
    if half.de { derives.push("YaDeserialize") }
    match &dd.kind {
      Kind::Struct(fs) => {
        writeln!(o, "#[derive({})]\n{}pub struct {} {{", derives.join(", "), self.head_attr(dd), dd.name).unwrap();
        for (i, f) in fs.iter().enumerate() { writeln!(o, "  {}pub {}: {},", self.field_attr(dd, i, f), f.ident, self.ty_src(f)).unwrap() }
        writeln!(o, "}}").unwrap();
        o.push_str(&self.helpers(dd));
      }
      Kind::Enum(vs, k) => {
        writeln!(o, "#[derive({})]\n{}pub enum {} {{", derives.join(", "), self.head_attr(dd), dd.name).unwrap();
        for v in vs {
          let mut a = vec![];
          if let Some(r) = &v.rename { a.push(format!("rename = {}", quoted(r))) }
          if let Some(p) = &v.prefix { a.push(format!("prefix = {}", quoted(p))) }
          if v.flatten { a.push("flatten = true".into()) }
          let a = annotation(dd, a) + " ";
          match &v.pay {
            Pay::Unit => writeln!(o, "  {a}{},", v.ident).unwrap(),
            Pay::One(t) => writeln!(o, "  {a}{}({}),", v.ident, self.ty_rust(t)).unwrap(),
            Pay::Named(fs) => writeln!(o, "  {a}{} {{ {} }},", v.ident, fs.iter().enumerate().map(|(i, f)| format!("{}{}: {}", self.field_attr(dd, i, f), f.ident, self.ty_src(f))).collect::<Vec<_>>().join(", ")).unwrap(),
          }
        }
        writeln!(o, "}}").unwrap();
        let dv = match &vs[*k].pay {
          Pay::Unit => format!("{}::{}", dd.name, vs[*k].ident),
          Pay::One(_) => format!("{}::{}(::std::default::Default::default())", dd.name, vs[*k].ident),
          Pay::Named(_) => panic!("harness: default"),
        };
        writeln!(o, "impl ::std::default::Default for {} {{ fn default() -> Self {{ {dv} }} }}", dd.name).unwrap();
      }
      Kind::Lit(l) => {
        let n = &dd.name;
        match l {
          Lit::Prim(s) => writeln!(o, "#[derive(PartialEq, Debug, PrimitiveYaSerde)]\npub struct {n}(pub {});", s.rust()).unwrap(),
          Lit::Pair => writeln!(o, "#[derive(PartialEq, Debug, DefaultYaSerde)]\npub struct {n} {{ pub a: i32, pub b: u8 }}\n\
            impl ::std::fmt::Display for {n} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ write!(f, \"{{}}~{{}}\", self.a, self.b) }} }}\n\
            impl ::std::str::FromStr for {n} {{ type Err = ::std::string::String; fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {{\n\
              let (a, b) = s.split_once('~').ok_or(\"no ~\")?; Ok({n} {{ a: a.parse().map_err(|_| \"bad a\")?, b: b.parse().map_err(|_| \"bad b\")? }}) }} }}").unwrap(),
          Lit::Dur => writeln!(o, "#[derive(PartialEq, Debug, DefaultYaSerde)]\npub struct {n}(pub u32);\n\
            impl ::std::fmt::Display for {n} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ write!(f, \"PT{{}}S\", self.0) }} }}\n\
            impl ::std::str::FromStr for {n} {{ type Err = ::std::string::String; fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {{\n\
              let t = s.strip_prefix(\"PT\").and_then(|t| t.strip_suffix('S')).ok_or(\"no duration\")?; Ok({n}(t.parse().map_err(|_| \"bad number\")?)) }} }}").unwrap(),
          Lit::Angle => writeln!(o, "#[derive(PartialEq, Debug, DefaultYaSerde)]\npub struct {n}(pub ::std::string::String);\n\
            impl ::std::fmt::Display for {n} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ write!(f, \"<{{}}>\", self.0) }} }}\n\
            impl ::std::str::FromStr for {n} {{ type Err = ::std::string::String; fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {{\n\
              let t = s.strip_prefix('<').and_then(|t| t.strip_suffix('>')).ok_or(\"no angles\")?; Ok({n}(t.to_string())) }} }}").unwrap(),
          Lit::Hex(w) => writeln!(o, "#[derive(PartialEq, Debug, HexBinaryYaSerde)]\npub struct {n}(pub u{w});\nimpl {n} {{ pub fn from_bits(b: u{w}) -> Option<Self> {{ Some({n}(b)) }} }}").unwrap(),
        }
      }
      Kind::Custom(c) => {
        let n = &dd.name;
        let attrs = "fn serialize_attributes(&self, a: Vec<yaserde::__xml::attribute::OwnedAttribute>, n: yaserde::__xml::namespace::Namespace) -> Result<(Vec<yaserde::__xml::attribute::OwnedAttribute>, yaserde::__xml::namespace::Namespace), String> { Ok((a, n)) }";
        let ty = match c { Custom::Csv => "i32", Custom::Bag => "(String, String)" };
        writeln!(o, "#[derive(PartialEq, Debug)]\npub struct {n}(pub Vec<{ty}>);").unwrap();
        let (inner_ser, de) = match c {
          Custom::Csv => (
            "let t = self.0.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(\",\");\nwriter.write(yaserde::__xml::writer::XmlEvent::characters(&t)).map_err(|e| e.to_string())?;".to_string(),
            format!("let own = match reader.next_event()? {{ yaserde::__xml::reader::XmlEvent::StartElement {{ name, .. }} => name, e => return Err(format!(\"start expected, {{e:?}}\")) }};\n\
              let _ = &own;\nlet text = match reader.peek()? {{ yaserde::__xml::reader::XmlEvent::Characters(t) => t.to_owned(), yaserde::__xml::reader::XmlEvent::EndElement {{ .. }} => String::new(), e => return Err(format!(\"text expected, {{e:?}}\")) }};\n\
              if !text.is_empty() {{ reader.next_event()?; }}\n\
              if let yaserde::__xml::reader::XmlEvent::EndElement {{ .. }} = reader.peek()? {{}} else {{ return Err(\"only text expected\".into()) }}\n\
              if text.is_empty() {{ return Ok({n}(vec![])) }}\n\
              text.split(',').map(|x| x.parse::<i32>().map_err(|e| e.to_string())).collect::<Result<Vec<_>, _>>().map({n})"),
          ),
          Custom::Bag => (
            "for (k, t) in &self.0 {\n writer.write(yaserde::__xml::writer::XmlEvent::start_element(k.as_str())).map_err(|e| e.to_string())?;\n\
             writer.write(yaserde::__xml::writer::XmlEvent::characters(t)).map_err(|e| e.to_string())?;\n\
             writer.write(yaserde::__xml::writer::XmlEvent::end_element()).map_err(|e| e.to_string())?;\n}".to_string(),
            format!("let base = reader.depth();\nmatch reader.next_event()? {{ yaserde::__xml::reader::XmlEvent::StartElement {{ .. }} => {{}} e => return Err(format!(\"start expected, {{e:?}}\")) }}\n\
              let mut out = vec![];\nloop {{\n match reader.peek()?.to_owned() {{\n\
              yaserde::__xml::reader::XmlEvent::StartElement {{ name, .. }} => {{ let t = reader.read_inner_value(|r| {{ let mut t = String::new(); loop {{ match r.peek()?.to_owned() {{\n\
                 yaserde::__xml::reader::XmlEvent::Characters(c) => {{ t.push_str(&c); r.next_event()?; }}\n\
                 yaserde::__xml::reader::XmlEvent::StartElement {{ .. }} => {{ r.next_event()?; r.skip_element(|_| {{}})?; }}\n\
                 _ => return Ok(t) }} }} }})?; out.push((name.local_name, t)); }}\n\
              yaserde::__xml::reader::XmlEvent::EndElement {{ .. }} => break,\n\
              yaserde::__xml::reader::XmlEvent::EndDocument => return Err(\"end of document\".into()),\n\
              _ => {{ reader.next_event()?; }} }}\n}}\n\
              if reader.depth() != base + 1 {{ return Err(format!(\"depth {{}} at the end of a bag opened at {{base}}\", reader.depth())) }}\nOk({n}(out))"),
          ),
        };
        if half.ser { writeln!(o, "impl YaSerialize for {n} {{ fn serialize<W: std::io::Write>(&self, writer: &mut yaserde::ser::Serializer<W>) -> Result<(), String> {{\n\
          let name = writer.get_start_event_name().unwrap_or_else(|| \"{n}\".to_string());\nlet skip = writer.skip_start_end();\n\
          if !skip {{ writer.write(yaserde::__xml::writer::XmlEvent::start_element(name.as_str())).map_err(|e| e.to_string())?; }}\n{inner_ser}\n\
          if !skip {{ writer.write(yaserde::__xml::writer::XmlEvent::end_element()).map_err(|e| e.to_string())?; }}\nOk(())\n}}\n{attrs}\n}}").unwrap() }
        if half.de { writeln!(o, "impl YaDeserialize for {n} {{ fn deserialize<R: std::io::Read>(reader: &mut yaserde::de::Deserializer<R>) -> Result<Self, String> {{ {de} }} }}").unwrap() }
      }
    }
    o
  }

  pub fn conv(&self, dd: &Decl) -> String {
    let mut o = String::new();
    let to;
    let from;
    match &dd.kind {
      Kind::Struct(fs) => {
        to = format!("Val::Struct(::std::vec![{}])", fs.iter().map(|f| format!("self.{}.to_val()", f.ident)).collect::<Vec<_>>().join(", "));
        from = format!("let x = v.fields(); Self {{ {} }}", fs.iter().enumerate().map(|(i, f)| format!("{}: Conv::from_val(&x[{i}])", f.ident)).collect::<Vec<_>>().join(", "));
      }
      Kind::Enum(vs, _) => {
        let mut a = String::new();
        let mut b = String::new();
        for (i, v) in vs.iter().enumerate() {
          let id = &v.ident;
          match &v.pay {
            Pay::Unit => { write!(a, "Self::{id} => Val::Enum({i}, None), ").unwrap(); write!(b, "{i} => Self::{id}, ").unwrap() }
            Pay::One(_) => { write!(a, "Self::{id}(x) => Val::Enum({i}, Some(Box::new(x.to_val()))), ").unwrap(); write!(b, "{i} => Self::{id}(Conv::from_val(p.as_ref().unwrap())), ").unwrap() }
            Pay::Named(fs) => {
              let names = fs.iter().map(|f| f.ident.clone()).collect::<Vec<_>>().join(", ");
              let vals = fs.iter().map(|f| format!("{}.to_val()", f.ident)).collect::<Vec<_>>().join(", ");
              write!(a, "Self::{id} {{ {names} }} => Val::Enum({i}, Some(Box::new(Val::Struct(::std::vec![{vals}])))), ").unwrap();
              let ins = fs.iter().enumerate().map(|(k, f)| format!("{}: Conv::from_val(&x[{k}])", f.ident)).collect::<Vec<_>>().join(", ");
              write!(b, "{i} => {{ let x = p.as_ref().unwrap().fields(); Self::{id} {{ {ins} }} }} ").unwrap();
            }
          }
        }
        to = format!("match self {{ {a} }}");
        from = format!("let Val::Enum(k, p) = v else {{ panic!(\"harness: enum\") }}; match *k {{ {b} _ => panic!(\"harness: variant\") }}");
      }
      Kind::Lit(Lit::Pair) => {
        to = "Val::Struct(::std::vec![self.a.to_val(), self.b.to_val()])".into();
        from = "let x = v.fields(); Self { a: Conv::from_val(&x[0]), b: Conv::from_val(&x[1]) }".into();
      }
      Kind::Custom(Custom::Bag) => {
        to = "Val::List(self.0.iter().map(|(k, t)| Val::Struct(::std::vec![k.to_val(), t.to_val()])).collect())".into();
        from = "let Val::List(x) = v else { panic!(\"harness: bag\") }; Self(x.iter().map(|y| (Conv::from_val(&y.fields()[0]), Conv::from_val(&y.fields()[1]))).collect())".into();
      }
      Kind::Lit(_) | Kind::Custom(Custom::Csv) => {
        to = "self.0.to_val()".into();
        from = "Self(Conv::from_val(v))".into();
      }
    }
    writeln!(o, "impl glue::Conv for {} {{ fn to_val(&self) -> glue::Val {{ use glue::{{Conv, Val}}; {to} }} fn from_val(v: &glue::Val) -> Self {{ use glue::{{Conv, Val}}; {from} }} }}", dd.rust()).unwrap();
    o
  }

  /// The declaration itself, as a user would write it.
  pub fn decl_src(&self, di: usize) -> String {
    let dd = &self.decls[di];
    if let Some(w) = &dd.wrap {
      let mut o = format!("pub mod {} {{\n{w}\n", dd.rust().split("::").next().unwrap());
      let mut heads: Vec<&str> = deps(dd).into_iter().filter(|j| *j != di).map(|j| self.decls[j].rust().split("::").next().unwrap()).collect();
      heads.sort();
      heads.dedup();
      for h in heads { o.push_str(&format!("use super::{h};\n")) }
      let mut alone = dd.clone();
      alone.path = None;
      let mut t = self.clone();
      t.decls[di] = alone;
      o.push_str(&t.body(&t.decls[di], Half { ser: dd.ser, de: dd.de }));
      for x in ["YaSerialize", "YaDeserialize", "PrimitiveYaSerde", "DefaultYaSerde", "HexBinaryYaSerde"] {
        o = o.replace(&format!(", {x}"), &format!(", ::yaserde::{x}"));
      }
      return o + "}\n"
    }
    dd.src.clone().map(|s| s + "\n" + &if s_has_helpers(dd) { self.helpers(dd) } else { String::new() }).unwrap_or_else(|| self.body(dd, Half { ser: dd.ser, de: dd.de }))
  }

  /// A file with the given declarations and a registry of them.
  pub fn file(&self, ids: &[usize]) -> String {
    let mut o = String::from("use glue::Entry;\nuse yaserde::*;\n#[allow(unused_imports)]\nuse ::std::{option, string, vec};\n\n");
    for &i in ids { o.push_str(&format!("// decl {}\n", self.decls[i].name)); o.push_str(&self.decl_src(i)); o.push('\n') }
    for &i in ids { o.push_str(&format!("// decl {}\n", self.decls[i].name)); o.push_str(&self.conv(&self.decls[i])) }
    o.push_str("\npub fn registry() -> Vec<Entry> { vec![\n");
    for &i in ids {
      let dd = &self.decls[i];
      writeln!(o, "// decl {}", dd.name).unwrap();
      writeln!(o, "  Entry {{ name: {}, ser: {}, de: {} }},", quoted(&dd.name),
        if dd.ser { format!("glue::ser::<{}>()", dd.rust()) } else { "None".into() },
        if dd.de { format!("glue::de::<{}>()", dd.rust()) } else { "None".into() }).unwrap();
    }
    o.push_str("] }\n");
    o
  }
}
fn s_has_helpers(dd: &Decl) -> bool { dd.fields().iter().any(|f| f.default.is_some() || f.skip_if.is_some()) }
