//! Type-erased access to the public entry points of yaserde for one type.
use std::io::{Read, Write};
pub use val::{Conv, Val};
pub use yaserde;
pub use yaserde::__xml::writer::EmitterConfig;
pub use yaserde::__xml::reader::ParserConfig;
use yaserde::ser::Config;
use yaserde::{YaDeserialize, YaSerialize};

#[derive(Clone, Debug)]
pub struct Cfg { pub indent: bool, pub decl: bool, pub indent_string: Option<String> }
impl Cfg {
  pub fn default_() -> Cfg { Cfg { indent: false, decl: true, indent_string: None } }
  fn to(&self) -> Config {
    Config { perform_indent: self.indent, write_document_declaration: self.decl, indent_string: self.indent_string.clone() }
  }
}

/// How a hand-written container asks for a value.
#[derive(Clone, Debug)]
pub struct Item {
  pub name: Option<String>,
  /// the element is written by the container, the value has its content only
  pub bare: bool,
  pub skip_first: bool,
}

pub struct Ser {
  pub to_string: fn(&Val) -> Result<String, String>,
  pub to_string_cfg: fn(&Val, &Cfg) -> Result<String, String>,
  pub to_writer: fn(&Val, &mut dyn Write, &Cfg) -> Result<(), String>,
  pub content: fn(&Val) -> Result<String, String>,
  pub content_writer: fn(&Val, &mut dyn Write) -> Result<(), String>,
  /// through a serializer made from an event writer of the caller's
  pub own_writer: fn(&Val, &EmitterConfig) -> Result<String, String>,
  /// by a hand-written container, in elements of the given names or of their own
  pub around: fn(&[Val], &[Item]) -> Result<String, String>,
}
pub struct De {
  pub from_str: fn(&str) -> Result<Val, String>,
  pub from_reader: fn(&mut dyn Read) -> Result<Val, String>,
  /// through a deserializer made from an event reader of the caller's
  pub own_reader: fn(&mut dyn Read, &ParserConfig) -> Result<Val, String>,
  /// by a hand-written container: what its elements are read to
  pub around: fn(&mut dyn Read) -> Result<Vec<Val>, String>,
}
pub struct Entry { pub name: &'static str, pub ser: Option<Ser>, pub de: Option<De> }

use yaserde::__xml::reader::XmlEvent as XmlIn;
use yaserde::__xml::writer::XmlEvent as XmlOut;
/// Begins messages about what a hand-written container relies on.
pub const CONTRACT: &str = "contract: ";
fn before(s: &mut yaserde::ser::Serializer<Vec<u8>>) -> Result<(), String> {
  s.write(XmlOut::start_element("around").attr("k", "<v>")).map_err(|e| e.to_string())
}
fn between(s: &mut yaserde::ser::Serializer<Vec<u8>>) -> Result<(), String> {
  s.write(XmlOut::start_element("between")).map_err(|e| e.to_string())?;
  s.write(XmlOut::characters("a & b")).map_err(|e| e.to_string())?;
  s.write(XmlOut::end_element()).map_err(|e| e.to_string())
}
/// At the start of an item (true), or after the end of the container.
fn item_next(r: &mut yaserde::de::Deserializer<&mut dyn Read>) -> Result<bool, String> {
  loop {
    match r.peek()? {
      XmlIn::StartElement { name, .. } if name.local_name == "between" && name.namespace.is_none() => {
        let t = r.read_inner_value(|r| match r.next_event()? { XmlIn::Characters(t) => Ok(t), e => Err(format!("{CONTRACT}{e:?} where text was expected")) })?;
        if t != "a & b" { return Err(format!("{CONTRACT}text {t:?}")) }
      }
      XmlIn::StartElement { .. } => return Ok(true),
      XmlIn::EndElement { .. } => break,
      XmlIn::EndDocument => return Err("the container is not closed".into()),
      _ => { r.next_event()?; }
    }
  }
  r.next_event()?;
  if r.depth() != 0 { return Err(format!("{CONTRACT}depth {} after the end of the container", r.depth())) }
  match r.next_event()? { XmlIn::EndDocument => Ok(false), e => Err(format!("{CONTRACT}{e:?} where the document should end")) }
}
fn item_end(r: &mut yaserde::de::Deserializer<&mut dyn Read>, d: usize) -> Result<(), String> {
  if r.depth() != d + 1 { return Err(format!("{CONTRACT}depth {} after an item that began at depth {d}", r.depth())) }
  match r.next_event()? { XmlIn::EndElement { .. } => Ok(()), e => Err(format!("{CONTRACT}{e:?} where the item should end")) }
}

pub fn ser<T: Conv + YaSerialize>() -> Option<Ser> {
  Some(Ser {
    to_string: |v| yaserde::ser::to_string(&T::from_val(v)),
    to_string_cfg: |v, c| yaserde::ser::to_string_with_config(&T::from_val(v), &c.to()),
    to_writer: |v, w, c| yaserde::ser::serialize_with_writer(&T::from_val(v), w, &c.to()).map(|_| ()),
    content: |v| yaserde::ser::to_string_content(&T::from_val(v)),
    content_writer: |v, w| yaserde::ser::serialize_with_writer_content(&T::from_val(v), w).map(|_| ()),
    own_writer: |v, c| {
      let mut s = yaserde::ser::Serializer::new(c.clone().create_writer(Vec::<u8>::new()));
      T::from_val(v).serialize(&mut s)?;
      String::from_utf8(s.into_inner()).map_err(|e| e.to_string())
    },
    around: |vs, names| {
      let mut s = yaserde::ser::Serializer::new_from_writer(Vec::<u8>::new(), &Config::default());
      before(&mut s)?;
      for (v, n) in vs.iter().zip(names) {
        if n.bare { s.write(XmlOut::start_element("bare")).map_err(|e| e.to_string())? }
        if n.skip_first { s.set_skip_start_end(n.bare) }
        s.set_start_event_name(n.name.clone());
        if !n.skip_first { s.set_skip_start_end(n.bare) }
        if s.get_start_event_name() != n.name || s.skip_start_end() != n.bare { return Err(format!("{CONTRACT}{n:?} was set, name {:?} and skip {} are told", s.get_start_event_name(), s.skip_start_end())) }
        T::from_val(v).serialize(&mut s)?;
        if n.bare { s.write(XmlOut::end_element()).map_err(|e| e.to_string())? }
        between(&mut s)?;
      }
      s.write(XmlOut::end_element()).map_err(|e| e.to_string())?;
      String::from_utf8(s.into_inner()).map_err(|e| e.to_string())
    },
  })
}
pub fn de<T: Conv + YaDeserialize>() -> Option<De> {
  Some(De {
    from_str: |s| yaserde::de::from_str::<T>(s).map(|t| t.to_val()),
    from_reader: |r| yaserde::de::from_reader::<_, T>(r).map(|t| t.to_val()),
    own_reader: |r, c| T::deserialize(&mut yaserde::de::Deserializer::new(c.clone().create_reader(r))).map(|t| t.to_val()),
    around: |r| {
      let mut r = yaserde::de::Deserializer::new_from_reader(r);
      let mut out = vec![];
      if !matches!(r.next_event()?, XmlIn::StartElement { .. }) { return Err("no start".into()) }
      while item_next(&mut r)? {
        let d = r.depth();
        out.push(T::deserialize(&mut r)?.to_val());
        item_end(&mut r, d)?;
      }
      Ok(out)
    },
  })
}
