#![allow(warnings)]
//! The exact inputs of the known findings (../../../../known_findings.txt). A probe returns what
//! fails, if it still does. The generators leave these classes of input out by construction.
use std::fmt::Debug;
use yaserde::de::from_str;
use yaserde::ser::to_string;
use yaserde::*;

pub struct Probe { pub id: &'static str, pub property: &'static str, pub run: fn() -> Result<(), String> }

const DECL: &str = r#"<?xml version="1.0" encoding="utf-8"?>"#;
fn reads<T: YaDeserialize + PartialEq + Debug>(doc: &str, want: Result<T, ()>) -> Result<(), String> {
  let got = from_str::<T>(doc);
  match (&want, &got) {
    (Ok(a), Ok(b)) if a == b => Ok(()),
    (Err(()), Err(_)) => Ok(()),
    _ => Err(format!("{doc} is read as {got:?} instead of {want:?}")),
  }
}
fn writes<T: YaSerialize + Debug>(v: &T, want: &str) -> Result<(), String> {
  let got = to_string(v)?;
  let got = got.strip_prefix(DECL).unwrap_or(&got);
  if got == want { Ok(()) } else { Err(format!("{v:?} is written as {got} instead of {want}")) }
}
fn trip<T: YaSerialize + YaDeserialize + PartialEq + Debug>(v: T) -> Result<(), String> {
  let doc = to_string(&v)?;
  match from_str::<T>(&doc) { Ok(x) if x == v => Ok(()), r => Err(format!("{v:?} is written as {doc} and read back as {r:?}")) }
}

#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
pub struct El { a: String }
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
pub struct Tx { #[yaserde(text = true)] t: String }
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
pub struct At { #[yaserde(attribute = true)] a: String }
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
pub struct OptDef { #[yaserde(default = "some7")] a: Option<i32>, #[yaserde(default = "vec7")] b: Vec<i32> }
fn some7() -> Option<i32> { Some(7) }
fn vec7() -> Vec<i32> { vec![7] }
#[derive(PartialEq, Debug, Default, YaSerialize, YaDeserialize)]
pub enum En { #[default] Nil, One(String), Many(Vec<i32>), Maybe(Option<i32>) }
#[derive(PartialEq, Debug, Default, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "p" = "urn:p" })]
pub enum Px { #[default] Nil, #[yaserde(prefix = "p")] Red }
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
pub struct HasPx { e: Px }
#[derive(PartialEq, Debug, PrimitiveYaSerde)]
pub struct Prim(String);
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
pub struct PrimAt { #[yaserde(attribute = true)] a: Prim }
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
pub struct EnAt { #[yaserde(attribute = true)] e: En }
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
pub struct FlatIn { c: String }
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "q", namespaces = { "q" = "urn:q" })]
pub struct FlatOut { #[yaserde(flatten = true)] m: FlatIn }
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", default_namespace = "p", namespaces = { "p" = "urn:p" })]
pub struct Dns { #[yaserde(prefix = "p")] a: String, b: String }
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "urn:inner" })]
pub struct ReIn { #[yaserde(prefix = "p")] a: String }
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "urn:outer" })]
pub struct ReOut { #[yaserde(prefix = "p")] i: ReIn }
#[derive(PartialEq, Debug, YaSerialize)]
pub enum Named { V { a: Option<String>, b: String } }
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
pub struct Rec { rec: Vec<Rec> }
/// Run in a process of its own: a thousand times as deep as a usual document, in a thread with a stack of 2 MB.
pub fn deep_document() {
  let doc = format!("<Rec>{}{}</Rec>", "<rec>".repeat(20_000), "</rec>".repeat(20_000));
  let _ = std::thread::Builder::new().stack_size(2 << 20).spawn(move || { std::mem::forget(from_str::<Rec>(&doc)); }).unwrap().join();
}
fn in_own_process() -> Result<(), String> {
  let exe = std::env::current_exe().map_err(|e| e.to_string())?;
  let r = std::process::Command::new(exe).arg("--deep-document").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().map_err(|e| e.to_string())?;
  if r.success() { Ok(()) } else { Err(format!("a document with 20000 nested elements of a recursive type ends the process ({r}): the stack overflows")) }
}
#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "urn:x?a=1&b=2" })]
pub struct Amp { #[yaserde(prefix = "p")] a: String }

fn s(x: &str) -> String { x.to_string() }
fn el(x: &str) -> Result<El, ()> { Ok(El { a: s(x) }) }

pub fn probes() -> Vec<Probe> {
  vec![
    Probe { id: "named-variant-option", property: "C02", run: || writes(&Named::V { a: Some(s("x")), b: s("y") }, "<Named><V><a>x</a><b>y</b></V></Named>") },
    Probe { id: "raw-carriage-return", property: "C03", run: || writes(&El { a: s("x\ry") }, "<El><a>x&#xD;y</a></El>") },
    Probe { id: "raw-tab-in-attribute", property: "C03", run: || writes(&At { a: s("x\ty") }, "<At a=\"x&#x9;y\" />") },
    Probe { id: "namespace-uri-not-escaped", property: "C03", run: || writes(&Amp { a: s("x") }, "<p:Amp xmlns:p=\"urn:x?a=1&amp;b=2\"><p:a>x</p:a></p:Amp>") },
    Probe { id: "text-on-both-sides-of-an-unknown-element", property: "C05", run: || reads("<Tx>ab<zz/>cd</Tx>", Ok(Tx { t: "abcd".into() })) },
    Probe { id: "processing-instruction-in-text", property: "C05", run: || reads("<El><a>ab<?pi x?>cd</a></El>", el("abcd")) },
    Probe { id: "attribute-namespace-ignored", property: "C06", run: || reads::<At>(r#"<At xmlns:x="urn:x" x:a="1"/>"#, Err(())) },
    Probe { id: "variant-namespace-ignored", property: "C06", run: || reads(r#"<En xmlns:x="urn:x"><x:One>1</x:One></En>"#, Ok(En::Nil)) },
    Probe { id: "flattened-under-default-namespace", property: "C06", run: || reads(r#"<FlatOut xmlns="urn:q"><c xmlns="">x</c></FlatOut>"#, Ok(FlatOut { m: FlatIn { c: s("x") } })) },
    Probe { id: "default-namespace-takes-unprefixed", property: "C06", run: || trip(Dns { a: s("x"), b: s("y") }) },
    Probe { id: "prefix-bound-twice", property: "C06", run: || trip(ReOut { i: ReIn { a: s("x") } }) },
    Probe { id: "unbounded-recursion", property: "C07", run: in_own_process },
    Probe { id: "default-of-option", property: "C11", run: || reads("<OptDef><b>1</b></OptDef>", Ok(OptDef { a: Some(7), b: vec![1] })) },
    Probe { id: "default-of-sequence", property: "C11", run: || reads("<OptDef><a>1</a></OptDef>", Ok(OptDef { a: Some(1), b: vec![7] })) },
    Probe { id: "prefixed-unit-variant", property: "C13", run: || trip(HasPx { e: Px::Red }) },
    Probe { id: "empty-option-payload", property: "C13", run: || trip(En::Maybe(None)) },
    Probe { id: "empty-sequence-payload", property: "C13", run: || trip(En::Many(vec![])) },
    Probe { id: "newtype-attribute-markup-written", property: "C14", run: || writes(&PrimAt { a: Prim(s("x&y")) }, "<PrimAt a=\"x&amp;y\" />") },
    Probe { id: "newtype-attribute-markup-read", property: "C14", run: || reads(r#"<PrimAt a="x&amp;y"/>"#, Ok(PrimAt { a: Prim(s("x&y")) })) },
  ]
}
