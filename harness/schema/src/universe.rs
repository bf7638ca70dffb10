//! The declarations every check runs on: a systematic matrix, a zoo of composite shapes, and
//! declarations drawn from the seed.
use crate::ast::*;
use crate::rng::Rng;
use val::Val;

pub struct Universe { pub schema: Schema, /// (flattened, inlined)
  pub pairs: Vec<(usize, usize)>, /// (unusual spelling, plain)
  pub twins: Vec<(usize, usize)> }

fn i(x: i128) -> Val { Val::Int(x) }
fn t(x: &str) -> Val { Val::s(x) }

pub fn sample(sc: Scalar, k: usize) -> Val {
  match sc {
    Str => t(["dflt", "x y", ""][k % 3]),
    Bool => Val::Bool(k % 2 == 0),
    F32 => Val::F32([1.5f32, -0.25, 0.0][k % 3].to_bits()),
    F64 => Val::F64([2.5f64, -1e300, 0.0][k % 3].to_bits()),
    _ => i([7, 42, 0][k % 3]),
  }
}

struct B { s: Schema, pairs: Vec<(usize, usize)>, twins: Vec<(usize, usize)> }
impl B {
  fn a(&mut self, d: Decl) -> usize { self.s.add(d) }
  /// Adds the declaration that has the content of flattened members written inline.
  fn inline(&mut self, di: usize) {
    let dd = self.s.decls[di].clone();
    let mut nd = dd.clone();
    nd.name = format!("{}Inl", dd.name);
    if nd.rename.is_none() { nd.rename = Some(dd.local().to_string()) }
    let mut fs = vec![];
    let mut ns = dd.ns.clone();
    self.splice(di, &mut fs, &mut ns);
    for (k, f) in fs.iter_mut().enumerate() { f.ident = format!("i{k}_{}", f.ident.trim_start_matches("r#")) }
    ns.sort();
    ns.dedup();
    nd.ns = ns;
    nd.kind = Kind::Struct(fs);
    nd.groups = vec!["inl"];
    let j = self.a(nd);
    self.pairs.push((di, j));
  }
  fn splice(&self, di: usize, out: &mut Vec<Field>, ns: &mut Vec<(String, String)>) {
    let dd = &self.s.decls[di];
    ns.extend(dd.ns.iter().cloned());
    for f in dd.fields() {
      match (f.pos, &f.ty) {
        (Pos::Flat, Ty::D(j)) if matches!(self.s.decls[*j].kind, Kind::Struct(_)) => self.splice(*j, out, ns),
        _ => { let mut g = f.clone(); g.rename = Some(f.local().to_string()); out.push(g) }
      }
    }
  }
}

/// `skip`: declarations to leave out, with all that refer to them (they do not compile).
pub fn universe(seed: u64, thorough: bool, skip: &[String]) -> Universe {
  let mut b = B { s: Schema::default(), pairs: vec![], twins: vec![] };
  matrix(&mut b);
  zoo(&mut b);
  flat(&mut b);
  spaces(&mut b);
  enums(&mut b);
  skips(&mut b);
  write_only(&mut b);
  custom_types(&mut b);
  spelled(&mut b);
  wrapped(&mut b);
  long_names(&mut b);
  alike(&mut b);
  wide(&mut b);
  let rounds = if thorough { 40 } else { 14 };
  let mut r = Rng::new(seed, "declarations");
  for k in 0..rounds { random(&mut b, &mut r, k) }
  drop_decls(b, skip)
}

fn drop_decls(b: B, skip: &[String]) -> Universe {
  let n = b.s.decls.len();
  let mut out: Vec<bool> = b.s.decls.iter().map(|d| skip.contains(&d.name)).collect();
  loop {
    let mut more = false;
    for i in 0..n {
      let shares = |x: &str, y: &str| b.s.decls[i].name == y && b.s.decls.iter().position(|d| d.name == x).is_some_and(|k| out[k]);
      if !out[i] && (deps(&b.s.decls[i]).iter().any(|j| out[*j]) || shares("OddGenA", "OddGenB")) { out[i] = true; more = true }
    }
    if !more { break }
  }
  let map: Vec<usize> = { let mut k = 0; out.iter().map(|o| { let r = k; if !o { k += 1 } r }).collect() };
  fn fix(t: &mut Ty, map: &[usize]) { match t { Ty::D(i) => *i = map[*i], Ty::O(t) | Ty::V(t) => fix(t, map), _ => {} } }
  let mut s = Schema::default();
  for (i, mut d) in b.s.decls.into_iter().enumerate() {
    if out[i] { continue }
    match &mut d.kind {
      Kind::Struct(fs) => for f in fs { fix(&mut f.ty, &map) },
      Kind::Enum(vs, _) => for v in vs { match &mut v.pay { Pay::One(t) => fix(t, &map), Pay::Named(fs) => for f in fs { fix(&mut f.ty, &map) }, Pay::Unit => {} } },
      _ => {}
    }
    s.add(d);
  }
  let keep = |l: Vec<(usize, usize)>| l.into_iter().filter(|(x, y)| !out[*x] && !out[*y]).map(|(x, y)| (map[x], map[y])).collect();
  Universe { schema: s, pairs: keep(b.pairs), twins: keep(b.twins) }
}

fn cap(sc: Scalar) -> String { let n = sc.rust(); n[..1].to_uppercase() + &n[1..] }

fn matrix(b: &mut B) {
  for sc in SCALARS {
    let n = cap(sc);
    b.a(st(&format!("El{n}"), vec![
      f("req", s(sc)), f("opt", o(s(sc))), f("many", v(s(sc))), f("dfl", s(sc)).dflt(sample(sc, 0)), f("other", s(sc)).rn("re-named.1"),
    ]).g("scalar"));
    b.a(st(&format!("At{n}"), vec![
      f("req", s(sc)).attr(), f("opt", o(s(sc))).attr(), f("dfl", s(sc)).attr().dflt(sample(sc, 1)), f("other", s(sc)).attr().rn("re-named.1"), f("many", v(s(sc))).attr(),
    ]).g("scalar"));
    let e = b.a(en(&format!("Pay{n}"), vec![unit("Nothing"), one("Plain", s(sc)), one("Maybe", o(s(sc))), one("Several", v(s(sc))), one("Other", s(sc)).rn("re-named.2")]).g("scalar").g("enum"));
    b.a(st(&format!("Has{n}"), vec![f("one", d(e)), f("maybe", o(d(e))), f("list", v(d(e)))]).g("scalar").g("enum"));
  }
  b.a(st("TxReq", vec![f("a", s(Str)).attr(), f("body", s(Str)).text()]).g("text"));
  b.a(st("TxOpt", vec![f("a", o(s(Str))).attr(), f("body", o(s(Str))).text()]).g("text"));
  b.a(st("TxDef", vec![f("body", s(Str)).text().dflt(t("none")), f("a", s(Str)).attr().dflt(t("z"))]).g("text"));
  let tx = b.a(st("TxMix", vec![f("first", s(I32)), f("body", s(Str)).text(), f("last", o(s(Str)))]).g("text"));
  b.a(st("TxUse", vec![f("x", d(tx)), f("y", v(d(tx))), f("z", o(d(tx)))]).g("text"));
  b.a(st("Cd", vec![f("one", s(Str)).cdata(), f("two", s(Str)).cdata().rn("cd-2"), f("plain", s(Str))]).g("text"));
  b.a(st("Unit0", vec![]));

  let mut lits: Vec<(String, Lit)> = SCALARS.iter().map(|sc| (format!("Prim{}", cap(*sc)), Lit::Prim(*sc))).collect();
  lits.extend([("LPair".to_string(), Lit::Pair), ("LDur".into(), Lit::Dur), ("LAngle".into(), Lit::Angle), ("LHex8".into(), Lit::Hex(8)), ("LHex16".into(), Lit::Hex(16)), ("LHex32".into(), Lit::Hex(32)), ("LHex64".into(), Lit::Hex(64))]);
  for (n, l) in lits {
    let k = b.a(lit(&n, l).g("lit"));
    let mut fs = vec![f("one", d(k)), f("maybe", o(d(k))), f("list", v(d(k))), f("ren", d(k)).rn("ren.x")];
    if l != Lit::Angle { fs.extend([f("attr", d(k)).attr(), f("attr_maybe", o(d(k))).attr(), f("attr_list", v(d(k))).attr().rn("attr-list")]) }
    b.a(st(&format!("Use{n}"), fs).g("lit"));
    let e = b.a(en(&format!("Var{n}"), vec![unit("Nothing"), one("Plain", d(k)), one("Maybe", o(d(k))), one("Several", v(d(k)))]).g("lit").g("enum"));
    b.a(st(&format!("Has{n}"), vec![f("e", d(e)), f("es", v(d(e)))]).g("lit").g("enum"));
  }
}

fn zoo(b: &mut B) {
  let leaf = b.a(st("Leaf", vec![f("id", s(U32)).attr(), f("name", s(Str)), f("note", o(s(Str)))]));
  let mid = b.a(st("Mid", vec![f("leaf", d(leaf)), f("maybe", o(d(leaf))), f("leaves", v(d(leaf))), f("count", s(U8))]));
  let top = b.a(st("Top", vec![f("mid", d(mid)), f("mids", v(d(mid))), f("tag", s(Str)).attr(), f("last", s(Bool))]).rn("top-level"));
  b.a(st("Deep", vec![f("top", o(d(top))), f("tops", v(d(top))), f("leaf", d(leaf)), f("leaves", v(s(I64)))]));
  let pos = b.a(st("Attrs", vec![f("x", s(I32)).attr(), f("y", o(s(F64))).attr(), f("z", s(Str)).attr().dflt(t("none"))]));
  b.a(st("Many", vec![f("p", v(d(pos))), f("q", o(d(pos))), f("s", v(s(Str))), f("o", o(s(Bool)))]));

  // names that coincide across levels
  let a3 = b.a(st("CoinC", vec![f("a", s(Str)), f("b", o(s(I32)))]).rn("a").g("coin"));
  let a2 = b.a(st("CoinB", vec![f("a", v(d(a3))), f("b", s(Str)), f("c", o(d(a3)))]).rn("a").g("coin"));
  let a1 = b.a(st("CoinA", vec![f("a", d(a2)), f("b", v(d(a2))), f("c", s(I32))]).rn("a").g("coin"));
  b.a(st("a_", vec![f("a", s(Str)), f("b", v(d(a1)))]).rn("b").g("coin"));
  b.a(st("CoinD", vec![f("id", s(Str)).attr(), f("id_el", s(Str)).rn("id"), f("ids", v(d(a3))).rn("CoinD"), f("z", o(s(Str))).rn("a")]).g("coin"));
  let it = b.a(st("Item", vec![f("Item", o(s(Str))), f("list", v(s(Str))), f("v", s(I32)).attr().dflt(i(0))]).g("coin"));
  let ls = b.a(st("list", vec![f("list", v(d(it))), f("Item", d(it)), f("v", s(Str)).attr()]).g("coin"));
  b.a(st("v_", vec![f("list", o(d(ls))), f("Item", v(d(ls))), f("v", v(s(U16)))]).rn("list").g("coin"));
  let w0 = b.a(st("W0", vec![f("x", s(Str)), f("w", o(s(Str)))]).rn("w").g("coin"));
  let w1 = b.a(st("W1", vec![f("w", d(w0)), f("x", o(d(w0)))]).rn("w").g("coin"));
  b.a(st("W2", vec![f("w", d(w1)), f("x", s(Str)), f("y", v(d(w1)))]).rn("w").g("coin"));
  // attribute and element of one name, text and a nested struct of that name
  b.a(st("NearAttrs", vec![f("id", s(U32)).attr(), f("_id", s(U32)).attr(), f("id_", o(s(Str))).attr(), f("ID", s(Str)).attr(), f("id2", v(s(I16))).attr(), f("sub_id", s(Str)).attr().rn("sub-id"), f("xid", o(s(Bool))).attr()]).g("coin"));
  b.a(st("NearElems", vec![f("id", s(U32)), f("_id", s(U32)), f("id_", o(s(Str))), f("ID", s(Str)), f("id2", v(s(I16))), f("sub_id", s(Str)).rn("sub-id"), f("xid", o(s(Bool))), f("iid", v(s(Str)))]).g("coin"));
  let q0 = b.a(st("Q0", vec![f("n", s(Str)).attr(), f("val", s(Str)).text()]).g("coin"));
  b.a(st("Q1", vec![f("n_attr", o(s(Str))).attr().rn("n"), f("n", v(d(q0))), f("val", o(d(q0)))]).g("coin"));

  // enums: variants named like the element of the enum, like fields and like other variants
  let ce = b.a(st("CoinEIn", vec![f("same", s(Str)), f("item", o(s(I32))), f("list", v(s(Str)))]).rn("same").g("coin"));
  let ck = b.a(en("same", vec![unit("nothing"), one("same", d(ce)), one("list", v(s(Str))), one("item", s(I32)), one("leaf", d(leaf)), one("maybe", o(d(ce))), one("many", v(d(ce)))]).g("coin").g("enum"));
  let cl = b.a(en("CoinEOut", vec![one("same", d(ck)), unit("none"), one("list", v(d(ck))), one("CoinEOut", d(ck)), one("item", o(d(ck)))]).dv(1).rn("list").g("coin").g("enum"));
  b.a(st("CoinES", vec![f("same", d(ck)), f("list", v(d(ck))), f("item", o(d(ck))), f("leaf", d(leaf)), f("many", v(d(ck))), f("maybe", s(Str))]).rn("item").g("coin").g("enum"));
  b.a(st("CoinET", vec![f("same", v(d(cl))), f("list", d(cl)), f("CoinEOut", o(d(cl))), f("none", s(I32)), f("item", v(d(ck)))]).rn("same").g("coin").g("enum"));
  let cf = b.a(st("CoinEF", vec![f("k", d(ck)).flat(), f("tail", o(s(Str)))]).rn("same").g("coin").g("enum").g("flat"));
  b.a(st("CoinEFs", vec![f("same", d(cf)), f("list", v(d(cf))), f("tail", s(I32))]).g("coin").g("enum"));
  // five levels, each with parts that may be missing or invalid
  let mut below = b.a(st("Level5", vec![f("x", o(s(I32))), f("y", v(s(Bool))), f("z", s(U8)).dflt(i(9)), f("a", o(s(F32))).attr()]).rn("level").g("coin"));
  for k in (1..5).rev() {
    below = b.a(st(&format!("Level{k}"), vec![f("x", o(s(I64))), f("level", d(below)), f("y", v(s(U16))), f("levels", v(d(below))), f("z", s(U8)).dflt(i(9)), f("a", o(s(I8))).attr(), f("w", o(d(leaf)))]).rn("level").g("coin"));
  }

  // recursion (through sequences)
  let k = b.s.decls.len();
  b.a(st("Tree", vec![f("id", s(Str)).attr(), f("label", o(s(Str))), f("kids", v(d(k))), f("n", v(s(I16)))]).g("rec"));
  let k = b.s.decls.len();
  b.a(st("Tree2", vec![f("Tree2", v(d(k))), f("label", s(Str)), f("other", v(d(k)))]).g("rec"));
  let k = b.s.decls.len();
  b.a(st("Even", vec![f("e", s(U8)), f("odd", v(d(k + 1)))]).rn("odd").g("rec"));
  b.a(st("Odd", vec![f("even", v(d(k))), f("o", o(s(U8)))]).rn("even").g("rec"));
  let k = b.s.decls.len();
  b.a(en("Expr", vec![unit("Zero"), one("Lit", s(I64)), one("Sum", v(d(k))), one("Pair", d(k + 1))]).g("rec").g("enum"));
  b.a(st("ExprPair", vec![f("lhs", v(d(k))), f("rhs", v(d(k))), f("op", s(Str)).attr()]).g("rec"));

  // many fields
  let mut fs = vec![];
  for (n, sc) in SCALARS.iter().enumerate() {
    fs.push(f(&format!("r{n}"), s(*sc)));
    fs.push(f(&format!("o{n}"), o(s(*sc))));
    if n % 2 == 0 { fs.push(f(&format!("a{n}"), s(*sc)).attr()) } else { fs.push(f(&format!("v{n}"), v(s(*sc)))) }
  }
  let wide = b.a(st("Wide", fs));
  b.a(st("Wides", vec![f("w", v(d(wide)))]));
  // everything optional
  let opt = b.a(st("Opts", vec![f("a", o(s(Str))), f("b", o(s(I32))), f("c", v(s(Str))), f("d", o(d(leaf))), f("e", o(s(Str))).attr(), f("g", s(I32)).dflt(i(5))]));
  b.a(st("OptList", vec![f("it", v(d(opt))), f("a", o(s(Str)))]));
}

fn flat(b: &mut B) {
  let plit = b.a(lit("FLit", Lit::Pair));
  let date = b.a(st("FDate", vec![f("year", s(I32)), f("month", o(s(U8))), f("day", s(Str)).dflt(t("1"))]));
  let time = b.a(st("FTime", vec![f("hour", s(U8)), f("zone", o(s(Str))).attr(), f("mins", v(s(U8)))]));
  let k = b.a(st("FBoth", vec![f("name", s(Str)), f("date", d(date)).flat(), f("time", d(time)).flat(), f("end", o(s(Str)))]).g("flat"));
  b.inline(k);
  let k1 = b.a(st("FStart", vec![f("date", d(date)).flat(), f("k", s(Str)).attr(), f("z", v(s(Str)))]).g("flat"));
  b.inline(k1);
  let l1 = b.a(st("FLvl1", vec![f("l1", s(Str)), f("l1a", o(s(I32))).attr(), f("date", d(date)).flat()]));
  let l2 = b.a(st("FLvl2", vec![f("l2", v(s(I32))), f("inner", d(l1)).flat(), f("l2b", o(s(Str)))]));
  let l3 = b.a(st("FLvl3", vec![f("time", d(time)).flat(), f("l3", s(Bool)), f("inner", d(l2)).flat()]).g("flat"));
  b.inline(l3);
  let sub = b.a(st("FSub", vec![f("x", s(Str)), f("xs", v(s(Str)))]));
  let mem = b.a(st("FMem", vec![f("sub", d(sub)), f("subs", v(d(sub))), f("osub", o(d(sub)))]));
  let fs = b.a(st("FStruct", vec![f("before", s(Str)), f("mem", d(mem)).flat(), f("x", o(s(Str)))]).g("flat"));
  b.inline(fs);
  let nest = b.a(st("FNest", vec![f("one", d(k)), f("many", v(d(l3))), f("maybe", o(d(fs)))]).g("flat"));
  let _ = nest;
  // coinciding names inside a flattened member
  let cm = b.a(st("FCoin", vec![f("p", v(d(sub))), f("x", o(s(Str)))]));
  let ck = b.a(st("p_", vec![f("c", d(cm)).flat(), f("q", s(Str))]).rn("p").g("flat"));
  b.inline(ck);
  // with text
  let tx = b.a(st("FText", vec![f("body", s(Str)).text(), f("lang", o(s(Str))).attr()]));
  let ftx = b.a(st("FTexts", vec![f("t", d(tx)).flat(), f("k", s(Str)).attr()]).g("flat").g("text"));
  b.inline(ftx);
  // all members optional or defaulted
  let soft = b.a(st("FSoft", vec![f("a", o(s(Str))), f("b", s(I32)).dflt(i(3)), f("c", v(s(Str)))]));
  let sk = b.a(st("FSofts", vec![f("soft", d(soft)).flat(), f("k", o(s(Str)))]).g("flat"));
  b.inline(sk);
  // optional members (each has a required field)
  b.a(st("FOpt", vec![f("name", s(Str)), f("date", o(d(date))).flat(), f("time", o(d(time))).flat()]).g("flat"));
  let oin = b.a(st("FOptIn", vec![f("req", s(I32)), f("time", o(d(time))).flat()]));
  b.a(st("FOpt2", vec![f("m", o(d(oin))).flat(), f("tail", v(s(Str)))]).g("flat"));
  b.a(st("FOptAttr", vec![f("m", o(d(l1))).flat(), f("k", s(Str)).attr()]).g("flat"));
  // namespaces
  let nsm = b.a(st("FNsMem", vec![f("a", s(Str)).px("p"), f("b", o(s(I32))).px("p"), f("c", s(Str))]).ns(&["p"]));
  let nk = b.a(st("FNs", vec![f("m", d(nsm)).flat(), f("k", s(Str)).px("q"), f("a", o(s(Str)))]).px("q").ns(&["p", "q"]).g("flat").g("ns"));
  b.inline(nk);
  let nsm2 = b.a(st("FNsMem2", vec![f("x", d(nsm)).flat(), f("a2", v(s(Str))).px("r"), f("at", o(s(I32))).attr()]).ns(&["r"]));
  let nk2 = b.a(st("FNs2", vec![f("m", d(nsm2)).flat(), f("k", o(s(Str)))]).g("flat").g("ns"));
  b.inline(nk2);
  let nk3 = b.a(st("FNs3", vec![f("m", d(nk2)).flat(), f("kk", s(I32)).attr(), f("a", v(s(U8)))]).px("q").ns(&["q"]).g("flat").g("ns"));
  b.inline(nk3);
  // flattened enums: the unit variant is the default one
  let e = b.a(en("FEnum", vec![unit("Nothing"), one("alpha", s(Str)), one("beta", d(sub)), one("gamma", s(I32)).rn("gamma-3")]).g("enum"));
  b.a(st("FHasEnum", vec![f("e", d(e)).flat(), f("k", s(Str)), f("l", v(s(Str)))]).g("flat").g("enum"));
  let e2 = b.a(en("FEnum2", vec![unit("None2"), one("delta", v(s(U8))), one("eps", d(date))]).g("enum"));
  b.a(st("FTwoEnums", vec![f("a", d(e)).flat(), f("date2", d(time)).flat(), f("b", d(e2)).flat()]).g("flat").g("enum"));
  let fe = b.a(st("FEnumIn", vec![f("inner", d(e)).flat(), f("m", o(s(Str)))]));
  b.a(st("FEnumDeep", vec![f("in_", d(fe)).flat(), f("z", s(I32)).attr()]).g("flat").g("enum"));
  // flattened variants
  let va = b.a(st("VaIn", vec![f("x", s(Str)), f("y", s(I32)).attr()]));
  let vb = b.a(st("VbIn", vec![f("z", v(s(Str)))]));
  let ve = b.a(en("FVar", vec![one("VaIn", d(va)).flat(), one("VbIn", d(vb)).flat(), unit("Naught")]).dv(2).g("enum"));
  // roots without an element of their own
  b.a(st("FRoot", vec![f("a", s(Str)), f("b", o(s(I32))), f("c", v(s(U8))), f("e", s(Bool)).dflt(Val::Bool(true))]).flat().g("flat"));
  b.a(st("FRootSub", vec![f("sub", d(sub)), f("subs", v(d(sub))), f("k", s(Str)), f("osub", o(d(sub)))]).flat().g("flat").g("coin"));
  b.a(st("FRootVec", vec![f("subs", v(d(sub))), f("x", v(s(Str))), f("sub", o(d(mem)))]).flat().g("flat").g("coin"));
  b.a(st("FRootEnum", vec![f("e", d(e)), f("es", v(d(e))), f("z", s(F64))]).flat().g("flat").g("enum"));
  b.a(st("FRootLit", vec![f("l", d(plit)), f("ls", v(d(plit))), f("cd", s(Str)).cdata().rn("c-d")]).flat().g("flat").g("lit"));
  b.a(en("FRootE", vec![one("Alpha", d(va)), one("Beta", d(vb)).rn("be-ta"), one("Gamma", s(I32)), one("Delta", v(s(Str))), unit("Naught")]).dv(4).flat().g("flat").g("enum"));
  b.a(en("FRootVar", vec![one("VaIn", d(va)).flat(), one("VbIn", d(vb)).flat(), unit("Naught")]).dv(2).flat().g("flat").g("enum"));
  // writing only
  b.a(st("WFlatVec", vec![f("k", s(Str)).attr(), f("m", v(d(sub))).flat(), f("end", s(I32)), f("n", v(d(mem))).flat()]).only_ser().g("flat"));
  b.a(st("WOptVec", vec![f("a", o(v(s(Str)))), f("b", o(v(s(I32)))).rn("b.b"), f("c", o(v(s(F64)))), f("z", s(Bool))]).only_ser().g("scalar"));
  b.a(st("WOptVecNs", vec![f("a", o(v(s(Str)))).px("p"), f("b", o(v(s(U8)))).skip_if(SkipIf::Eq(Val::some(Val::List(vec![])))), f("m", v(d(date))).flat()]).px("p").ns(&["p"]).only_ser().g("skip").g("ns").g("flat"));
  b.a(st("FVars", vec![f("v", d(ve)), f("w", v(d(ve))), f("o", o(d(ve)))]).g("flat").g("enum"));
}

fn spaces(b: &mut B) {
  let inner = b.a(st("NsIn", vec![f("a", s(Str)).px("p"), f("b", s(Str)).px("q"), f("c", o(s(Str)))]).ns(&["p", "q"]));
  b.a(st("NsRoot", vec![f("a", s(Str)).px("p"), f("a_q", s(Str)).px("q").rn("a"), f("a_none", o(s(Str))).rn("a"), f("many", v(s(I32))).px("p")]).px("p").ns(&["p", "q"]).g("ns"));
  b.a(st("NsNest", vec![f("inner", d(inner)).px("r"), f("inners", v(d(inner))).px("p"), f("maybe", o(d(inner)))]).px("r").ns(&["p", "r"]).g("ns"));
  b.a(st("NsAttr", vec![f("k", s(Str)).attr().px("p"), f("l", o(s(I32))).attr().px("q"), f("m", s(Str)).attr(), f("e", s(Str)).px("q")]).px("q").ns(&["p", "q"]).g("ns"));
  b.a(st("NsPlainRoot", vec![f("x", s(Str)).px("nsx"), f("y", v(s(Str))), f("z", o(d(inner))).px("nsx")]).ns(&["nsx"]).g("ns"));
  b.a(st("NsOnlyRoot", vec![f("x", s(Str)), f("y", o(s(I32)))]).px("r").ns(&["r"]).g("ns"));
  let e = b.a(en("NsEnum", vec![unit("Nil"), one("one", s(Str)).px("p"), one("two", d(inner)).px("q"), one("three", v(s(I32)))]).ns(&["p", "q"]).g("enum").g("ns"));
  b.a(st("NsHasEnum", vec![f("e", d(e)).px("p"), f("es", v(d(e))).px("q"), f("n", s(Str))]).px("p").ns(&["p", "q"]).g("enum").g("ns"));
  // default namespace: every field carries its prefix
  b.a(st("NsDef", vec![f("a", s(Str)).px("p"), f("b", v(s(I32))).px("p"), f("c", o(s(Str))).px("q"), f("k", s(Str)).attr()]).px("p").dns("p").ns(&["p", "q"]).g("ns"));
  let dn = b.a(st("NsDefIn", vec![f("a", s(Str)).px("r"), f("b", o(s(Str))).px("r")]).px("r").dns("r").ns(&["r"]));
  b.a(st("NsDefNest", vec![f("x", d(dn)).px("p"), f("y", v(d(dn))).px("p"), f("z", s(Str)).px("p")]).px("p").ns(&["p"]).g("ns"));
  b.a(st("NsAttrDef", vec![f("k", s(Str)).attr().px("p").dflt(t("dd")), f("l", s(I32)).attr().px("q").dflt(i(3)), f("m", s(Bool)).attr().px("p").dflt(Val::Bool(true)).skip_if(SkipIf::Eq(Val::Bool(true))), f("n", o(s(Str))).attr().px("q").skip_if(SkipIf::Eq(Val::None)), f("v", v(s(U8))).attr().px("p"), f("e", s(Str)).px("q").dflt(t("dd")), f("c", s(Str)).cdata().px("p").dflt(t("dd"))]).px("p").ns(&["p", "q"]).g("ns").g("skip"));
  // prefixes that begin with one another, same local names
  b.a(st("NsPre", vec![f("a", s(Str)).px("n"), f("b", o(s(Str))).px("ns").rn("a"), f("c", v(s(Str))).px("nsx").rn("a"), f("d", s(I32)).px("ns"), f("e", v(d(inner))).px("nsx"), f("g", o(s(Bool))).px("n"), f("h", o(s(Str))).px("sn").rn("a"), f("i", v(s(U8))).px("x")]).px("ns").ns(&["n", "ns", "nsx", "sn", "x"]).g("ns"));
  // prefixes that differ in case only, same local names
  b.a(st("NsCase", vec![f("a", s(Str)).px("p"), f("b", s(Str)).px("P").rn("a")]).px("P").ns(&["p", "P"]).g("ns"));
  let lk = b.a(lit("NsLit", Lit::Dur));
  b.a(st("NsMix", vec![f("d", d(lk)).px("p"), f("ds", v(d(lk))).px("q"), f("c", s(Str)).cdata().px("p"), f("o", o(s(Bool))).px("q")]).px("p").ns(&["p", "q"]).g("ns"));
  let k = b.s.decls.len();
  b.a(st("NsTree", vec![f("name", s(Str)).px("p"), f("kid", v(d(k))).px("p"), f("kid_q", v(d(k))).px("q").rn("kid")]).px("p").ns(&["p", "q"]).g("ns").g("rec"));
}

fn enums(b: &mut B) {
  let u = b.a(en("Color", vec![unit("Red"), unit("Green"), unit("Blue").rn("deep-blue"), unit("r#Type")]).g("enum"));
  let ud = b.a(en("Shade", vec![unit("Light"), unit("Dark"), unit("Mid").rn("in between")]).dv(1).g("enum"));
  b.a(st("Colors", vec![f("one", d(u)), f("maybe", o(d(u))), f("list", v(d(u))), f("attr", d(u)).attr(), f("attr_o", o(d(u))).attr(), f("attr_l", v(d(u))).attr()]).g("enum"));
  b.a(st("Shades", vec![f("one", d(ud)), f("maybe", o(d(ud))), f("list", v(d(ud))), f("dfl", d(u)).dflt(Val::Enum(2, None)), f("attr", d(ud)).attr()]).g("enum"));
  let sub = b.a(st("ESub", vec![f("x", s(Str)), f("n", s(I32)).attr(), f("ys", v(s(Str)))]));
  let m = b.a(en("Mixed", vec![unit("Empty"), one("Text", s(Str)), one("Num", s(U64)), one("Sub", d(sub)), one("MaybeSub", o(d(sub))), one("Subs", v(d(sub))), one("Flag", s(Bool)), one("Inner", d(u))]).g("enum"));
  b.a(st("Mixes", vec![f("head", s(Str)), f("one", d(m)), f("maybe", o(d(m))), f("list", v(d(m))), f("tail", s(Str))]).g("enum"));
  b.a(en("Outer", vec![one("Left", d(m)), one("Right", d(u)), unit("Neither")]).dv(2).g("enum"));
  let pd = b.a(en("PayDef", vec![one("First", s(Str)), one("Second", v(s(I32)))]).g("enum"));
  b.a(st("PayDefs", vec![f("a", d(pd)), f("b", v(d(pd)))]).g("enum"));
  let tg = b.a(en("Tagged", vec![unit("Circle"), unit("Square").rn("the-square"), unit("Line")]).tag("kind").g("enum"));
  b.a(st("Tags", vec![f("one", d(tg)), f("maybe", o(d(tg))), f("list", v(d(tg)))]).g("enum"));
  let rn = b.a(en("Renamed", vec![unit("A").rn("B"), unit("B").rn("C"), one("C", s(I32)).rn("A")]).g("enum"));
  b.a(st("Renames", vec![f("list", v(d(rn))), f("x", d(rn))]).g("enum"));
  let sim = b.a(en("Similar", vec![unit("Ab"), unit("ab"), unit("AB"), unit("Abc"), one("abc", s(Str)), one("ABC", s(Str))]).g("enum"));
  b.a(st("Similars", vec![f("list", v(d(sim)))]).g("enum"));
  b.a(en("Structy", vec![unit("Nil"), named("Pt", vec![f("x", s(I32)), f("y", s(F64)).rn("the-y"), f("name", s(Str))]), named("Bx", vec![f("sub", d(sub)), f("subs", v(d(sub))), f("last", s(Bool))]).rn("b-x")]).only_ser().g("enum"));
  let deep = b.a(st("EDeep", vec![f("inner", d(sub)), f("lone", o(d(sub))), f("n", s(I32)).attr(), f("color", d(u))]));
  b.a(en("Structy2", vec![unit("Nil"), named("Dx", vec![f("first", d(deep)), f("all", v(d(deep))), f("colors", v(d(u))), f("last", s(U8))]), named("Ex", vec![f("all", v(d(m))), f("one", d(m)).rn("on.e"), f("text", s(Str))])]).only_ser().g("enum"));
  b.a(en("StructyNs", vec![unit("Nil"), named("Pt", vec![f("x", s(I32)).px("p"), f("y", s(U8)).px("q").rn("yy")]), one("Uno", s(Str)).px("q")]).px("p").ns(&["p", "q"]).only_ser().g("enum").g("ns"));
}

fn write_only(b: &mut B) {
  for sc in WRITE_ONLY {
    let n = cap(sc);
    b.a(st(&format!("Wr{n}"), vec![f("req", s(sc)), f("opt", o(s(sc))), f("many", v(s(sc))), f("next", s(Str)), f("other", s(sc)).rn("re-named.1"), f("attr", s(sc)).attr(), f("attr_o", o(s(sc))).attr()]).only_ser().g("scalar"));
    b.a(st(&format!("Wr{n}Ns"), vec![f("req", s(sc)).px("p"), f("opt", o(s(sc))).px("q").skip_if(SkipIf::Eq(Val::None)), f("many", v(s(sc))).px("p"), f("last", s(I32)), f("skipped", s(sc)).skip()]).px("p").ns(&["p", "q"]).only_ser().g("scalar").g("ns"));
    b.a(en(&format!("Wr{n}Pay"), vec![unit("Nothing"), one("Plain", s(sc)), one("Maybe", o(s(sc))), one("Several", v(s(sc))), named("Struct", vec![f("one", s(sc)), f("many", v(s(sc))).rn("re-named.2"), f("end", s(Bool))])]).only_ser().g("scalar").g("enum"));
  }
  // sequences of options and optional sequences
  let leaf = b.a(st("WrNestLeaf", vec![f("k", s(I32)).attr(), f("x", o(s(Str)))]));
  let kind = b.a(en("WrNestKind", vec![unit("Nil"), unit("Other"), one("Val", s(U8))]));
  let prim = b.a(lit("WrNestPrim", Lit::Prim(I32)));
  for (k, sc) in SCALARS.iter().chain(&WRITE_ONLY).enumerate() {
    let n = cap(*sc);
    b.a(st(&format!("WrNest{n}"), vec![f("first", s(*sc)), f("gaps", v(o(s(*sc)))), f("list", o(v(s(*sc)))), f("leaves", v(o(d([leaf, kind, prim][k % 3])))).rn("re-named.4"), f("skip", v(o(s(*sc)))).skip(), f("last", s(Str))]).only_ser().g("scalar"));
  }
  b.a(st("WrNestNs", vec![f("gaps", v(o(s(Str)))).px("p"), f("list", o(v(s(Str)))).px("q"), f("leaves", v(o(d(leaf)))).px("q").rn("le-af"), f("kinds", v(o(d(kind)))).px("p"), f("prims", v(o(d(prim)))), f("none", v(o(d(leaf)))).skip_if(SkipIf::Eq(Val::List(vec![])))]).px("p").ns(&["p", "q"]).only_ser().g("ns").g("skip"));
  // sequences of scalars in struct-like variants
  b.a(en("StructySeq", std::iter::once(unit("Nil")).chain(SCALARS.iter().map(|sc| named(&format!("V{}", cap(*sc)), vec![f("first", s(U8)), f("list", v(s(*sc))), f("other", v(s(*sc))).rn("re-named.3"), f("last", s(Bool))]))).collect()).only_ser().g("enum").g("scalar"));
  b.a(en("StructySeqNs", vec![unit("Nil"), named("Pt", vec![f("x", v(s(I32))).px("p"), f("y", v(s(Str))).px("q").rn("yy")])]).px("p").ns(&["p", "q"]).only_ser().g("enum").g("ns"));
}
fn skips(b: &mut B) {
  let sub = b.a(st("SkSub", vec![f("x", s(I32)), f("y", o(s(Str)))]));
  let subv = |x: i128| Val::Struct(vec![i(x), Val::None]);
  let sa = b.a(st("SkAttr", vec![f("ka", s(Str)).attr(), f("kb", o(s(Str)))]));
  let sav = |x: &str| Val::Struct(vec![t(x), Val::None]);
  let e = b.a(en("SkEnum", vec![unit("Off"), unit("On"), one("Val", s(I32))]).g("enum"));
  // (name, type, position, the value conditions look for)
  let rows: Vec<(&str, Ty, Pos, Val)> = vec![
    ("str", s(Str), Pos::Elem, t("dd")), ("int", s(I32), Pos::Elem, i(-1)), ("flt", s(F64), Pos::Elem, Val::F64(0)),
    ("opt", o(s(I32)), Pos::Elem, Val::None), ("vec", v(s(Str)), Pos::Elem, Val::List(vec![])), ("cdt", s(Str), Pos::Cdata, t("dd")),
    ("sub", d(sub), Pos::Elem, subv(9)), ("osub", o(d(sub)), Pos::Elem, Val::None), ("vsub", v(d(sub)), Pos::Elem, Val::List(vec![])), ("enm", d(e), Pos::Elem, Val::Enum(1, None)),
    ("at_str", s(Str), Pos::Attr, t("dd")), ("at_int", s(I32), Pos::Attr, i(-1)), ("at_opt", o(s(Bool)), Pos::Attr, Val::None), ("at_ostr", o(s(Str)), Pos::Attr, Val::None), ("at_vec", v(s(I32)), Pos::Attr, Val::List(vec![])), ("at_enm", d(e), Pos::Attr, Val::Enum(1, None)),
  ];
  let _ = sav;
  type Cond = fn(Field, Val) -> Field;
  let conds: Vec<(&str, Cond)> = vec![
    ("Skip", |f, dv| if matches!(f.ty, Ty::O(_) | Ty::V(_)) { f.skip() } else { f.dflt(dv).skip() }),
    ("Dflt", |f, dv| f.dflt(dv)),
    ("IfEq", |f, dv| if matches!(f.ty, Ty::O(_) | Ty::V(_)) { f.skip_if(SkipIf::Eq(dv)) } else { f.dflt(dv.clone()).skip_if(SkipIf::Eq(dv)) }),
    ("IfOther", |f, dv| { let f = if matches!(f.ty, Ty::O(_) | Ty::V(_)) { f } else { f.dflt(dv) }; f.skip_if(SkipIf::Other(0, Val::Bool(true))) }),
    ("Always", |f, dv| { let f = if matches!(f.ty, Ty::O(_) | Ty::V(_)) { f } else { f.dflt(dv) }; f.skip_if(SkipIf::Always) }),
    ("Never", |f, _| f.skip_if(SkipIf::Never)),
    // two conditions on one field
    ("Both", |f, dv| { let f = if matches!(f.ty, Ty::O(_) | Ty::V(_)) { f } else { f.dflt(dv) }; f.skip().skip_if(SkipIf::Never) }),
    ("DfltNever", |f, dv| if matches!(f.ty, Ty::O(_) | Ty::V(_)) { f.skip_if(SkipIf::Never) } else { f.dflt(dv).skip_if(SkipIf::Never) }),
  ];
  for (cn, c) in &conds {
    for (part, chunk) in rows.chunks(8).enumerate() {
      let mut fs = vec![f("flag", s(Bool)).attr()];
      for (n, ty, pos, dv) in chunk {
        let mut g = f(n, ty.clone());
        g.pos = *pos;
        fs.push(c(g, dv.clone()));
        fs.push(f(&format!("k_{n}"), o(s(U8))));
      }
      b.a(st(&format!("Sk{cn}{part}"), fs).g("skip"));
    }
    // text content
    b.a(st(&format!("SkTx{cn}"), vec![f("flag", s(Bool)).attr(), c(f("body", s(Str)).text(), t(if *cn == "Never" { "" } else { "dd" })), f("z", o(s(Str))).attr()]).g("skip").g("text"));
    b.a(st(&format!("SkTo{cn}"), vec![f("flag", s(Bool)).attr(), c(f("body", o(s(Str))).text(), Val::None)]).g("skip").g("text"));
    // flattened members: optional, and soft ones (every field restorable)
    b.a(st(&format!("SkFo{cn}"), vec![f("flag", s(Bool)).attr(), c(f("m", o(d(sa))).flat(), Val::None), f("z", o(s(Str)))]).g("skip").g("flat"));
  }
  // conditions that omit what reading cannot restore: writing only
  b.a(st("SkHard", vec![f("a", s(Str)).skip(), f("b", s(I32)).attr().skip(), f("c", s(Str)).skip_if(SkipIf::Eq(t("dd"))), f("d", d(sub)).skip_if(SkipIf::Other(4, i(3))), f("e", s(I32)), f("g", s(Str)).attr().skip_if(SkipIf::Eq(t(""))), f("h", d(sa)).flat().skip_if(SkipIf::Other(4, i(5))), f("k", v(d(sub))).skip()]).only_ser().g("skip").g("flat"));
  b.a(st("SkHard2", vec![f("a", s(Str)).dflt(t("q")).skip_if(SkipIf::Eq(t("w"))), f("b", o(s(I32))).dflt(Val::some(i(5))), f("c", v(s(I32))).dflt(Val::List(vec![i(1)])), f("d", o(s(Str))).attr().dflt(Val::some(t("x"))), f("m", d(sa)).flat().dflt(sav("dd")), f("n", o(d(sub))).skip_if(SkipIf::Eq(Val::some(subv(1)))), f("t", s(Str)).text().skip_if(SkipIf::Eq(t("hide")))]).only_ser().g("skip").g("flat"));
  // generic neighbours of skipped members, flattened
  let soft = b.a(st("SkSoft", vec![f("a", o(s(Str))), f("b", s(I32)).dflt(i(3)), f("c", s(Str)).attr().dflt(t("q"))]).g("skip"));
  b.a(st("SkFlat", vec![f("flag", s(Bool)).attr(), f("m", d(soft)).flat().skip_if(SkipIf::Other(0, Val::Bool(true))), f("z", o(s(Str)))]).g("skip").g("flat"));
}

fn custom_types(b: &mut B) {
  let csv = b.a(custom("Csv", Custom::Csv).g("custom"));
  let bag = b.a(custom("Bag", Custom::Bag).g("custom"));
  b.a(st("HasCsv", vec![f("one", d(csv)), f("maybe", o(d(csv))), f("list", v(d(csv))), f("attr", d(csv)).attr(), f("end", s(Str))]).g("custom"));
  let hb = b.a(st("HasBag", vec![f("one", d(bag)), f("n", s(I32)), f("list", v(d(bag))), f("maybe", o(d(bag)))]).g("custom"));
  b.a(st("HasBags", vec![f("x", v(d(hb))), f("one", s(Str)), f("csv", o(d(csv)))]).g("custom"));
  let e = b.a(en("CustomVar", vec![unit("Nothing"), one("AsCsv", d(csv)), one("AsBag", d(bag)), one("Csvs", v(d(csv)))]).g("custom").g("enum"));
  b.a(st("HasCustomVar", vec![f("e", d(e)), f("es", v(d(e)))]).g("custom").g("enum"));
}

/// Declarations written in unusual ways, next to a plain twin with the same markup.
fn spelled(b: &mut B) {
  let twin = |b: &mut B, odd: Decl, plain: Decl| { let x = b.a(odd.g("odd")); let y = b.a(plain.g("odd")); b.twins.push((x, y)); x };
  // identifiers
  twin(b, st("OddRaw", vec![f("r#type", s(Str)), f("r#match", o(s(I32))), f("r#fn", v(s(Str))), f("r#loop", s(Str)).attr(), f("r#move", d(0)), f("r#ref", s(Bool)).dflt(Val::Bool(true))]).rn("odd-raw"),
    st("OddRawP", vec![f("a", s(Str)).rn("type"), f("b", o(s(I32))).rn("match"), f("c", v(s(Str))).rn("fn"), f("d", s(Str)).attr().rn("loop"), f("e", d(0)).rn("move"), f("g", s(Bool)).rn("ref").dflt(Val::Bool(true))]).rn("odd-raw"));
  twin(b, st("OddLike", vec![f("ab", s(Str)), f("AB", s(Str)), f("aB", o(s(I32))), f("a_b", s(Str)), f("_ab", v(s(Str))), f("x1", s(Str)).rn("a.b"), f("x2", s(Str)).rn("a-b"), f("x3", s(Str)).attr().rn("a.b"), f("x4", s(Str)).attr().rn("ab")]),
    st("OddLikeP", vec![f("p1", s(Str)).rn("ab"), f("p2", s(Str)).rn("AB"), f("p3", o(s(I32))).rn("aB"), f("p4", s(Str)).rn("a_b"), f("p5", v(s(Str))).rn("_ab"), f("p6", s(Str)).rn("a.b"), f("p7", s(Str)).rn("a-b"), f("p8", s(Str)).attr().rn("a.b"), f("p9", s(Str)).attr().rn("ab")]).rn("OddLike"));
  twin(b, st("OddUni", vec![f("été", s(Str)), f("日本", o(s(I32))), f("plain", s(Str)).rn("Ωmega.1-x"), f("é", v(s(Bool))).attr().rn("öl")]).rn("größe"),
    st("OddUniP", vec![f("a", s(Str)).rn("été"), f("b", o(s(I32))).rn("日本"), f("c", s(Str)).rn("Ωmega.1-x"), f("e", v(s(Bool))).attr().rn("öl")]).rn("größe"));
  let rl = b.a(lit("r#final", Lit::Dur).g("lit").g("odd"));
  let rs = b.a(st("r#abstract", vec![f("r#final", d(rl)), f("x", v(s(Str)))]).g("odd"));
  let re = b.a(en("r#become", vec![unit("r#box"), one("r#do", d(rs)), one("r#macro", s(I32))]).g("odd").g("enum"));
  b.a(st("r#override", vec![f("r#abstract", d(rs)), f("r#become", v(d(re))), f("r#final", o(d(rl))).attr()]).g("odd"));
  // names used by the generated code
  twin(b, st("OddNames", vec![f("reader", s(Str)), f("depth", s(I32)), f("event", o(s(Str))), f("attributes", s(Str)).attr(), f("name", v(s(Str))), f("value", d(0)), f("namespace", s(Str)).attr(), f("visitor", s(Bool)), f("result", s(Str)), f("writer", o(s(Str))).attr()]),
    st("OddNamesP", vec![f("n0", s(Str)).rn("reader"), f("n1", s(I32)).rn("depth"), f("n2", o(s(Str))).rn("event"), f("n3", s(Str)).attr().rn("attributes"), f("n4", v(s(Str))).rn("name"), f("n5", d(0)).rn("value"), f("n6", s(Str)).attr().rn("namespace"), f("n7", s(Bool)).rn("visitor"), f("n8", s(Str)).rn("result"), f("n9", o(s(Str))).attr().rn("writer")]).rn("OddNames"));
  // type paths
  twin(b, st("OddPaths", vec![f("a", s(Str)).spell("std::string::String"), f("b", o(s(Str))).spell("::std::option::Option<::std::string::String>"), f("c", v(s(U8))).spell("std::vec::Vec<u8>"), f("e", o(d(0))).spell("std::option::Option<self::ElString>"), f("g", v(d(0))).spell("Vec<crate::ElString>"), f("h", d(0)).spell("crate::ElString"), f("k", s(I32)).spell("::std::primitive::i32"), f("l", s(F64)).attr().spell("core::primitive::f64"), f("m", v(s(Str))).attr().spell("std::vec::Vec<std::string::String>")]).rn("odd-paths"),
    st("OddPathsP", vec![f("a", s(Str)), f("b", o(s(Str))), f("c", v(s(U8))), f("e", o(d(0))), f("g", v(d(0))), f("h", d(0)), f("k", s(I32)), f("l", s(F64)).attr(), f("m", v(s(Str))).attr()]).rn("odd-paths"));
  twin(b, st("OddPathsTwo", vec![f("a", s(Str)).spell("string::String"), f("b", o(s(Str))).spell("option::Option<string::String>"), f("c", v(s(U8))).spell("vec::Vec<u8>"), f("e", o(d(0))).spell("option::Option<self::ElString>"), f("g", v(d(0))).spell("vec::Vec<self::ElString>"), f("h", o(s(F32))).spell("std::option::Option<f32>"), f("k", s(Str)).attr().spell("string::String"), f("l", o(s(Str))).attr().spell("option::Option<string::String>"), f("m", v(s(Str))).attr().spell("vec::Vec<string::String>")]).rn("odd-paths"),
    st("OddPathsTwoP", vec![f("a", s(Str)), f("b", o(s(Str))), f("c", v(s(U8))), f("e", o(d(0))), f("g", v(d(0))), f("h", o(s(F32))), f("k", s(Str)).attr(), f("l", o(s(Str))).attr(), f("m", v(s(Str))).attr()]).rn("odd-paths"));
  // types in modules, with the same name in two of them
  let ma = b.a(st("ModA", vec![f("x", s(I32)), f("y", s(Str)).attr()]).path("mod_a::Thing").src("pub mod mod_a { use yaserde::*; #[derive(PartialEq, Debug, YaSerialize, YaDeserialize)] pub struct Thing { pub x: i32, #[yaserde(attribute = true)] pub y: String } }").rn("Thing"));
  let mb = b.a(st("ModB", vec![f("x", s(Str)), f("z", o(d(ma)))]).path("mod_b::inner::Thing").src("pub mod mod_b { pub mod inner { use yaserde::*; #[derive(PartialEq, Debug, YaSerialize, YaDeserialize)] pub(crate) struct Thing { pub(crate) x: String, pub z: Option<super::super::mod_a::Thing> } } }").rn("Thing"));
  let me = b.a(en("ModE", vec![unit("A"), one("B", s(I32))]).path("mod_c::Thing").src("pub mod mod_c { use yaserde::*; #[derive(PartialEq, Debug, Default, YaSerialize, YaDeserialize)] pub enum Thing { #[default] A, B(i32) } }").rn("Thing"));
  let ml = b.a(lit("ModL", Lit::Prim(I32)).path("mod_d::Thing").src("pub mod mod_d { use yaserde::*; #[derive(PartialEq, Debug, PrimitiveYaSerde)] pub struct Thing(pub i32); }").rn("Thing"));
  // one derive alone in a module that imports nothing, every derive by its path
  let pa = b.a(lit("PathPair", Lit::Pair).path("path_a::PathPair").src("pub mod path_a { #[derive(PartialEq, Debug, yaserde::DefaultYaSerde)] pub struct PathPair { pub a: i32, pub b: u8 }\n\
    impl ::std::fmt::Display for PathPair { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, \"{}~{}\", self.a, self.b) } }\n\
    impl ::std::str::FromStr for PathPair { type Err = ::std::string::String; fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> { let (a, b) = s.split_once('~').ok_or(\"no ~\")?; Ok(PathPair { a: a.parse().map_err(|_| \"bad a\")?, b: b.parse().map_err(|_| \"bad b\")? }) } } }").g("lit"));
  let pb = b.a(lit("PathPrim", Lit::Prim(F64)).path("path_b::PathPrim").src("pub mod path_b { #[derive(PartialEq, Debug, yaserde::PrimitiveYaSerde)] pub struct PathPrim(pub f64); }").g("lit"));
  let pc = b.a(lit("PathHex", Lit::Hex(16)).path("path_c::PathHex").src("pub mod path_c { #[derive(PartialEq, Debug, yaserde::HexBinaryYaSerde)] pub struct PathHex(pub u16); impl PathHex { pub fn from_bits(b: u16) -> Option<Self> { Some(PathHex(b)) } } }").g("lit"));
  let pd = b.a(en("PathEnum", vec![unit("A"), one("B", s(Bool)), one("C", v(d(pa)))]).path("path_d::PathEnum").src("pub mod path_d { #[derive(PartialEq, Debug, Default, ::yaserde::YaSerialize, ::yaserde::YaDeserialize)] pub enum PathEnum { #[default] A, B(bool), C(Vec<super::path_a::PathPair>) } }").g("enum"));
  b.a(st("OddByPath", vec![f("a", d(pa)), f("b", o(d(pb))), f("c", v(d(pc))), f("e", d(pd)), f("g", d(pa)).attr(), f("h", o(d(pb))).attr(), f("k", v(d(pc))).attr(), f("n", s(I64)).dflt(i(4)), f("o", s(Bool)).attr()])
    .path("path_e::OddByPath").src("pub mod path_e { use super::path_a::PathPair; #[derive(PartialEq, Debug, yaserde::YaSerialize, yaserde::YaDeserialize)] pub struct OddByPath { pub a: PathPair, pub b: Option<super::path_b::PathPrim>, pub c: Vec<super::path_c::PathHex>, pub e: crate::path_d::PathEnum, #[yaserde(attribute = true)] pub g: PathPair, #[yaserde(attribute = true)] pub h: Option<super::path_b::PathPrim>, #[yaserde(attribute = true)] pub k: Vec<super::path_c::PathHex>, #[yaserde(default = \"four\")] pub n: i64, #[yaserde(attribute = true)] pub o: bool } fn four() -> i64 { 4 } }").g("odd"));
  b.a(st("OddMods", vec![f("a", d(ma)), f("b", d(mb)), f("bs", v(d(mb))), f("e", d(me)), f("ea", o(d(me))), f("l", d(ml)), f("la", d(ml)).attr(), f("lb", o(d(ml))).attr(), f("ms", v(d(ma)))]).g("odd"));
  // visibility, derives, unrelated attributes, comments
  twin(b, st("OddDress", vec![f("a", s(Str)), f("b", o(s(I32))), f("c", s(Str)).attr().rn("cc")]).rn("odd-dress").src("/// A documented type\n#[allow(dead_code)]\n#[derive(Clone, PartialEq)]\n#[derive(Debug, YaSerialize)]\n#[derive(YaDeserialize)]\n#[yaserde(rename = \"odd-dress\",)]\n#[must_use]\npub(crate) struct OddDress { /** docs */ #[allow(unused)] pub(crate) a: String, /* c */ pub(self) b: Option<i32>, #[doc = \"x\"] #[yaserde(rename = \"cc\", attribute = true)] #[allow(unused)] c: String }"),
    st("OddDressP", vec![f("a", s(Str)), f("b", o(s(I32))), f("c", s(Str)).attr().rn("cc")]).rn("odd-dress"));
  // through a macro: types arrive in invisible groups
  twin(b, st("OddMacro", vec![f("a", s(Str)), f("b", o(s(I32))), f("c", v(s(Str))), f("e", d(0)), f("g", o(d(0))), f("h", s(Str)).attr()]).rn("odd-macro").src("macro_rules! odd_macro { ($n:ident, $a:ty, $i:ty, $d:ty) => { #[derive(PartialEq, Debug, YaSerialize, YaDeserialize)] #[yaserde(rename = \"odd-macro\")] pub struct $n { pub a: $a, pub b: Option<$i>, pub c: Vec<$a>, pub e: $d, pub g: Option<$d>, #[yaserde(attribute = true)] pub h: $a } } }\nodd_macro!(OddMacro, String, i32, ElString);"),
    st("OddMacroP", vec![f("a", s(Str)), f("b", o(s(I32))), f("c", v(s(Str))), f("e", d(0)), f("g", o(d(0))), f("h", s(Str)).attr()]).rn("odd-macro"));
  // generics
  let leaf = b.a(st("OddLeaf", vec![f("x", s(I32)), f("k", o(s(Str))).attr()]));
  let le = b.a(en("OddLeafE", vec![unit("Nix"), one("Some1", s(Str))]));
  let ga = twin(b, st("OddGenA", vec![f("one", d(leaf)), f("list", v(d(leaf))), f("maybe", o(d(leaf))), f("z", s(Str))]).rn("odd-gen").path("OddGen<OddLeaf>").src("#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]\n#[yaserde(rename = \"odd-gen\")]\npub struct OddGen<T: YaSerialize + YaDeserialize> { pub one: T, pub list: Vec<T>, pub maybe: Option<T>, pub z: String }"),
    st("OddGenAP", vec![f("one", d(leaf)), f("list", v(d(leaf))), f("maybe", o(d(leaf))), f("z", s(Str))]).rn("odd-gen"));
  let gb = b.a(st("OddGenB", vec![f("one", d(le)), f("list", v(d(le))), f("maybe", o(d(le))), f("z", s(Str))]).rn("odd-gen").path("OddGen<OddLeafE>").src("").g("odd"));
  b.a(st("OddGenC", vec![f("l", d(ga)), f("r", d(gb)), f("n", s(I32)).attr()]).rn("OddGen2").path("OddGen2<OddGen<OddLeaf>, OddGen<OddLeafE>>").src("#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]\npub struct OddGen2<L, R> where L: YaSerialize + YaDeserialize, R: YaSerialize + YaDeserialize { pub l: L, pub r: R, #[yaserde(attribute = true)] pub n: i32 }").g("odd"));
  b.a(en("OddGenE", vec![unit("No"), one("Yes", d(leaf)), one("All", v(d(leaf)))]).path("OddGenEnum<OddLeaf>").src("#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]\npub enum OddGenEnum<T: YaSerialize + YaDeserialize + PartialEq> { No, Yes(T), All(Vec<T>) }\nimpl<T: YaSerialize + YaDeserialize + PartialEq> Default for OddGenEnum<T> { fn default() -> Self { OddGenEnum::No } }").rn("OddGenEnum").g("odd").g("enum"));
  b.a(en("OddWhereE", vec![unit("No"), one("Yes", d(leaf)), one("All", v(d(leaf))), one("Maybe", o(d(leaf)))]).path("OddWhereEnum<OddLeaf>").src("#[derive(PartialEq, Debug, Default, YaSerialize, YaDeserialize)]\npub enum OddWhereEnum<T> where T: YaSerialize + YaDeserialize { #[default] No, Yes(T), All(Vec<T>), Maybe(Option<T>) }").rn("OddWhereEnum").g("odd").g("enum"));
  b.a(st("OddWhereS", vec![f("one", d(leaf)), f("list", v(d(leaf))), f("k", o(s(Str))).attr()]).path("OddWhere<OddLeaf>").src("#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]\npub struct OddWhere<T> where T: YaSerialize + YaDeserialize, Vec<T>: PartialEq { pub one: T, pub list: Vec<T>, #[yaserde(attribute = true)] pub k: Option<String> }").rn("OddWhere").g("odd"));
  b.a(st("OddWhereF", vec![f("one", d(leaf)).flat(), f("e", s(I32))]).path("OddWhereFlat<OddLeaf>").src("#[derive(PartialEq, Debug, YaSerialize, YaDeserialize)]\npub struct OddWhereFlat<T> where T: YaSerialize + YaDeserialize { #[yaserde(flatten = true)] pub one: T, pub e: i32 }").rn("OddWhereFlat").g("odd").g("flat"));
  // one derive only
  for (n, fs) in [
    ("Plain", vec![f("a", s(Str)), f("b", o(s(I32))).attr(), f("c", v(s(U8))), f("e", s(Bool)).dflt(Val::Bool(true))]),
    ("Texty", vec![f("a", s(Str)).text(), f("b", s(I32)).attr().dflt(i(3))]),
    ("Cdata", vec![f("a", s(Str)).cdata(), f("b", s(F32))]),
    ("Attr", vec![f("a", v(s(I32))).attr(), f("b", s(Str)).attr(), f("c", o(s(Bool))).attr()]),
  ] {
    b.a(st(&format!("OnlySer{n}"), fs.clone()).rn(&format!("only-{n}")).only_ser().g("odd"));
    b.a(st(&format!("OnlyDe{n}"), fs).rn(&format!("only-{n}")).only_de().g("odd"));
  }
  let so = b.a(st("OnlySerIn", vec![f("x", s(I32))]).only_ser().g("odd"));
  let sd = b.a(st("OnlyDeIn", vec![f("x", s(I32))]).only_de().g("odd"));
  b.a(st("OnlySerOut", vec![f("i", d(so)), f("is", v(d(so))), f("m", o(d(so)))]).only_ser().g("odd"));
  b.a(st("OnlyDeOut", vec![f("i", d(sd)), f("is", v(d(sd))), f("m", o(d(sd)))]).only_de().g("odd"));
  b.a(st("OnlySerFlat", vec![f("i", d(so)).flat(), f("k", s(Str))]).only_ser().g("odd").g("flat"));
  b.a(st("OnlyDeFlat", vec![f("i", d(sd)).flat(), f("k", s(Str))]).only_de().g("odd").g("flat"));
  b.a(en("OnlySerEnum", vec![unit("A"), one("B", s(I32)), one("C", d(so))]).only_ser().g("odd").g("enum"));
  b.a(en("OnlyDeEnum", vec![unit("A"), one("B", s(I32)), one("C", d(sd))]).only_de().g("odd").g("enum"));
}

/// Copies of declarations in modules whose names get in the way of generated code.
fn wrapped(b: &mut B) {
  const NAMES: [&str; 29] = [
    "Leaf", "Mid", "FDate", "FTime", "FBoth", "FOpt", "ESub", "Color", "Mixed", "Mixes", "VaIn", "VbIn", "FVar", "FVars", "Tagged", "Tags", "TxMix", "Cd", "Tree", "LDur", "UseLDur", "LHex16", "NsIn", "NsNest", "FRoot", "FRootE", "SkDflt1", "SkIfEq1", "SkTxIfEq",
  ];
  let methods = "(&self) -> u8 { 0 }";
  let own = |n: &str| format!("impl {n} {{ {} pub fn deserialize() -> u8 {{ 0 }} pub fn default() -> u8 {{ 0 }} pub fn from_str() -> u8 {{ 0 }} }}\n", ["serialize", "to_string", "fmt", "to_owned", "as_ref", "into_iter", "iter", "parse", "clone", "unwrap_or_default"].iter().map(|m| format!("pub fn {m}{methods}")).collect::<Vec<_>>().join(" "));
  let names = "#[allow(dead_code)] type Result<T> = ::std::result::Result<T, u8>;\npub struct Visitor; pub struct Serializer; pub struct Deserializer; pub struct XmlEvent; pub struct FromStr; pub struct Display; pub struct Default; pub struct Namespace; pub struct Read; pub struct Write; pub struct YaSerialize; pub struct YaDeserialize;\n#[allow(unused)] pub mod std {} #[allow(unused)] pub mod core {} #[allow(unused)] pub mod alloc {} #[allow(unused)] pub mod xml {} #[allow(unused)] pub mod log {} #[allow(unused)] pub mod yaserde {}\n";
  for k in 0..3 {
    let mut map: Vec<(usize, usize)> = vec![];
    for n in NAMES {
      let Some(i) = b.s.decls.iter().position(|d| d.name == n) else { panic!("harness: no {n}") };
      let mut c = b.s.decls[i].clone();
      // the element of a newtype is named like the type
      let lit = matches!(c.kind, Kind::Lit(_));
      if !lit { c.rename = Some(c.local().to_string()) }
      c.name = format!("Wr{k}{n}");
      c.path = Some(format!("wr_{k}_{}::{}", n.to_lowercase(), c.name));
      c.wrap = Some(match k { 0 => String::new(), 1 => own(&c.name), _ => names.into() });
      let me = b.s.decls.len();
      let fix = |t: &mut Ty| { fn go(t: &mut Ty, f: &dyn Fn(usize) -> usize) { match t { Ty::D(j) => *j = f(*j), Ty::O(t) | Ty::V(t) => go(t, f), _ => {} } } go(t, &|j| if j == i { me } else { map.iter().find(|m| m.0 == j).map(|m| m.1).unwrap_or(j) }) };
      match &mut c.kind {
        Kind::Struct(fs) => for f in fs { fix(&mut f.ty) },
        Kind::Enum(vs, _) => for v in vs { if let Pay::One(t) = &mut v.pay { fix(t) } },
        _ => {}
      }
      b.a(c.g("odd"));
      if !lit { b.twins.push((me, i)) }
      map.push((i, me));
    }
  }
}

const LOCALS: [&str; 28] = ["a", "b", "c", "d", "item", "value", "id", "x.y", "x-y", "Item", "ITEM", "_z", "data", "n1", "long-element-name", "ns", "type", "t", "_a", "a_", "aa", "A", "x_y", "xy", "_id", "id2", "sub-id", "items"];
const VARIANTS: [&str; 8] = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Eta", "Theta"];
const PXS: [&str; 3] = ["p", "q", "r"];

/// Identifiers and names of every length up to a hundred, also non-ASCII ones.
fn longer(r: &mut Rng, n: &str, camel: bool) -> String {
  let cap = |w: &str| { let mut c = w.chars(); c.next().map(|x| x.to_uppercase().to_string() + c.as_str()).unwrap_or_default() };
  let mut o = n.to_string();
  for _ in 0..r.below(7) {
    let w = *r.pick(&["element", "value", "of", "the", "x1", "größe", "request", "日本", "a", "identifier"]);
    o = if camel { o + &cap(w) } else { format!("{o}_{w}") };
  }
  o
}
fn long_names(b: &mut B) {
  let leaf = b.a(st("LongNamedLeafStructure", vec![f("a_rather_long_attribute_name", s(I32)).attr(), f("a_rather_long_element_name_in_snake_case", o(s(Str))), f("a_rather_long_element_name_in_snake_case2", v(s(U8))), f("another_rather_long_attribute", o(s(Str))).attr().rn("another-rather-long-attribute-name")]));
  let e = b.a(en("LongNamedEnumerationOfVariants", vec![unit("FirstVariantOfTheEnumeration"), unit("SecondVariantOfTheEnumeration").rn("second-variant-of-the-enumeration"), one("ThirdVariantOfTheEnumeration", s(Str)), one("FourthVariantOfTheEnumeration", v(d(leaf))).rn("FirstVariantOfTheEnumeratio"), unit("FifthVariant").rn("f"), unit("VariantNumberSix").rn("fifth-variant-with-a-rename-longer-than-the-identifier")]).g("enum"));
  let tg = b.a(en("LongNamedTaggedEnumeration", vec![unit("FirstVariantOfTheTagged"), unit("SecondVariantOfTheTagged").rn("second-variant-of-the-tagged"), unit("ThirdTagged").rn("t"), unit("ShortOne").rn("a-rename-that-is-much-longer-than-the-identifier")]).tag("the-kind-of-the-variant").g("enum"));
  let tn = b.a(en("LongNamedNumberedEnumeration", vec![unit("Q"), unit("FifteenChrsLong"), unit("SixteenChrsLong_"), unit("SeventeenChrsLong"), unit("SixtyThreeCharactersInAnIdentifierWhichIsMoreThanAnyoneWillWrite"), unit("größeDerAufzählung").rn("大きさ"), unit("Ab1").rn("abcdefghijklmnop"), unit("Ab2").rn("abcdefghijklmnopq"), unit("Ab3").rn("abcdefghijklmno")]).g("enum"));
  let tx = b.a(st("LongNamedTextStructure", vec![f("the_content_of_the_element", s(Str)).text(), f("the_language_of_the_content", s(Str)).attr().dflt(t("none-at-all"))]).g("text"));
  b.a(st("LongNamedOuterStructure", vec![
    f("the_first_nested_structure", d(leaf)), f("all_the_other_nested_structures", v(d(leaf))).rn("all-the-other-nested-structures.1"), f("the_enumeration", d(e)), f("all_the_enumerations", v(d(e))), f("tagged_enumeration", d(tg)), f("tagged_enumerations", v(d(tg))),
    f("numbered_enumeration", d(tn)), f("numbered_enumerations", v(d(tn))), f("numbered_attribute", d(tn)).attr(), f("the_text_structures", v(d(tx))), f("the_text_with_a_default_value", s(Str)).dflt(t("a default value that is rather long too")), f("the_character_data_section", s(Str)).cdata(),
  ]).rn("long-named-outer-structure").g("enum"));
  let fl = b.a(st("LongNamedFlattenedStructure", vec![f("a_flattened_element_with_a_long_name", s(Str)), f("a_flattened_attribute_with_a_long_name", o(s(I16))).attr(), f("a_flattened_sequence_with_a_long_name", v(d(leaf)))]));
  let k = b.a(st("LongNamedFlatteningStructure", vec![f("an_ordinary_element_with_a_long_name", s(Str)), f("the_flattened_structure", d(fl)).flat(), f("an_ordinary_sequence_with_a_long_name", v(s(Bool)))]).g("flat"));
  b.inline(k);
  let lp = "a-rather-long-prefix.1";
  let i = b.a(st("LongPrefixInner", vec![f("a_rather_long_element_name", s(Str)).px(lp), f("another", o(s(I32))).px("p")]).px(lp).ns(&[lp, "p"]).g("ns"));
  b.a(st("LongPrefixOuter", vec![f("one_of_the_inner_structures", d(i)).px(lp), f("all_of_the_inner_structures", v(d(i))).px("p"), f("attribute_without_prefix", s(Str)).attr(), f("content_as_character_data", s(Str)).cdata().px(lp)]).px(lp).ns(&[lp, "p"]).g("ns"));
}

/// Identifiers and names that are nearly the same, or those of one another; values that can be copied, so
/// that confusing them need not stop the generated code from compiling.
fn alike(b: &mut B) {
  let ids = ["size", "size_", "_size", "Size", "SIZE", "si_ze", "size1", "size_1", "size__", "r#type", "type_", "typ", "types"];
  for (n, sc) in [("U8", U8), ("F64", F64), ("Bool", Bool)] {
    b.a(st(&format!("AlikeElems{n}"), ids.iter().map(|k| f(k, s(sc))).collect()).g("coin"));
    b.a(st(&format!("AlikeAttrs{n}"), ids.iter().map(|k| f(k, s(sc)).attr()).collect()).g("coin"));
    b.a(st(&format!("AlikeOpts{n}"), ids.iter().enumerate().map(|(j, k)| if j % 2 == 0 { f(k, o(s(sc))) } else { f(k, o(s(sc))).attr() }).collect()).g("coin"));
    b.a(st(&format!("AlikeDefaults{n}"), ids.iter().enumerate().map(|(j, k)| { let x = f(k, s(sc)).dflt(sample(sc, j % 3)); if j % 3 == 1 { x.attr() } else { x } }).collect()).g("coin"));
  }
  b.a(st("AlikeLists", ids.iter().map(|k| f(k, v(s(I32)))).collect()).g("coin"));
  // each has the name of another
  let next = |k: usize| ids[(k + 1) % ids.len()].trim_start_matches("r#");
  let cr = b.a(st("CrossedElems", ids.iter().enumerate().map(|(k, x)| f(x, s(I32)).rn(next(k))).collect()).g("coin"));
  b.a(st("CrossedAttrs", ids.iter().enumerate().map(|(k, x)| f(x, s(I32)).attr().rn(next(k))).collect()).g("coin"));
  b.a(st("CrossedBoth", ids.iter().enumerate().map(|(k, x)| { let q = f(x, o(s(U16))).rn(next(k)); if k % 2 == 0 { q.attr() } else { q } }).collect()).g("coin"));
  let vs = ["Ab", "AB", "Ab_", "A_b", "ABC", "Abc", "r#Type", "Type_", "Ab1", "Ab_1"];
  let un = b.a(en("AlikeUnits", vs.iter().map(|x| unit(x)).collect()).g("coin").g("enum"));
  let uc = b.a(en("CrossedUnits", vs.iter().enumerate().map(|(k, x)| unit(x).rn(vs[(k + 1) % vs.len()].trim_start_matches("r#"))).collect()).dv(3).g("coin").g("enum"));
  let ut = b.a(en("CrossedTagged", vs.iter().enumerate().map(|(k, x)| unit(x).rn(vs[(k + 1) % vs.len()].trim_start_matches("r#"))).collect()).dv(2).tag("kind").g("coin").g("enum"));
  let pc = b.a(en("CrossedPayloads", vec![unit("Nothing").rn("None"), unit("None").rn("Nothing"), one("Ab", s(U8)).rn("AB"), one("AB", s(U8)).rn("Ab_"), one("Ab_", o(s(U8))).rn("ab"), one("A_b", v(s(U8))).rn("A_b_"), one("Abc", d(cr)).rn("ABC"), one("ABC", d(cr)).rn("Abc")]).g("coin").g("enum"));
  b.a(st("AlikeEnums", vec![f("un", d(un)), f("uc", v(d(uc))), f("ut", d(ut)), f("pc", d(pc)), f("pcs", v(d(pc))), f("maybe", o(d(pc))), f("ua", d(un)).attr(), f("ub", o(d(uc))).attr()]).g("coin").g("enum"));
  let n = b.s.decls.len() - 1;
  b.a(st("AlikeOuter", vec![f("pc", d(n)), f("un", d(pc)), f("uc", v(d(un))), f("cr", d(cr)), f("size", d(cr)), f("size_", v(d(cr)))]).g("coin").g("enum"));
}

/// Declarations with many members.
fn wide(b: &mut B) {
  let scs = [Str, U8, Bool, I64, F32, Str, I16];
  let ty = |k: usize| match k % 3 { 0 => s(scs[k % 7]), 1 => o(s(scs[k % 7])), _ => if k % 2 == 0 { v(s(scs[k % 7])) } else { s(scs[k % 7]) } };
  let wa = b.a(st("WideAttrs", (0..36).map(|k| f(&format!("a{k}"), if k % 5 == 4 { o(s(scs[k % 7])) } else { s(scs[k % 7]) }).attr()).collect()).g("wide"));
  let we = b.a(st("WideElems", (0..48).map(|k| f(&format!("e{k}"), ty(k))).collect()).g("wide"));
  b.a(st("WideNested", (0..20).map(|k| f(&format!("n{k}"), match k % 4 { 0 => o(d(wa)), 1 => v(d(0)), 2 => o(d(0)), _ => s(Str) })).chain([f("last", o(d(we)))]).collect()).g("wide"));
  let mut vs: Vec<Variant> = (0..48).map(|k| match k % 4 { 0 => unit(&format!("V{k}")), 1 => one(&format!("V{k}"), s(scs[k % 7])), 2 => one(&format!("V{k}"), v(s(scs[k % 7]))), _ => unit(&format!("V{k}")).rn(&format!("v-{k}")) }).collect();
  vs.push(one("Wide", d(wa)));
  let ve = b.a(en("WideEnum", vs).g("wide").g("enum"));
  let vt = b.a(en("WideTagged", (0..40).map(|k| if k % 3 == 0 { unit(&format!("V{k}")).rn(&format!("v-{k}")) } else { unit(&format!("V{k}")) }).collect()).dv(7).tag("kind").g("wide").g("enum"));
  b.a(st("WideEnums", vec![f("e", d(ve)), f("es", v(d(ve))), f("t", d(vt)), f("ts", v(d(vt))), f("o", o(d(vt)))]).g("wide").g("enum"));
  let fl: Vec<usize> = (0..6).map(|j| b.a(st(&format!("WideFlat{j}"), (0..6).map(|k| if k % 2 == 0 { f(&format!("x{j}_{k}"), if k == 0 { s(Str) } else { o(s(scs[(j + k) % 7])) }).attr() } else { f(&format!("x{j}_{k}"), if k == 1 { v(s(scs[(j + k) % 7])) } else { s(scs[(j + k) % 7]) }) }).collect()).g("wide"))).collect();
  let mut fs: Vec<Field> = fl.iter().enumerate().map(|(j, i)| f(&format!("m{j}"), d(*i)).flat()).collect();
  for k in 0..8 { fs.insert(k * 2 % (fs.len() + 1), if k % 2 == 0 { f(&format!("own{k}"), s(scs[k % 7])).attr() } else { f(&format!("own{k}"), o(s(scs[k % 7]))) }) }
  let wf = b.a(st("WideFlats", fs).g("wide").g("flat"));
  b.inline(wf);
  let px = ["p", "q"];
  b.a(st("WideNs", (0..24).map(|k| { let q = f(&format!("e{k}"), if k % 3 == 0 { s(Str) } else { o(s(U8)) }).px(px[k % 2]); if k % 4 == 3 { q.attr() } else { q } }).collect()).px("p").ns(&["p", "q"]).g("wide").g("ns"));
}

fn random(b: &mut B, r: &mut Rng, k: usize) {
  let base = b.s.decls.len();
  let n = 2 + r.below(4);
  let use_ns = r.chance(1, 3);
  // half of the families have long names
  let lengthy = r.chance(1, 2);
  for m in 0..n {
    let name = format!("R{k}x{m}");
    let name = if lengthy { longer(r, &name, true) } else { name };
    let pick_sc = |r: &mut Rng| *r.pick(&SCALARS);
    // earlier declarations of this family that can be nested
    let structs: Vec<usize> = (base..b.s.decls.len()).filter(|j| matches!(b.s.decls[*j].kind, Kind::Struct(_))).collect();
    let nestable: Vec<usize> = (base..b.s.decls.len()).filter(|j| !matches!(b.s.decls[*j].kind, Kind::Lit(_)) || r.chance(1, 2)).collect();
    if m + 1 < n && r.chance(1, 8) {
      // text with attributes
      let sc = pick_sc(r);
      let mut fs = vec![f("content", if r.chance(1, 3) { o(s(Str)) } else { s(Str) }).text(), f("at0", s(sc)).attr(), f("at1", o(s(pick_sc(r)))).attr().rn("second-attribute")];
      if r.chance(1, 3) { fs[1].default = Some(sample(sc, r.below(3))) }
      if lengthy { for fd in &mut fs { fd.ident = longer(r, &fd.ident.clone(), false) } }
      let at = r.below(3);
      fs.swap(0, at);
      b.a(st(&name, fs).g("text").g("random"));
      continue;
    }
    if m + 1 < n && r.chance(1, 6) {
      // tagged, or one of unit variants only
      let cnt = 2 + r.below(5);
      let vs: Vec<Variant> = (0..cnt).map(|q| {
        let id = if lengthy { longer(r, VARIANTS[q], true) } else { VARIANTS[q].to_string() };
        let va = unit(&id);
        if r.chance(1, 2) { let n = longer(r, &format!("v-{q}"), false); va.rn(&n) } else { va }
      }).collect();
      let dv = r.below(cnt);
      let mut dd = en(&name, vs).dv(dv).g("enum").g("random");
      if r.chance(1, 2) { dd = dd.tag(*r.pick(&["kind", "type", "x", "the-type-of-it"])) }
      b.a(dd);
      continue;
    }
    if m + 1 < n && r.chance(1, 4) {
      let cnt = 2 + r.below(4);
      let mut vs = vec![];
      for q in 0..cnt {
        let vn = format!("{}{q}", VARIANTS[q]);
        let vn = if lengthy { longer(r, &vn, true) } else { vn };
        let mut va = match r.below(5) {
          0 | 1 => unit(&vn),
          2 => one(&vn, s(pick_sc(r))),
          3 if !structs.is_empty() => one(&vn, match r.below(3) { 0 => v(d(*r.pick(&structs))), 1 => o(d(*r.pick(&structs))), _ => d(*r.pick(&structs)) }),
          _ => one(&vn, match r.below(2) { 0 => o(s(pick_sc(r))), _ => v(s(pick_sc(r))) }),
        };
        if r.chance(1, 3) { let n = format!("V-{}.{q}", VARIANTS[q]); va = va.rn(&if lengthy { longer(r, &n, false) } else { n }) }
        vs.push(va);
      }
      let units: Vec<usize> = (0..cnt).filter(|q| vs[*q].pay == Pay::Unit).collect();
      if units.is_empty() { vs.push(unit("Last")) }
      let dv = if units.is_empty() { cnt } else { units[r.below(units.len())] };
      b.a(en(&name, vs).dv(dv).g("enum").g("random"));
      continue;
    }
    if m + 1 < n && r.chance(1, 8) {
      let l = *r.pick(&[Lit::Prim(I16), Lit::Prim(Str), Lit::Pair, Lit::Dur, Lit::Hex(16), Lit::Prim(F32)]);
      b.a(lit(&name, l).g("lit").g("random"));
      continue;
    }
    let cnt = 1 + r.below(7);
    let mut names: Vec<(String, Option<String>)> = vec![];
    let mut attrs: Vec<String> = vec![];
    let mut fs = vec![];
    for q in 0..cnt {
      let local = r.pick(&LOCALS).to_string();
      let local = if lengthy && r.chance(1, 2) { longer(r, &local, false) } else { local };
      let px = if use_ns && r.chance(1, 2) { Some(r.pick(&PXS).to_string()) } else { None };
      let mut fd = f(&format!("f{q}"), s(Str)).rn(&local);
      if r.chance(1, 3) {
        if attrs.contains(&local) { continue }
        attrs.push(local);
        let sc = pick_sc(r);
        fd = fd.attr();
        fd.prefix = px;
        fd.ty = match r.below(4) { 0 => o(s(sc)), 1 => v(s(sc)), _ => s(sc) };
        if matches!(fd.ty, Ty::S(_)) && r.chance(1, 3) { fd.default = Some(sample(sc, r.below(3))) }
      } else {
        if names.contains(&(local.clone(), px.clone())) { continue }
        names.push((local, px.clone()));
        fd.prefix = px;
        let sc = pick_sc(r);
        let inner = if !nestable.is_empty() && r.chance(2, 5) { d(*r.pick(&nestable)) } else { s(sc) };
        fd.ty = match r.below(4) { 0 => o(inner), 1 => v(inner), _ => inner };
        if fd.ty == s(sc) && r.chance(1, 3) {
          fd.default = Some(sample(sc, r.below(3)));
          if r.chance(1, 3) { fd.skip_if = Some(SkipIf::Eq(sample(sc, r.below(3)))); fd.default = match &fd.skip_if { Some(SkipIf::Eq(x)) => Some(x.clone()), _ => None } }
        } else if fd.ty == s(Str) && r.chance(1, 5) { fd = fd.cdata() }
        else if matches!(fd.ty, Ty::O(_) | Ty::V(_)) && r.chance(1, 6) { fd = fd.skip() }
      }
      fs.push(fd);
    }
    let mut dd = st(&name, fs).g("random");
    if use_ns {
      dd = dd.ns(&PXS);
      if r.chance(1, 2) { dd = dd.px(r.pick(&PXS)) }
    }
    if r.chance(1, 2) { dd = dd.rn(r.pick(&LOCALS)) }
    b.a(dd);
  }
  // a flattening owner for two structs with separate names
  let a = b.a(st(&format!("R{k}fa"), rand_fields(r, "fa", use_ns)));
  let c = b.a(st(&format!("R{k}fb"), rand_fields(r, "fb", use_ns)));
  for j in [a, c] { if use_ns { b.s.decls[j].ns = PXS.iter().map(|p| (p.to_string(), uri(p).to_string())).collect() } }
  let mut fs = rand_fields(r, "fo", use_ns);
  let at = r.below(fs.len() + 1);
  fs.insert(at, f("m1", d(a)).flat());
  let at = r.below(fs.len() + 1);
  fs.insert(at, f("m2", d(c)).flat());
  let mut dd = st(&format!("R{k}flat"), fs).g("flat").g("random");
  if use_ns { dd = dd.ns(&PXS).px(r.pick(&PXS)) }
  let k2 = b.a(dd);
  b.inline(k2);
}
fn rand_fields(r: &mut Rng, tag: &str, use_ns: bool) -> Vec<Field> {
  let mut fs = vec![];
  for q in 0..1 + r.below(3) {
    let sc = *r.pick(&SCALARS);
    let mut fd = f(&format!("{tag}{q}"), match r.below(4) { 0 => o(s(sc)), 1 => v(s(sc)), _ => s(sc) });
    if r.chance(1, 3) { fd = fd.attr() } else if use_ns && r.chance(1, 2) { fd = fd.px(*r.pick(&PXS)) }
    if fd.ty == s(sc) && r.chance(1, 4) { fd.default = Some(sample(sc, r.below(3))) }
    fs.push(fd);
  }
  fs
}
