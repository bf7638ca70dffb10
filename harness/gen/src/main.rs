//! Writes the generated declarations: gen <out dir> <seed> <quick|thorough> [declarations to leave out]
use schema::ast::*;
use schema::universe::universe;

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let (out, seed, tier) = (&a[1], a[2].parse::<u64>().expect("seed"), a[3].as_str());
  let skip: Vec<String> = a.get(4).map(|x| x.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
  let u = universe(seed, tier == "thorough", &skip);
  let s = &u.schema;
  let n = s.decls.len();
  // declarations that refer to each other live in one crate
  let mut parent: Vec<usize> = (0..n).collect();
  fn root(p: &mut Vec<usize>, i: usize) -> usize { let mut i = i; while p[i] != i { p[i] = p[p[i]]; i = p[i] } i }
  for i in 0..n { for j in deps(&s.decls[i]) { let (a, b) = (root(&mut parent, i), root(&mut parent, j)); parent[a] = b } }
  // decls written together (generics share their definition)
  let by = |x: &str| s.decls.iter().position(|d| d.name == x);
  for (x, y) in [("OddGenA", "OddGenB")] { if let (Some(x), Some(y)) = (by(x), by(y)) { let (a, b) = (root(&mut parent, x), root(&mut parent, y)); parent[a] = b } }
  let weight = |i: usize| match &s.decls[i].kind { Kind::Struct(f) => 2 + f.len(), Kind::Enum(v, _) => 2 + v.len(), _ => 1 };
  let mut groups: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
  for i in 0..n { let r = root(&mut parent, i); groups.entry(r).or_default().push(i) }
  let mut gs: Vec<Vec<usize>> = groups.into_values().collect();
  gs.sort_by_key(|g| std::cmp::Reverse(g.iter().map(|i| weight(*i)).sum::<usize>()));
  let mut shards: Vec<(usize, Vec<usize>)> = vec![(0, vec![]); 8];
  for g in gs {
    let w: usize = g.iter().map(|i| weight(*i)).sum();
    let k = (0..8).min_by_key(|k| shards[*k].0).unwrap();
    shards[k].0 += w;
    shards[k].1.extend(g);
  }
  std::fs::create_dir_all(out).unwrap();
  for (k, (w, mut ids)) in shards.into_iter().enumerate() {
    ids.sort();
    let text = s.file(&ids);
    let path = format!("{out}/t{k}.rs");
    if std::fs::read_to_string(&path).ok().as_deref() != Some(&text) { std::fs::write(&path, &text).unwrap() }
    eprintln!("t{k}: {} declarations, weight {w}, {} bytes", ids.len(), text.len());
  }
}
