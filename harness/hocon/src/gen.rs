//! Workload generators for HOCON documents.
use crate::model::*;
use vcommon::Rng;

pub const KEYS: &[&str] = &["a", "b", "c", "d", "k1", "x-y", "_z", "Long_key-2", "42", "null", "e"];
pub const ODD_KEYS: &[&str] = &["é", "sp ace", " lead", "trail ", "#h", "{x}", "a=b", "", "ー", "q\"q", "back\\slash", "//", "[", "tab\tx", "nl\nx", "it's", "${x}", "a.b", ".", "x.", ".y", "k1.a"];

thread_local! {
  /// 0, or the size that lengths and counts are drawn around
  static SCALE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
  /// what the case may still spend on long parts: a document with several long parts inside each other costs too much
  static BUDGET: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
pub fn scale() -> usize {
  SCALE.with(|c| c.get())
}
/// The small number, or now and then one at the scale.
pub fn many(r: &mut Rng, small: usize, one_in: usize) -> usize {
  let k = scale();
  if k > 0 && r.chance(1, one_in) {
    let n = (k + r.below(3)).saturating_sub(r.below(3));
    let left = BUDGET.with(|b| b.get());
    if n <= left {
      BUDGET.with(|b| b.set(left - n));
      return n;
    }
  }
  small
}
const SCALES: &[usize] = &[8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1023, 1024, 1025, 1100, 2048, 3000, 4096, 5000, 8192, 10_000];
/// Runs a case with long texts and many entries.
pub fn at_scale<T>(r: &mut Rng, most: usize, f: impl FnOnce(&mut Rng) -> T) -> T {
  let k = (*r.pick(SCALES)).min(most);
  BUDGET.with(|b| b.set(2 * k + 2500));
  with_scale(k, || f(r))
}
pub fn with_scale<T>(k: usize, f: impl FnOnce() -> T) -> T {
  let old = SCALE.with(|c| c.replace(k));
  let x = f();
  SCALE.with(|c| c.set(old));
  x
}

pub fn plain_key(r: &mut Rng) -> String {
  if scale() > 0 && r.chance(1, 4) {
    let n = many(r, 5, 2);
    return (0..1 + n).map(|_| *r.pick(&['a', 'Z', '0', '9', '-', '_', 'q']) as char).collect();
  }
  if r.chance(1, 10) {
    (0..1 + r.below(6)).map(|_| *r.pick(&['a', 'Z', '0', '9', '-', '_', 'q']) as char).collect()
  } else {
    r.pick(KEYS).to_string()
  }
}
pub fn key(r: &mut Rng) -> String {
  if r.chance(1, 14) {
    r.pick(ODD_KEYS).to_string()
  } else {
    plain_key(r)
  }
}
pub fn path(r: &mut Rng, max: usize) -> Vec<String> {
  if r.chance(2, 3) || max < 2 {
    vec![key(r)]
  } else {
    let n = 2 + r.below(max - 1);
    if scale() > 0 && r.chance(1, 4) {
      // a long dotted path
      let n = many(r, n, 1).min(60);
      return with_scale(0, || (0..n).map(|_| plain_key(r)).collect());
    }
    (0..n).map(|_| plain_key(r)).collect()
  }
}

/// number text and its exact value
pub fn number(r: &mut Rng) -> (Dec, String) {
  let neg = r.chance(1, 3);
  let most = *r.pick(&[1, 3, 6, 18]);
  let digits = 1 + r.below(most);
  let mut int: String = (0..digits).map(|_| (b'0' + r.below(10) as u8) as char).collect();
  let t = int.trim_start_matches('0').to_string();
  int = if t.is_empty() { "0".into() } else { t };
  if r.chance(1, 10) {
    int = r.pick(&["0", "1", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"]).to_string();
  }
  let frac: String = if r.chance(1, 3) { (0..1 + r.below(6)).map(|_| (b'0' + r.below(10) as u8) as char).collect() } else { String::new() };
  let mut text = format!("{}{}", if neg { "-" } else { "" }, int);
  if !frac.is_empty() {
    text.push('.');
    text.push_str(&frac);
  }
  let mut m: i128 = format!("{}{}", int, frac).parse().unwrap();
  if neg {
    m = -m;
  }
  let mut scale = frac.len() as i64;
  if r.chance(1, 5) {
    let e = if int.len() > 12 { r.range(-5, 3) } else { r.range(-8, 8) };
    let sign = if e < 0 { "-" } else { *r.pick(&["", "+"]) };
    text.push_str(&format!("{}{}{}", r.pick(&["e", "E"]), sign, e.abs()));
    scale -= e;
  }
  while scale < 0 {
    m *= 10;
    scale += 1;
  }
  (Dec::new(m, scale as u32), text)
}

pub fn duration(r: &mut Rng) -> (Dec, usize, String) {
  // a fraction is only exact while all the digits of the product fit a decimal
  let (mut d, mut t) = number(r);
  let u = r.below(UNITS.len());
  while d.scale > 0 && d.m.checked_mul(UNITS[u].1).map_or(true, |p| p.abs() >> 96 != 0) {
    (d, t) = number(r);
  }
  let name = *r.pick(UNITS[u].2);
  let blank = *r.pick(&["", "", " ", "  ", "\t"]);
  (d, u, format!("{}{}{}", t, blank, name))
}

pub fn text(r: &mut Rng) -> String {
  const A: &[char] = &[
    'a', 'b', 'Z', '0', '9', ' ', ' ', '\t', '\n', '\r', '"', '\'', '\\', '/', '#', '$', '{', '}', '[', ']', ',', '=', ':', '.', '?', '+', '\u{8}', '\u{c}', '\0', '\u{7f}', 'é', 'ß', '日', '😀', '\u{10ffff}', '\u{ffff}',
    '\u{fffd}', 'u', 'n',
  ];
  let n = *r.pick(&[0, 1, 2, 3, 5, 8, 20]);
  let n = many(r, n, 2);
  (0..n).map(|_| *r.pick(A)).collect()
}

/// Words that look like something else but are plain text.
pub const LOOKALIKES: &[&str] = &[
  "nullable", "nul", "Null", "trueish", "True", "truefalse", "falsey", "fals", "1.2.3.4", "10x", "5sheep", "3mm", "1e", "1.", "-", "-a", "--1", "1-2", "007", "00", "0x1F", "1_000", "10.0.0.1/8", "2020-01-02", "s", "ms", "e5", ".5", "5.s", "7dd",
  "1sec", "12am", "x/y/z", "a.b.c", "é", "50%", "a@b", "nanos", "-x5", "1.5.0-rc1",
];

/// unquoted text
pub fn unquoted(r: &mut Rng) -> String {
  if r.chance(1, 3) {
    return r.pick(LOOKALIKES).to_string();
  }
  const A: &[char] = &['a', 'b', 'q', 'Z', '.', '-', '_', '@', '%', '1', '0', 'é', '日', '~', ';', '<', '|'];
  let mut words = vec![];
  let n = 1 + r.below(3);
  let n = many(r, n, 5);
  let short = n > 3;
  for i in 0..n {
    let l = 1 + r.below(5);
    let l = if short { l } else { many(r, l, 4) };
    let mut w: String = (0..l).map(|_| *r.pick(A)).collect();
    if i == 0 {
      w.insert(0, *r.pick(&['a', 'q', 'Z', 'é']));
    } else if r.chance(1, 8) {
      w.push_str("/x");
    }
    words.push(w);
  }
  let mut s = words[0].clone();
  for w in &words[1..] {
    s.push_str(*r.pick(&[" ", "  ", "\t"]));
    s.push_str(w);
  }
  s
}

pub fn literal(r: &mut Rng) -> W {
  match r.weighted(&[1, 2, 4, 3, 4, 3]) {
    0 => W::Lit(V::Null, "null".into()),
    1 => {
      let b = r.chance(1, 2);
      W::Lit(V::Bool(b), b.to_string())
    }
    2 => {
      let (d, t) = number(r);
      W::Lit(V::Num(d), t)
    }
    3 => {
      let (d, u, t) = duration(r);
      W::Lit(V::Dur(d, u), t)
    }
    4 => {
      let s = text(r);
      let q = quoted(r, &s);
      W::Lit(V::Str(s), q)
    }
    _ => {
      let s = unquoted(r);
      W::Lit(V::Str(s.clone()), s)
    }
  }
}

pub fn value(r: &mut Rng, depth: usize) -> W {
  match r.weighted(&[6, if depth > 0 { 2 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
    0 => literal(r),
    1 if scale() > 0 && r.chance(1, 2) => {
      let n = many(r, 3, 1);
      with_scale(0, || W::Arr((0..n).map(|_| value(r, 0)).collect()))
    }
    1 => W::Arr((0..r.below(5)).map(|_| value(r, depth - 1)).collect()),
    _ => W::Obj(stmts(r, depth - 1, false)),
  }
}

pub fn stmts(r: &mut Rng, depth: usize, nonempty: bool) -> Vec<Stmt> {
  let n = if nonempty { 1 } else { 0 } + r.below(5);
  if scale() > 0 && r.chance(1, 2) {
    // many entries, nearly all under names of their own
    let n = many(r, n, 1);
    return with_scale(0, || {
      (0..n)
        .map(|i| Stmt {
          path: if r.chance(1, 50) { path(r, 4) } else { vec![format!("{}{}", r.pick(&["key", "e-", "0", "N_"]), i)] },
          val: value(r, if n > 200 || depth == 0 { 0 } else { 1 }),
        })
        .collect()
    });
  }
  (0..n)
    .map(|_| Stmt {
      path: path(r, 4),
      val: value(r, depth),
    })
    .collect()
}

/// Removes statements whose path was defined or entered before: every path is defined once.
pub fn distinct(ss: Vec<Stmt>) -> Vec<Stmt> {
  let mut out: Vec<Stmt> = vec![];
  for mut s in ss {
    if out.iter().any(|o| {
      let n = o.path.len().min(s.path.len());
      o.path[..n] == s.path[..n]
    }) {
      continue;
    }
    s.val = distinct_w(s.val);
    out.push(s);
  }
  out
}
fn distinct_w(w: W) -> W {
  match w {
    W::Obj(ss) => W::Obj(distinct(ss)),
    W::Arr(ws) => W::Arr(ws.into_iter().map(distinct_w).collect()),
    w => w,
  }
}
