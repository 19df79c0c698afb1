mod gen;
mod model;
use gen::*;
use model::*;
use oni_comb_hocon_rs::model::{Config, ConfigArrayValue, ConfigDurationValue, ConfigError, ConfigFactory, ConfigMergeable, ConfigNumberValue, ConfigObjectValue, ConfigValue, Monoid, TimeUnit};
use std::collections::{BTreeMap, HashMap};
use vcommon::{guard, trunc, Ctx, Property, Rng, Suite};

const ENV: &[(&str, &str)] = &[("VH_ENV_A", "alpha"), ("VH_ENV_EMPTY", ""), ("VH_ENV_NUM", "12"), ("a", "env a"), ("x-y", "env x-y")];

fn env_of(name: &str) -> Option<String> {
  ENV.iter().find(|(k, _)| *k == name).map(|(_, v)| v.to_string())
}

fn show(s: &str) -> String {
  vcommon::trunc(&format!("{:?}", s), 900)
}

fn load(ctx: &mut Ctx, text: &str) -> Option<Result<Config, String>> {
  let factory = ConfigFactory::new();
  // every eighth text is read by a factory that has read others before, and is read twice
  let used = text.bytes().fold(text.len(), |n, b| n.wrapping_mul(31).wrapping_add(b as usize)) % 8 == 0;
  if used {
    ctx.hit("factories_used_before");
    for other in ["a = 1, b { c = 2, d = \"x\" }, x = ${?a}", "a = [1, 2", "k += 3"] {
      let _ = guard(|| factory.parse_from_string(other).is_ok());
    }
  }
  let first = guard(|| factory.parse_from_string(text));
  if let (true, Ok(first)) = (used, &first) {
    let second = guard(|| factory.parse_from_string(text));
    let same = match (first, &second) {
      (Ok(a), Ok(Ok(b))) => a.to_config_value() == b.to_config_value(),
      (Err(_), Ok(Err(_))) => true, // which of several faults is named may differ
      _ => false,
    };
    if !same {
      ctx.violation(format!("twice:{}", text), format!("reading {} twice gives {:?} and {:?}", show(text), first.as_ref().map(|c| c.to_string()), second.as_ref().map(|r| r.as_ref().map(|c| c.to_string()).ok()).ok()));
    }
  }
  match first {
    Ok(Ok(c)) => Some(Ok(c)),
    Ok(Err(e)) => Some(Err(format!("{:?}", e))),
    Err(st) => {
      ctx.violation(format!("panic:{}", text), format!("reading {} stopped: {}", show(text), st.text()));
      None
    }
  }
}

/// First difference between a configuration value and what it should be.
fn diff(cv: &ConfigValue, v: &V, at: &str) -> Option<String> {
  let cv = cv.latest();
  let bad = |what: String| Some(format!("at {:?}: {} (found {})", at, what, vcommon::trunc(&format!("{:?}", cv), 300)));
  let kinds = [
    cv.is_null(),
    cv.as_bool().is_some(),
    cv.as_number().is_some(),
    cv.as_config_duration_value().is_some(),
    cv.as_string().is_some(),
    cv.as_array().is_some(),
    cv.as_object().is_some(),
  ];
  let want = match v {
    V::Null => 0,
    V::Bool(_) => 1,
    V::Num(_) => 2,
    V::Dur(..) => 3,
    V::Str(_) => 4,
    V::Arr(_) => 5,
    V::Obj(_) => 6,
  };
  for (i, k) in kinds.iter().enumerate() {
    if *k != (i == want) {
      return bad(format!("expected kind {} = {:?}, accessors answer {:?}", want, v, kinds));
    }
  }
  match v {
    V::Null => None,
    V::Bool(b) => (cv.as_bool() != Some(*b)).then(|| ()).and_then(|_| bad(format!("expected {}", b))),
    V::Num(d) => {
      let got = cv.as_number().unwrap().to_string();
      (Dec::read(&got).as_ref() != Some(d)).then(|| ()).and_then(|_| bad(format!("expected the number {}", d.text())))
    }
    V::Dur(d, u) => dur_diff(cv, d, *u).and_then(|m| bad(m)),
    V::Str(s) => (cv.as_string() != Some(s)).then(|| ()).and_then(|_| bad(format!("expected the text {:?}", s))),
    V::Arr(vs) => {
      let a = cv.as_array().unwrap();
      if a.len() != vs.len() {
        return bad(format!("expected {} elements, found {}", vs.len(), a.len()));
      }
      a.iter().zip(vs).enumerate().find_map(|(i, (c, v))| diff(c, v, &format!("{}[{}]", at, i)))
    }
    V::Obj(m) => {
      let o = cv.as_object().unwrap();
      let mut ks: Vec<&String> = o.keys().collect();
      ks.sort();
      if ks != m.keys().collect::<Vec<_>>() {
        return bad(format!("expected the keys {:?}, found {:?}", m.keys().collect::<Vec<_>>(), ks));
      }
      m.iter().find_map(|(k, v)| diff(&o[k], v, &format!("{}.{}", at, k)))
    }
  }
}

fn nanos(d: &Dec, u: usize) -> i128 {
  // exact: truncated to whole nanoseconds
  match d.m.checked_mul(UNITS[u].1) {
    Some(p) => p / 10i128.pow(d.scale),
    None => i128::MAX,
  }
}

fn dur_diff(cv: &ConfigValue, d: &Dec, u: usize) -> Option<String> {
  let n = nanos(d, u);
  let std = cv.as_std_duration();
  let want_std = n >= 0 && n / 1_000_000_000 <= u64::MAX as i128;
  // a negative amount below a nanosecond truncates to nothing
  match std {
    Some(x) if want_std && x.as_nanos() == n as u128 => {}
    None if !want_std || (d.m < 0 && n == 0) => {}
    _ => return Some(format!("expected {} {} = {} ns as a standard duration, found {:?}", d.text(), UNITS[u].0, n, std)),
  }
  let ch = cv.as_duration();
  let lim = i64::MAX as i128 * 1_000_000;
  let want = n.abs() <= lim;
  match ch {
    Some(x) if want && x.num_seconds() as i128 * 1_000_000_000 + x.subsec_nanos() as i128 == n => None,
    None if !want => None,
    _ => Some(format!("expected {} {} = {} ns as a duration, found {:?}", d.text(), UNITS[u].0, n, ch)),
  }
}

fn is_plain(k: &str) -> bool {
  !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_')
}

/// Looks every reachable path up, and some that lead nowhere.
fn lookups(ctx: &mut Ctx, r: &mut Rng, c: &Config, text: &str, root: &BTreeMap<String, V>) {
  fn walk(m: &BTreeMap<String, V>, pre: &str, out: &mut Vec<(String, V)>) {
    for (k, v) in m {
      if !is_plain(k) {
        continue;
      }
      let p = if pre.is_empty() { k.clone() } else { format!("{}.{}", pre, k) };
      out.push((p.clone(), v.clone()));
      if let V::Obj(m) = v {
        walk(m, &p, out);
      }
    }
  }
  let mut all = vec![];
  walk(root, "", &mut all);
  // A lookup parses its path again, at a cost quadratic in the path's length, so that what is
  // looked up of a large document is a sample, starting anywhere.
  let from = match all.len() <= 64 {
    true => 0,
    false => r.below(all.len()),
  };
  let mut cost = 0usize;
  for i in 0..all.len() {
    let (p, v) = &all[(from + i) % all.len()];
    if cost > 0 && cost + p.len() * p.len() > 20_000_000 {
      continue;
    }
    cost += p.len() * p.len() + all.len() * 20;
    ctx.hit("lookup_present");
    match guard(|| (c.get_value(p).cloned(), c.has_path(p))) {
      Err(st) => ctx.violation(format!("lookup-panic:{}", text), format!("looking {:?} up in {} stopped: {}", p, show(text), st.text())),
      Ok((got, has)) => {
        let d = got.as_ref().map(|g| diff(g, v, p));
        if d != Some(None) || !has {
          ctx.violation(
            format!("lookup:{}:{}", p, text),
            format!("{}: looking up {:?} gives {:?}, has_path {}; expected {:?}; {:?}", show(text), p, got, has, v, d),
          );
        }
      }
    }
  }
  let known: std::collections::BTreeSet<&String> = all.iter().map(|(p, _)| p).collect();
  for _ in 0..4 {
    let mut p = match all.is_empty() || r.chance(1, 4) {
      true => plain_key(r),
      false => r.pick(&all).0.clone(),
    };
    match r.below(4) {
      0 => p = format!("{}.{}", p, plain_key(r)),
      1 => p = format!("{}{}", p, r.pick(&["x", "0", "-"])),
      2 => {
        p.remove(0);
      }
      _ => {
        p.pop();
      }
    }
    let legal = !p.is_empty() && p.split('.').all(is_plain);
    if !legal || known.contains(&p) {
      continue;
    }
    ctx.hit("lookup_absent");
    match guard(|| (c.get_value(&p).cloned(), c.has_path(&p))) {
      Err(st) => ctx.violation(format!("lookup-panic:{}", text), format!("looking {:?} up in {} stopped: {}", p, show(text), st.text())),
      Ok((None, false)) => {}
      Ok((g, h)) => ctx.violation(
        format!("phantom:{}:{}", p, text),
        format!("{}: {:?} does not exist but gives {:?}, has_path {}", show(text), p, g, h),
      ),
    }
  }
}

fn expect(ss: &[Stmt]) -> R {
  let t = build(ss);
  let w = World { root: &t, env: &env_of };
  w.tree(&t, &mut vec![])
}

fn write(ctx: &mut Ctx, r: &mut Rng, ss: &[Stmt]) -> String {
  let wild = r.below(4);
  let mut pen = Pen::new(r, wild);
  let mut text = pen.document(ss);
  let used = std::mem::take(&mut pen.used);
  if r.chance(1, 10) {
    text.push_str(*r.pick(&[" # end", " // end", "\n# end", " #"]));
  }
  for (k, n) in used {
    ctx.add(k, n);
  }
  text
}

/// The common oracle: the document means exactly what the model says.
fn check_doc(ctx: &mut Ctx, r: &mut Rng, ss: &[Stmt]) -> Option<(String, Option<V>)> {
  let text = write(ctx, r, ss);
  let want = expect(ss);
  if want == R::Outside {
    ctx.discarded += 1;
    return None;
  }
  let got = load(ctx, &text)?;
  match (&want, &got) {
    (R::V(v), Ok(c)) => {
      ctx.hit("accepted");
      if let Some(d) = guard(|| diff(c.to_config_value(), v, "")).unwrap_or_else(|st| Some(st.text())) {
        ctx.violation(format!("tree:{}", text), format!("{} means something else: {}", show(&text), d));
      }
      if let V::Obj(m) = v {
        lookups(ctx, r, c, &text, m);
      }
      Some((text, Some(v.clone())))
    }
    (R::V(v), Err(e)) => {
      ctx.violation(format!("rejected:{}", text), format!("{} is rejected ({}), expected {:?}", show(&text), vcommon::trunc(e, 300), v));
      None
    }
    (R::Unresolved(p), Ok(c)) => {
      ctx.violation(
        format!("unresolved:{}", text),
        format!("{} is accepted as {}, but nothing is found for ${{{}}}", show(&text), vcommon::trunc(&c.to_string(), 300), p),
      );
      None
    }
    (R::Unresolved(_), Err(_)) => {
      ctx.hit("reported_unresolved");
      Some((text, None))
    }
    _ => unreachable!(),
  }
}

fn depth(v: &V) -> usize {
  match v {
    V::Obj(m) => 1 + m.values().map(depth).max().unwrap_or(0),
    V::Arr(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
    _ => 0,
  }
}

// ------------------------------------------------------------------ H01 structure and lookup

fn structure(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let d = r.below(5);
  let ss = distinct(stmts(r, d, false));
  if let Some((text, v)) = check_doc(ctx, r, &ss) {
    if let Some(v) = &v {
      if depth(v) >= 3 {
        ctx.hit("deep");
      }
      if ss.is_empty() {
        ctx.hit("empty_document");
      }
    }
    ctx.judged(&text, !ss.is_empty());
    ctx.sample(|| show(&text));
  }
}

// ------------------------------------------------------------------ H02 duplicates and merging

fn narrow(r: &mut Rng, depth: usize) -> Vec<Stmt> {
  // (an empty object is a definition too)
  let n = if r.chance(1, 8) { 0 } else { 1 + r.below(6) };
  let n = many(r, n, 3).min(150);
  if n > 6 {
    return with_scale(0, || narrow_n(r, depth.min(1), n));
  }
  narrow_n(r, depth, n)
}
fn narrow_n(r: &mut Rng, depth: usize, n: usize) -> Vec<Stmt> {
  let keys = ["a", "b", "c"];
  (0..n)
    .map(|_| {
      let path = (0..1 + r.below(3)).map(|_| r.pick(&keys).to_string()).collect();
      let val = match r.weighted(&[5, if depth > 0 { 5 } else { 0 }, 1]) {
        0 => literal(r),
        1 => W::Obj(narrow(r, depth - 1)),
        _ => W::Arr((0..r.below(3)).map(|_| literal(r)).collect()),
      };
      Stmt { path, val }
    })
    .collect()
}

fn duplicates(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let d = r.below(4);
  let ss = narrow(r, d);
  let t = build(&ss);
  fn empties(ss: &[Stmt]) -> bool {
    ss.iter().any(|s| match &s.val {
      W::Obj(i) => i.is_empty() || empties(i),
      _ => false,
    })
  }
  if empties(&ss) {
    ctx.hit("empty_object");
  }
  fn count(t: &Tree, over: &mut u64) {
    for h in t.values() {
      if h.len() > 1 {
        *over += 1;
      }
      for i in h {
        if let Item::Obj(o) = i {
          count(o, over)
        }
      }
    }
  }
  let mut over = 0;
  count(&t, &mut over);
  if over > 0 {
    ctx.hit("replaced");
  }
  if let Some((text, _)) = check_doc(ctx, r, &ss) {
    ctx.judged(&text, ss.len() > 1);
    ctx.sample(|| show(&text));
  }
}

// ------------------------------------------------------------------ H03 numbers

fn numbers(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let (d, t) = number(r);
  let text = match r.below(4) {
    0 => format!("n={}", t),
    1 => format!("n : {} # c", t),
    2 => format!("{{n = {}}}", t),
    _ => format!("m = [{},\n{} ]\nn = {}\ne = 1", t, t, t),
  };
  let c = match load(ctx, &text) {
    None => return,
    Some(Err(e)) => {
      ctx.violation(format!("rejected:{}", text), format!("{} is rejected: {}", show(&text), e));
      return;
    }
    Some(Ok(c)) => c,
  };
  let res = guard(|| {
    let cv = match c.get_value("n") {
      Some(cv) => cv.clone(),
      None => return Some("n is missing".to_string()),
    };
    if let Some(x) = diff(&cv, &V::Num(d.clone()), "n") {
      return Some(x);
    }
    if let Some(m) = c.get_value("m") {
      let want = V::Arr(vec![V::Num(d.clone()); 2]);
      if let Some(x) = diff(m, &want, "m") {
        return Some(x);
      }
    }
    number_conversions(cv.as_config_number_value().unwrap(), &d)
  });
  match res {
    Err(st) => ctx.violation(format!("panic:{}", text), format!("using the number of {} stopped: {}", show(&text), st.text())),
    Ok(Some(m)) => ctx.violation(format!("number:{}", t), format!("{}: {}", show(&text), m)),
    Ok(None) => {}
  }
  ctx.hit(if d.m < 0 { "negative" } else { "non_negative" });
  ctx.hit(if d.scale > 0 { "fraction" } else { "integer" });
  if t.contains(['e', 'E']) {
    ctx.hit("exponent");
  }
  ctx.judged(&text, true);
  ctx.sample(|| show(&text));
}

fn number_conversions(n: &ConfigNumberValue, d: &Dec) -> Option<String> {
  let t = d.trunc();
  // fractions of negative numbers have no settled unsigned reading
  if d.scale > 0 && d.m < 0 {
    return None;
  }
  macro_rules! conv {
    ($($f:ident $t:ty),*) => {$(
      let got: Option<$t> = n.$f();
      let want = <$t>::try_from(t).ok();
      if got != want {
        return Some(format!("{} gives {:?}, expected {:?}", stringify!($f), got, want));
      }
    )*};
  }
  conv!(to_i8 i8, to_u8 u8, to_i16 i16, to_u16 u16, to_i32 i32, to_u32 u32, to_i64 i64, to_u64 u64, to_i128 i128, to_u128 u128);
  let want: f64 = d.text().parse().unwrap();
  for (name, got) in [("to_f64", n.to_f64()), ("to_f32", n.to_f32().map(|f| f as f64))] {
    match got {
      Some(g) if (g - want).abs() <= want.abs() * 1e-6 => {}
      _ => return Some(format!("{} gives {:?}, expected about {}", name, got, want)),
    }
  }
  None
}

fn number_values(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let bits = r.below(64);
  let x = (r.next() >> bits) as i128 * if r.chance(1, 2) { -1 } else { 1 };
  let big = if r.chance(1, 3) { x * (r.next() >> 33) as i128 } else { x };
  macro_rules! from {
    ($($t:ty),*) => {$(
      if let Ok(v) = <$t>::try_from(big) {
        let res = guard(|| {
          let n = ConfigNumberValue::from(v);
          let d = Dec::new(big, 0);
          if Dec::read(&n.to_string()).as_ref() != Some(&d) || Dec::read(&n.as_decimal().to_string()).as_ref() != Some(&d) {
            return Some(format!("displays as {}", n));
          }
          number_conversions(&n, &d)
        });
        match res {
          Ok(None) => ctx.hit("from_integer"),
          Ok(Some(m)) => ctx.violation(format!("from:{}:{}", stringify!($t), big), format!("ConfigNumberValue::from({}{}): {}", v, stringify!($t), m)),
          Err(st) => ctx.violation(format!("from-panic:{}:{}", stringify!($t), big), format!("ConfigNumberValue::from({}{}) stopped: {}", v, stringify!($t), st.text())),
        }
      }
    )*};
  }
  from!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, usize);
  ctx.judged(&big.to_string(), true);
  // binary fractions are exact
  let num = r.range(-1_000_000, 1_000_000);
  let f = num as f64 / 1024.0;
  let g = (num / 16) as f32 / 32.0;
  let d = Dec::read(&format!("{:.10}", f)).unwrap();
  let d32 = Dec::read(&format!("{:.10}", g)).unwrap();
  match guard(|| (ConfigNumberValue::from(f).to_string(), ConfigNumberValue::from(g).to_string())) {
    Ok((a, b)) if Dec::read(&a) == Some(d.clone()) && Dec::read(&b) == Some(d32.clone()) => ctx.hit("from_float"),
    o => ctx.violation(format!("from-float:{}", num), format!("from({}f64), from({}f32) give {:?}", f, g, o.map_err(|s| s.text()))),
  }
}

// ------------------------------------------------------------------ H04 durations

fn durations(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let (d, u, t) = duration(r);
  // a key that is a unit name must not be taken for the unit
  let next = *r.pick(&["s", "ms", "d", "minutes", "x", "hours"]);
  let (text, plain) = match r.below(4) {
    0 => (format!("n={}", t), false),
    1 => (format!("n : {}, {} = 2", t, next), false),
    2 => (format!("{{n = {} }}", t), false),
    _ => {
      let (_, nt) = number(r);
      (format!("m = {}\n{} = 2\nn = {}\nq = [{}, {}]", nt, next, t, t, t), true)
    }
  };
  let c = match load(ctx, &text) {
    None => return,
    Some(Err(e)) => {
      ctx.violation(format!("rejected:{}", text), format!("{} is rejected: {}", show(&text), e));
      return;
    }
    Some(Ok(c)) => c,
  };
  let want = V::Dur(d.clone(), u);
  let res = guard(|| {
    let n = match c.get_value("n") {
      Some(n) => n,
      None => return Some("n is missing".to_string()),
    };
    if let Some(x) = diff(n, &want, "n") {
      return Some(x);
    }
    let shown = n.to_string();
    let (a, b) = shown.split_once(' ').unwrap_or((&shown, ""));
    if Dec::read(a) != Some(d.clone()) || b != UNITS[u].0 {
      return Some(format!("displays as {:?}", shown));
    }
    if plain {
      if let Some(x) = diff(c.get_value("q")?, &V::Arr(vec![want.clone(); 2]), "q") {
        return Some(x);
      }
      if c.get_value("m").and_then(|m| m.as_number()).is_none() {
        return Some(format!("m is {:?}, not a number", c.get_value("m")));
      }
    }
    None
  });
  match res {
    Err(st) => ctx.violation(format!("panic:{}", text), format!("using the duration of {} stopped: {}", show(&text), st.text())),
    Ok(Some(m)) => ctx.violation(format!("duration:{}", t), format!("{}: {}", show(&text), m)),
    Ok(None) => {}
  }
  ctx.hit(UNITS[u].0);
  if d.scale > 0 {
    ctx.hit("fractional");
  }
  if nanos(&d, u) / 1_000_000_000 > u64::MAX as i128 {
    ctx.hit("too_long");
  }
  ctx.judged(&text, true);
  ctx.sample(|| show(&text));
}

fn duration_values(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let units = [TimeUnit::Nanoseconds, TimeUnit::Microseconds, TimeUnit::Milliseconds, TimeUnit::Seconds, TimeUnit::Minutes, TimeUnit::Hours, TimeUnit::Days];
  let u = r.below(7);
  let x = (r.next() >> r.below(64)) as i128 * if r.chance(1, 3) { -1 } else { 1 };
  let d = Dec::new(x, 0);
  let res = guard(|| {
    let v = ConfigDurationValue::new(ConfigNumberValue::from(x), units[u].clone());
    if v.to_std_duration().is_ok() != ConfigValue::Duration(v.clone()).as_std_duration().is_some() {
      return Some("as_std_duration disagrees with to_std_duration".to_string());
    }
    dur_diff(&ConfigValue::Duration(v), &d, u)
  });
  match res {
    Err(st) => ctx.violation(format!("panic:{}:{}", x, u), format!("{} {} stopped: {}", x, UNITS[u].0, st.text())),
    Ok(Some(m)) => ctx.violation(format!("conv:{}:{}", x, u), m),
    Ok(None) => ctx.hit("constructed"),
  }
  let sd = std::time::Duration::new(r.next() >> r.below(64), (r.next() % 1_000_000_000) as u32);
  match guard(|| ConfigDurationValue::from(sd).to_std_duration().ok()) {
    Ok(Some(b)) if b == sd => ctx.hit("std_round_trip"),
    o => ctx.violation(format!("std:{:?}", sd), format!("{:?} comes back as {:?}", sd, o.map_err(|s| s.text()))),
  }
  // a value of the date library's own duration type, obtained from the crate
  let y = ConfigDurationValue::new(ConfigNumberValue::from(x), units[u].clone());
  if let Ok(Ok(cd)) = guard(|| y.to_duration()) {
    match guard(|| ConfigDurationValue::from(cd).to_duration().ok()) {
      Ok(Some(b)) if b == cd => ctx.hit("chrono_round_trip"),
      o => ctx.violation(format!("chrono:{:?}", cd), format!("{:?} comes back as {:?}", cd, o.map_err(|s| s.text()))),
    }
  }
  ctx.judged(&format!("{} {}", x, u), true);
}

// ------------------------------------------------------------------ H05 substitutions

fn ref_path(r: &mut Rng, defined: &[Vec<String>]) -> Vec<String> {
  match r.weighted(&[if defined.is_empty() { 0 } else { 8 }, 2, 1]) {
    0 => {
      let p = r.pick(defined).clone();
      let n = 1 + r.below(p.len());
      p[..n].to_vec()
    }
    1 => vec![r.pick(&["VH_ENV_A", "VH_ENV_EMPTY", "VH_ENV_NUM", "VH_NOT_THERE"]).to_string()],
    _ => vec![plain_key(r), plain_key(r)],
  }
}

fn paths_of(ss: &[Stmt], pre: &[String], out: &mut Vec<Vec<String>>) {
  for s in ss {
    let mut p = pre.to_vec();
    p.extend(s.path.iter().cloned());
    if p.iter().all(|k| is_plain(k)) {
      out.push(p.clone());
      if let W::Obj(i) = &s.val {
        paths_of(i, &p, out);
      }
    }
  }
}

fn plant(w: &mut W, r: &mut Rng, defined: &[Vec<String>], n: &mut u64) {
  match w {
    W::Lit(..) => {
      if r.chance(1, 3) {
        *n += 1;
        let p = ref_path(r, defined);
        // what cannot be found is asked for as optional here; required ones that fail have their own case
        let known = defined.iter().any(|d| d.starts_with(&p)) || env_of(&p.join(".")).is_some();
        let opt = !known || r.chance(1, 2);
        *w = W::Ref(p, opt);
      }
    }
    W::Arr(ws) => ws.iter_mut().for_each(|w| plant(w, r, defined, n)),
    W::Obj(ss) => ss.iter_mut().for_each(|s| plant(&mut s.val, r, defined, n)),
    W::Ref(..) => {}
  }
}

fn substitutions(ctx: &mut Ctx, r: &mut Rng, i: u64) {
  let mut ss = if r.chance(1, 2) {
    let d = r.below(3);
    narrow(r, d)
  } else {
    let d = r.below(3);
    stmts(r, d, true)
  };
  let mut defined = vec![];
  paths_of(&ss, &[], &mut defined);
  let mut n = 0;
  for s in ss.iter_mut() {
    plant(&mut s.val, r, &defined, &mut n);
  }
  if i % 4 == 0 {
    // layered definitions of one path
    let p = vec!["layer".to_string()];
    for _ in 0..2 + r.below(3) {
      let val = match r.below(4) {
        0 => literal(r),
        1 => {
          n += 1;
          W::Ref(ref_path(r, &[]), true)
        }
        2 => W::Obj(narrow(r, 0)),
        _ => {
          n += 1;
          let p = ref_path(r, &defined);
          W::Ref(p, true)
        }
      };
      ss.push(Stmt { path: p.clone(), val });
    }
    ctx.hit("layered");
  }
  if i % 8 == 1 {
    n += 1;
    let holder = Stmt {
      path: vec!["needs".to_string()],
      val: match r.below(3) {
        0 => W::Arr(vec![W::Ref(vec!["no-such".into()], false)]),
        1 => W::Obj(vec![Stmt { path: vec!["p".into(), "q".into()], val: W::Ref(vec!["no-such".into(), "x".into()], false) }]),
        _ => W::Ref(vec!["no-such".into()], false),
      },
    };
    let at = r.below(ss.len() + 1);
    ss.insert(at, holder);
  }
  if n == 0 {
    ctx.discarded += 1;
    return;
  }
  if let Some((text, _)) = check_doc(ctx, r, &ss) {
    ctx.judged(&text, true);
    ctx.sample(|| show(&text));
  }
}

/// Look-back and cycles: they end, and never take the process down.
fn cycles(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let names = ["a1", "b1", "c1", "d1"];
  let mut text = String::new();
  let k = 1 + r.below(4);
  let selfref = r.chance(1, 4);
  let mut want: Option<V> = None;
  if selfref {
    // earlier definitions, then the name itself: the definition so far
    let (d, t) = number(r);
    let n = 1 + r.below(3);
    text.push_str(&format!("a1 = 0\na1 = {}\n", t));
    for _ in 0..n {
      text.push_str(&format!("a1 = ${{{}a1}}\n", r.pick(&["", "?"])));
    }
    want = Some(V::Num(d));
    ctx.hit("look_back");
  } else {
    for i in 0..k {
      let to = names[(i + 1) % k];
      let v = match r.below(3) {
        0 => format!("[1, ${{{}}}]", to),
        1 => format!("{{ x = ${{{}}} }}", to),
        _ => format!("${{{}}}", to),
      };
      text.push_str(&format!("{} = {}\n", names[i], v));
    }
    ctx.hit("cycle");
  }
  let res = match load(ctx, &text) {
    None => return,
    Some(x) => x,
  };
  match (&want, res) {
    (Some(v), Ok(c)) => match c.get_value("a1").map(|g| diff(g, v, "a1")) {
      Some(None) => {}
      o => ctx.violation(format!("look-back:{}", text), format!("{}: expected {:?}: {:?}", show(&text), v, o)),
    },
    (Some(_), Err(e)) => ctx.violation(format!("look-back:{}", text), format!("{} is rejected: {}", show(&text), e)),
    (None, Ok(c)) => ctx.violation(format!("cycle:{}", text), format!("{} has no solution but is accepted as {}", show(&text), vcommon::trunc(&c.to_string(), 200))),
    (None, Err(_)) => {}
  }
  ctx.judged(&text, true);
  ctx.sample(|| show(&text));
}

// ------------------------------------------------------------------ H06 strings and literals

fn strings(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let (want, w) = match r.below(6) {
    0 | 1 | 2 => {
      let s = text(r);
      let q = quoted(r, &s);
      ctx.hit(if q.starts_with('"') { "double_quoted" } else { "single_quoted" });
      if s.is_empty() {
        ctx.hit("empty_string");
      }
      if q.contains("\\u") {
        ctx.hit("unicode_escape");
      }
      if s.starts_with([' ', '#', '/', '\t']) {
        ctx.hit("leading_blank_or_comment_sign");
      }
      (V::Str(s), q)
    }
    3 | 4 => {
      let s = unquoted(r);
      ctx.hit("unquoted");
      (V::Str(s.clone()), s)
    }
    _ => {
      let (v, t) = r.pick(&[(V::Null, "null"), (V::Bool(true), "true"), (V::Bool(false), "false")]).clone();
      ctx.hit("literal");
      (v, t.to_string())
    }
  };
  let blank = *r.pick(&["", " ", "  ", "\t"]);
  let (text, at) = match r.below(7) {
    0 => (format!("k = {}", w), "k"),
    1 => (format!("k ={}{}\nz = 1", w, blank), "k"),
    2 => (format!("k:{}{},z=1", w, blank), "k"),
    3 => (format!("o {{k = {}{}}}", w, blank), "o.k"),
    4 => (format!("k = {} # c = 1\nz=1", w), "k"),
    5 => (format!("k = {} // \"c\nz=1", w), "k"),
    _ => (format!("k = {}\r\nz = {}", w, w), "k"),
  };
  match load(ctx, &text) {
    None => return,
    Some(Err(e)) => ctx.violation(format!("rejected:{}", text), format!("{} is rejected: {}", show(&text), e)),
    Some(Ok(c)) => match c.get_value(at).map(|g| diff(g, &want, at)) {
      Some(None) => {}
      o => ctx.violation(format!("string:{}", text), format!("{}: expected {:?}: {:?}", show(&text), want, o)),
    },
  }
  ctx.judged(&text, true);
  ctx.sample(|| show(&text));
}

// ------------------------------------------------------------------ H07 arrays

fn arrays(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let n = if r.chance(1, 40) { 50 + r.below(200) } else { r.below(7) };
  let d = if n > 20 { 0 } else { r.below(4) };
  let elems: Vec<W> = (0..n).map(|_| value(r, d)).collect();
  let ss = vec![Stmt { path: path(r, 3), val: W::Arr(elems) }];
  let ss = distinct(ss);
  if n > 20 {
    ctx.hit("long_array");
  }
  if n == 0 {
    ctx.hit("empty_array");
  }
  if let Some((text, _)) = check_doc(ctx, r, &ss) {
    ctx.judged(&text, n > 0);
    ctx.sample(|| show(&text));
  }
}

// ------------------------------------------------------------------ H08 display

fn display(ctx: &mut Ctx, r: &mut Rng, i: u64) {
  let d = r.below(4);
  let ss = match i % 3 {
    0 => narrow(r, d),
    1 => {
      let mut ss = stmts(r, d.min(2), true);
      let mut defined = vec![];
      paths_of(&ss, &[], &mut defined);
      let mut n = 0;
      ss.iter_mut().for_each(|s| plant(&mut s.val, r, &defined, &mut n));
      ss
    }
    _ => stmts(r, d, true),
  };
  let v = match expect(&ss) {
    R::V(v) => v,
    _ => {
      ctx.discarded += 1;
      return;
    }
  };
  let text = write(ctx, r, &ss);
  let c = match load(ctx, &text) {
    Some(Ok(c)) => c,
    _ => {
      ctx.discarded += 1;
      return;
    }
  };
  let shown = match guard(|| (c.to_string(), c.to_config_value().to_string())) {
    Ok((a, b)) => {
      // the order of keys is that of the map: the same map shows the same
      if a != b {
        ctx.violation(format!("display-differs:{}", text), format!("{}: shows {:?} and {:?}", show(&text), a, b));
      }
      a
    }
    Err(st) => {
      ctx.violation(format!("display-panic:{}", text), format!("displaying {} stopped: {}", show(&text), st.text()));
      return;
    }
  };
  match load(ctx, &shown) {
    None => {}
    Some(Err(e)) => ctx.violation(format!("display:{}", shown), format!("{} displays as {}, which is rejected: {}", show(&text), show(&shown), e)),
    Some(Ok(c2)) => {
      if let Some(d) = guard(|| diff(c2.to_config_value(), &v, "")).unwrap_or_else(|st| Some(st.text())) {
        ctx.violation(format!("display:{}", shown), format!("{} displays as {}, which means something else: {}", show(&text), show(&shown), d));
      }
      ctx.hit("read_back");
    }
  }
  ctx.judged(&shown, true);
  ctx.sample(|| show(&shown));
}

// ------------------------------------------------------------------ H09 totality

fn use_all(cv: &ConfigValue, depth: usize) -> usize {
  let mut n = 1;
  let _ = (cv.is_null(), cv.as_bool(), cv.as_string(), cv.as_number(), cv.as_duration(), cv.as_std_duration(), cv.to_string(), format!("{:?}", cv));
  let _ = (cv.latest().is_null(), cv.prev_latest().is_null(), cv.to_vec().len(), cv.contains("a"), cv.get_value("a.b"), cv.has_path("a.b"));
  if let Some(x) = cv.as_config_number_value() {
    let _ = (x.to_i8(), x.to_u64(), x.to_i128(), x.to_f64(), x.to_f32(), x.to_u128());
  }
  if depth < 40 {
    for x in cv.as_array().unwrap_or(&[]) {
      n += use_all(x, depth + 1);
    }
    if let Some(m) = cv.as_object() {
      for x in m.values() {
        n += use_all(x, depth + 1);
        if !std::ptr::eq(x, x.latest()) {
          n += use_all(x.latest(), depth + 1);
        }
      }
    }
  }
  n
}

fn totality(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  const SOUP: &[&str] = &[
    "a", "b.c", "=", ":", "{", "}", "[", "]", ",", "\"", "'", "\\", "\\u", "\\u12", "\\ud800", "${", "${?", "}", "${a}", "${?b}", "#", "//", "\n", " ", "1", "-", "1e", "1e400", "9999999999999999999999999999999999", "0.00000000000000000000000000000000001",
    "5 s", "5 hours", "99999999999999999999 days", "null", "true", "include", "include file(\"", "\")", "include file(\"/nonexistent/vh\")", "é", "\u{0}", ".", "..", "a.", "?", "a=1\n", "a{", "a=[", "a=${a}\n",
  ];
  let s: String = match r.below(6) {
    0 => (0..r.below(30)).map(|_| *r.pick(SOUP)).collect(),
    1 => {
      let d = r.below(4);
      let mut ss = stmts(r, d, true);
      let mut defined = vec![];
      paths_of(&ss, &[], &mut defined);
      let mut n = 0;
      ss.iter_mut().for_each(|s| plant(&mut s.val, r, &defined, &mut n));
      let mut t: Vec<char> = write(ctx, r, &ss).chars().collect();
      for _ in 0..1 + r.below(3) {
        if t.is_empty() {
          break;
        }
        let i = r.below(t.len());
        match r.below(4) {
          0 => {
            t.remove(i);
          }
          1 => {
            let x: Vec<char> = r.pick(SOUP).chars().collect();
            t.splice(i..i, x);
          }
          2 => t.truncate(i),
          _ => t[i] = *r.pick(&['"', '\'', '{', '}', '[', ']', '=', ',', '\\', '$', '#', ' ', '\n', '0', 'é']),
        }
      }
      t.into_iter().collect()
    }
    2 => text(r),
    3 => (0..r.below(60)).map(|_| (32 + r.below(95) as u8) as char).collect(),
    4 => {
      let n = 1 + r.below(30);
      let (o, c) = *r.pick(&[("[", "]"), ("{a=", "}"), ("a{", "}"), ("{", "}"), ("a=[", "]"), ("[{a=[", "]}]")]);
      let closed = if r.chance(1, 2) { n } else { r.below(n + 1) };
      format!("{}{}{}{}", r.pick(&["", "a=", "x "]), o.repeat(n), r.pick(&["", "1", "x", "\""]), c.repeat(closed))
    }
    _ => {
      let n = 100 + r.below(3000);
      let unit = *r.pick(&["a=1\n", "[", "a", " ", "#\n", "//x\n", "\"", "a.", "é", "1", "-", "\\", "a=b c d e\n", "a=${?a}\n", "${", ","]);
      let n = if unit == "[" { n / 40 } else if unit == "a=${?a}\n" || unit == "a=1\n" || unit == "a=b c d e\n" { n / 10 } else { n };
      ctx.hit("long");
      unit.repeat(n)
    }
  };
  match guard(|| ConfigFactory::new().parse_from_string(&s)) {
    Err(st) => ctx.violation(format!("panic:{}", s), format!("reading {} stopped: {}", show(&s), st.text())),
    Ok(Err(e)) => {
      ctx.hit("rejected");
      match guard(|| format!("{:?}", e)) {
        Err(st) => ctx.violation(format!("error-panic:{}", s), format!("the error of {} cannot be shown: {}", show(&s), st.text())),
        Ok(_) => {
          if matches!(&e, ConfigError::ParseError(m) if m.is_empty()) {
            ctx.violation(format!("empty-error:{}", s), format!("{} rejected without a message", show(&s)));
          }
        }
      }
    }
    Ok(Ok(c)) => {
      ctx.hit("accepted_any");
      match guard(|| {
        let n = use_all(c.to_config_value(), 0);
        let _ = (c.to_string(), format!("{:?}", c), c.get_value("a"), c.has_path("b.c"), c.clone().to_config_value() == c.to_config_value());
        n
      }) {
        Ok(n) => ctx.add("values_used", n as u64),
        Err(st) => ctx.violation(format!("use-panic:{}", s), format!("using {} stopped: {}", show(&s), st.text())),
      }
    }
  }
  if !s.is_ascii() {
    ctx.hit("non_ascii");
  }
  ctx.judged(&s, !s.is_empty());
  ctx.sample(|| vcommon::trunc(&show(&s), 200));
}

// ------------------------------------------------------------------ H12 malformed documents

/// Values that no configuration contains.
const BAD_VALUES: &[(&str, &[&str])] = &[
  ("bad_comma", &["[1,,2]", "[,1]", "[,]", "[1,,]", "[{a=1},,[]]", "{a=1,,b=2}", "{,a=1}", "{a=1,,}", "{,}", "[[1,,2],3]", "[ , x]", "[x #c\n, #c\n , y]"]),
  ("bad_bracket", &["[1", "[", "]", "}", "{", "1]", "x}", "[1}", "{a=1]", "{a=1", "[[1]", "[1]]", "{a={b=1}", "{a=[1}", "{a=1}}", "[{a=1]", "[\"a]\"", "{\"}\" = 1", "[1 # ]\n", "{a=1 // }\n"]),
  ("bad_text", &["\"abc\n\"", "'abc\n'", "\"abc\r\n\"", "\"\n\"", "'\n'", "\"a\\\"\n", "\"\n"]),
  ("bad_escape", &["\"\\q\"", "\"\\u12\"", "\"\\u12G4\"", "\"\\x41\"", "\"a\\\nb\"", "'\\a'", "\"\\u\"", "\"\\ \"", "\"ok\\u004\"", "\"\\u{41}\"", "\"\\'\"x\\"]),
  ("bad_reference", &["${}", "${?}", "${a..b}", "${?a..b}", "${.a}", "${?.a}", "${", "${?", "${a", "${ }", "${a}}", "${?vh-none}}", "${?a,b}", "${?{}}", "${?[a]}", "${??a}", "${?a=1}", "$ {?a}", "${?a.}", "${a.}", "${?\"}"]),
  ("missing_part", &["{a=}", "{a:}", "{a}", "{a,b=1}", "{=1}", "{a b}", "{:}", "{\"a\"}", "{a.b}", "{a=,b=1}", "{a = # 1\n}", "{{}}", "{[1]}", "[{a}]", "{ = }", "{a=1,b}"]),
  ("bad_path", &["{a..b=1}", "{.a=1}", "{a.=1}", "{..=1}", "{.=1}", "{a.b.=1}", "{.{a=1}}", "{a.{b=1}}", "{a. b=1}", "{a .b=1}", "{a.[1]}"]),
  ("juxtaposed", &["{a=1}{b=2}x", "[1][2]5", "\"a\"\"b\"", "[1] \"x\"", "{} 5", "[\"a\" \"b\"]", "\"a\"b", "null\"a\"", "['a''b']"]),
];
/// The same at the level of entries: what replaces the value of an entry together with more entries.
const BAD_ENTRIES: &[(&str, &[&str])] = &[
  ("bad_comma", &["1,,zz=2", "1 , , zz=2", "[],,zz=2", "1,#\n,zz=2"]),
  ("missing_part", &["1,=2", "1,zz", "1\nzz\n,yy=1", "1,zz,yy=1", "1\n=2", "1,{}", "1,[]", "[]\n[]", "{}\n:1"]),
  ("bad_path", &["1,zz..yy=1", "1,.zz=1", "1\nzz.=1", "1\nzz..yy{}", "1,zz.{}"]),
  ("bad_bracket", &["1\n}", "1,]", "[],]"]),
];

/// Replaces one value somewhere in the document (an entry's only, if `entry`).
fn sabotage(ss: &mut [Stmt], r: &mut Rng, entry: bool, bad: &str) {
  let i = r.below(ss.len());
  let w = &mut ss[i].val;
  fn value(w: &mut W, r: &mut Rng, entry: bool, bad: &str) -> bool {
    match w {
      W::Obj(ss) if !ss.is_empty() && r.chance(3, 4) => {
        sabotage(ss, r, entry, bad);
        true
      }
      W::Arr(ws) if !ws.is_empty() && r.chance(3, 4) => {
        let i = r.below(ws.len());
        if value(&mut ws[i], r, entry, bad) {
          return true;
        }
        if !entry {
          ws[i] = W::Lit(V::Null, bad.to_string());
        }
        !entry
      }
      _ => false,
    }
  }
  if !value(w, r, entry, bad) {
    *w = W::Lit(V::Null, bad.to_string());
  }
}

fn malformed(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let d = r.below(4);
  let mut ss = if r.chance(1, 3) { narrow(r, d) } else { stmts(r, d, true) };
  if ss.is_empty() {
    ss.push(Stmt { path: vec!["k".into()], val: literal(r) });
  }
  let mut defined = vec![];
  paths_of(&ss, &[], &mut defined);
  let mut n = 0;
  if r.chance(1, 3) {
    ss.iter_mut().for_each(|s| plant(&mut s.val, r, &defined, &mut n));
  }
  let wild = r.below(4);
  let unmark = |c: char| MARKS.iter().position(|m| *m == c).map_or(c, |i| BRACKETS[i]);
  let (kind, text): (&'static str, String) = match r.below(5) {
    0 | 1 => {
      let entry = r.chance(1, 4);
      let (kind, bads) = *r.pick(if entry { BAD_ENTRIES } else { BAD_VALUES });
      let bad = *r.pick(bads);
      sabotage(&mut ss, r, entry, bad);
      (kind, Pen::new(r, wild).document(&ss))
    }
    2 => {
      // one structural bracket lost, doubled or changed: the document cannot be read any more, whatever is around it
      let mut pen = Pen::new(r, wild);
      pen.mark = true;
      let mut t: Vec<char> = pen.document(&ss).chars().collect();
      let at: Vec<usize> = (0..t.len()).filter(|i| MARKS.contains(&t[*i])).collect();
      if at.is_empty() {
        let extra = *r.pick(&["]", "}"]);
        let text: String = t.into_iter().chain(['\n']).chain(extra.chars()).collect();
        ("extra_bracket", text)
      } else {
        let i = *r.pick(&at);
        let b = MARKS.iter().position(|m| *m == t[i]).unwrap();
        let kind = match r.below(4) {
          0 => {
            t[i] = ' ';
            "lost_bracket"
          }
          1 => {
            t.insert(i, t[i]);
            "doubled_bracket"
          }
          2 => {
            t[i] = BRACKETS[b ^ 2];
            "mixed_bracket"
          }
          _ => {
            t[i] = BRACKETS[b ^ 1];
            "turned_bracket"
          }
        };
        (kind, t.into_iter().map(unmark).collect())
      }
    }
    3 => {
      // cut off inside a bracket
      let mut pen = Pen::new(r, wild);
      pen.mark = true;
      let t: Vec<char> = pen.document(&ss).chars().collect();
      let mut depth = 0i32;
      let mut inside = vec![];
      for (i, c) in t.iter().enumerate() {
        if depth > 0 {
          inside.push(i);
        }
        match MARKS.iter().position(|m| m == c) {
          Some(0) | Some(2) => depth += 1,
          Some(_) => depth -= 1,
          None => {}
        }
      }
      if inside.is_empty() {
        let t: String = t.into_iter().chain(r.pick(&["\n{", "\nzz=[", "\nzz={", "\nzz=\"", "\nzz='x", "\nzz=${?a"]).chars()).collect();
        ("cut_off", t)
      } else {
        let n = *r.pick(&inside);
        ("cut_off", t[..n].iter().copied().map(unmark).collect())
      }
    }
    _ => {
      // more than the document
      let mut pen = Pen::new(r, wild);
      let b = pen.value(&W::Obj(ss.clone()));
      let g = pen.gap();
      if pen.r.chance(1, 2) {
        let more = *pen.r.pick(&["x = 1", "5", "}", "]", ",", "\"t\"", "${?x}", "x", "{a=1", "= 1", "null", "x.y {}", ", x = 1", "[1", "include", "\\"]);
        ("leftover", format!("{}{}{}", b, g, more))
      } else {
        let body = pen.stmts(&ss);
        match pen.r.below(3) {
          0 => ("leftover", format!("{}{}\n{}", g, body, pen.r.pick(&["}", "]", "zz", "zz =", "zz :", "= 1", "zz }", "\"", "zz = \"x", "zz = [", ": zz", "include file(\"x\"", "include file(x)"]))),
          1 => ("misplaced_start", format!("{}\n{}{}", pen.r.pick(&["}", "]", ",", "=", "= 1", ": 1,", "zz\n,", "\"x", "[", "{", "[}", "zz = [", ",,", "zz = 1,,"]), g, body)),
          _ => ("leftover", format!("{}\n,,{}", body, g)),
        }
      }
    }
  };
  match guard(|| ConfigFactory::new().parse_from_string(&text)) {
    Err(st) => ctx.violation(format!("panic:{}", text), format!("reading {} stopped: {}", show(&text), st.text())),
    Ok(Ok(c)) => ctx.violation(format!("{}:{}", kind, text), format!("{} is malformed ({}) but loads as {}", show(&text), kind, vcommon::trunc(&c.to_string(), 1000))),
    Ok(Err(ConfigError::ParseError(m))) if m.is_empty() => ctx.violation(format!("message:{}", text), format!("{} is rejected without a message", show(&text))),
    Ok(Err(_)) => ctx.hit(kind),
  }
  ctx.judged(&text, true);
  ctx.sample(|| show(&text));
}

// ------------------------------------------------------------------ H10 files and includes

/// A fresh directory for one case (cases of several suites run at once).
fn scratch() -> std::path::PathBuf {
  static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
  let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
  std::env::temp_dir().join(format!("vh-hocon-{}-{}", std::process::id(), n))
}

fn files(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let dir = scratch();
  std::fs::create_dir_all(&dir).expect("scratch");
  let keep = files_in(ctx, r, &dir);
  let _ = std::fs::remove_dir_all(&dir);
  if let Some(k) = keep {
    ctx.judged(&k, true);
    ctx.sample(|| show(&k));
  }
}

fn files_in(ctx: &mut Ctx, r: &mut Rng, dir: &std::path::Path) -> Option<String> {
  let p = |n: &str| dir.join(n).to_str().unwrap().to_string();
  let inc = |n: &str, r: &mut Rng| format!("include {}(\"{}\")", r.pick(&["file", "url"]), p(n));
  let load_file = |ctx: &mut Ctx, n: &str| match guard(|| {
    let mut factory = ConfigFactory::new();
    let first = factory.load_from_file(&p(n));
    // the same factory again: the same outcome
    let second = factory.load_from_file(&p(n));
    match (&first, &second) {
      (Ok(a), Ok(b)) if a.to_config_value() == b.to_config_value() => first,
      (Err(_), Err(_)) => first,
      _ => panic!("loaded again it gives {:?}", second.map(|c| c.to_string())),
    }
  }) {
    Ok(x) => Some(x),
    Err(st) => {
      ctx.violation(format!("panic:{}", n), format!("loading {} stopped: {}", n, st.text()));
      None
    }
  };
  match r.below(5) {
    0 | 1 => {
      // includes, one after another: the later ones override and merge
      let n = 1 + r.below(3);
      let mut all = vec![];
      let mut main = String::new();
      let mut shown = String::new();
      for k in 0..n {
        if k > 0 {
          main.push_str(*r.pick(&["\n", "\n\n", " # c\n", "\n// include file(\"x\")\n"]));
        }
        let name = format!("part {}.conf", k);
        main.push_str(&inc(&name, r));
        if r.chance(1, 5) {
          ctx.hit("missing_include");
          continue;
        }
        let d = r.below(2);
        // (merging keeps every earlier definition, so that the cost of many grows fast)
        let ss = with_scale(scale().min(20), || narrow(r, d));
        let text = write(ctx, r, &ss);
        // one level of indirection
        if r.chance(1, 3) {
          ctx.hit("nested_include");
          std::fs::write(p("deep.conf"), &text).unwrap();
          if r.chance(1, 2) || k == 0 {
            std::fs::write(p(&name), format!("# to deep\n{}\n", inc("deep.conf", r))).unwrap();
            std::fs::rename(p("deep.conf"), p(&format!("deep{}.conf", k))).unwrap();
            let t = std::fs::read_to_string(p(&name)).unwrap().replace("deep.conf", &format!("deep{}.conf", k));
            std::fs::write(p(&name), t).unwrap();
          } else {
            std::fs::write(p(&name), &text).unwrap();
          }
        } else {
          std::fs::write(p(&name), &text).unwrap();
        }
        shown.push_str(&text);
        shown.push('\u{1e}');
        all.extend(ss);
      }
      if r.chance(1, 3) {
        main = format!("# head\n{}\n", main);
      }
      std::fs::write(p("main.conf"), &main).unwrap();
      let v = match expect(&all) {
        R::V(v) => v,
        _ => return None,
      };
      match load_file(ctx, "main.conf")? {
        Ok(c) => {
          if let Some(d) = diff(c.to_config_value(), &v, "") {
            ctx.violation(format!("include:{}", shown), format!("{:?} with parts {}: {}", main, show(&shown), d));
          }
        }
        Err(e) => ctx.violation(format!("include:{}", shown), format!("{:?} with parts {} is rejected: {:?}", main, show(&shown), e)),
      }
      ctx.hit("includes");
      Some(format!("{} {}", n, shown))
    }
    2 => {
      // a file means what its content means
      let d = r.below(3);
      let ss = stmts(r, d, false);
      let text = write(ctx, r, &ss);
      std::fs::write(p("main.conf"), &text).unwrap();
      let v = match expect(&ss) {
        R::V(v) => v,
        _ => return None,
      };
      match load_file(ctx, "main.conf")? {
        Ok(c) => {
          if let Some(d) = diff(c.to_config_value(), &v, "") {
            ctx.violation(format!("file:{}", text), format!("{}: {}", show(&text), d));
          }
        }
        Err(e) => ctx.violation(format!("file:{}", text), format!("{} is rejected: {:?}", show(&text), e)),
      }
      ctx.hit("plain_file");
      Some(text)
    }
    3 => {
      // what cannot be read is reported, never taken for a configuration
      let kind = r.below(4);
      let (name, want): (&str, fn(&ConfigError) -> bool) = match kind {
        0 => ("absent.conf", |e| matches!(e, ConfigError::FileNotFoundError)),
        1 => {
          std::fs::create_dir_all(p("dir.conf")).unwrap();
          ("dir.conf", |e| matches!(e, ConfigError::FileReadError))
        }
        2 => {
          std::fs::write(p("bytes.conf"), [b'a', b'=', 0xff, 0xfe]).unwrap();
          ("bytes.conf", |e| matches!(e, ConfigError::FileReadError))
        }
        _ => {
          std::fs::write(p("bad.conf"), "a = [").unwrap();
          ("bad.conf", |e| matches!(e, ConfigError::ParseError(_)))
        }
      };
      let through = r.chance(1, 2) && kind != 0;
      let start = if through {
        std::fs::write(p("main.conf"), inc(name, r)).unwrap();
        "main.conf"
      } else {
        name
      };
      match load_file(ctx, start)? {
        Err(e) if want(&e) => {}
        o => ctx.violation(format!("unreadable:{}:{}", kind, through), format!("loading {} (included: {}) gives {:?}", name, through, o.map(|c| c.to_string()))),
      }
      ctx.hit("unreadable");
      Some(format!("unreadable {} {}", kind, through))
    }
    _ => {
      // include cycles end
      let n = 1 + r.below(3);
      for k in 0..n {
        let to = format!("c{}.conf", (k + 1) % n);
        std::fs::write(p(&format!("c{}.conf", k)), inc(&to, r)).unwrap();
      }
      match load_file(ctx, "c0.conf")? {
        Err(_) => {}
        Ok(c) => ctx.violation(format!("include-cycle:{}", n), format!("an include cycle of {} files is accepted as {}", n, c)),
      }
      ctx.hit("include_cycle");
      Some(format!("cycle {}", n))
    }
  }
}

// ------------------------------------------------------------------ H11 definition histories

/// A value as its definitions, oldest first.
type Defs = Vec<Def>;
#[derive(Clone, Debug, PartialEq)]
enum Def {
  Plain(ConfigValue),
  Arr(Vec<Defs>),
  Obj(BTreeMap<String, Defs>),
}

fn to_defs(cv: &ConfigValue) -> Defs {
  cv.to_vec()
    .iter()
    .map(|d| match (d.as_array(), d.as_object()) {
      (Some(a), _) => Def::Arr(a.iter().map(to_defs).collect()),
      (_, Some(o)) => Def::Obj(o.iter().map(|(k, v)| (k.clone(), to_defs(v))).collect()),
      _ => Def::Plain(d.clone()),
    })
    .collect()
}

/// Builds the value through the public operations alone.
fn from_defs(d: &Defs) -> ConfigValue {
  let one = |d: &Def| match d {
    Def::Plain(v) => v.clone(),
    Def::Arr(a) => ConfigValue::Array(ConfigArrayValue::new(a.iter().map(from_defs).collect())),
    Def::Obj(o) => ConfigValue::Object(ConfigObjectValue::from(o.iter().map(|(k, v)| (k.clone(), from_defs(v))).collect::<HashMap<_, _>>())),
  };
  let mut cv = one(&d[0]);
  for x in &d[1..] {
    cv.push(one(x));
  }
  cv
}

/// What counts of a value: the latest definitions all the way down.
fn settled(d: &Defs) -> V2 {
  match d.last().unwrap() {
    Def::Plain(v) => V2::Plain(v.clone()),
    Def::Arr(a) => V2::Arr(a.iter().map(settled).collect()),
    Def::Obj(o) => V2::Obj(o.iter().map(|(k, v)| (k.clone(), settled(v))).collect()),
  }
}
#[derive(Clone, Debug, PartialEq)]
enum V2 {
  Plain(ConfigValue),
  Arr(Vec<V2>),
  Obj(BTreeMap<String, V2>),
}
/// `a` with the definitions of `b` merged in, one after the other.
fn merged(a: V2, b: &Defs) -> V2 {
  b.iter().fold(a, |a, d| match (a, d) {
    (V2::Obj(mut l), Def::Obj(r)) => {
      for (k, v) in r {
        let x = match l.remove(k) {
          Some(old) => merged(old, v),
          None => settled(v),
        };
        l.insert(k.clone(), x);
      }
      V2::Obj(l)
    }
    (_, d) => settled(&vec![d.clone()]),
  })
}

fn defs(r: &mut Rng, depth: usize) -> Defs {
  let n = [1, 1, 1, 2, 2, 3, 5][r.below(7)];
  (0..n)
    .map(|_| match r.below(if depth == 0 { 4 } else { 9 }) {
      0 => Def::Plain(ConfigValue::Null),
      1 => Def::Plain(ConfigValue::Bool(r.chance(1, 2))),
      2 => Def::Plain(ConfigValue::String(format!("s{}", r.below(5)))),
      3 => Def::Plain(ConfigValue::Number(ConfigNumberValue::from(r.below(9) as i64))),
      4 => Def::Arr((0..r.below(4)).map(|_| defs(r, depth - 1)).collect()),
      _ => Def::Obj((0..r.below(4)).map(|_| (r.pick(&["x", "y", "z", "k w"]).to_string(), defs(r, depth - 1))).collect()),
    })
    .collect()
}

/// Values with histories inside values with histories.
fn nested(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let depth = r.below(4);
  let a = defs(r, depth);
  let mut cv = from_defs(&a);
  let mut now = a.clone();
  let mut log = vec![format!("{:?}", a)];
  for _ in 0..1 + r.below(5) {
    let d = r.below(4);
    let b = defs(r, d);
    let other = from_defs(&b);
    let before = cv.clone();
    let kept = to_defs(&before);
    if kept != now {
      ctx.violation(format!("nested:{:?}", log), format!("{:?} gives the definitions {:?}, expected {:?}", log, kept, now));
      return;
    }
    match r.below(4) {
      0 => {
        log.push(format!("push latest of {:?}", b));
        cv.push(other.latest().clone());
        now.push(b.last().unwrap().clone());
        ctx.hit("push");
      }
      1 => {
        log.push(format!("combine {:?}", b));
        cv.combine(&other);
        now.extend(b.clone());
        ctx.hit("combine");
      }
      2 => {
        // objects and arrays on their own
        match (now.last().unwrap().clone(), b.last().unwrap()) {
          (Def::Obj(mut l), Def::Obj(m)) => {
            log.push(format!("combine the object {:?}", m));
            let mut o = cv.latest().as_config_object_value().unwrap().clone();
            o.combine(other.latest().as_config_object_value().unwrap());
            for (k, v) in m {
              l.entry(k.clone()).or_default().extend(v.clone());
            }
            cv = ConfigValue::Object(o);
            now = vec![Def::Obj(l)];
            ctx.hit("objects_combined");
          }
          (Def::Arr(mut l), Def::Arr(m)) => {
            log.push(format!("join the array {:?}", m));
            let mut o = cv.latest().as_config_array_value().unwrap().clone();
            let x = other.latest().as_config_array_value().unwrap();
            match r.chance(1, 2) {
              true => o.combine(x),
              false => o.merge_with(x.clone()),
            }
            l.extend(m.clone());
            cv = ConfigValue::Array(o);
            now = vec![Def::Arr(l)];
            ctx.hit("arrays_joined");
          }
          _ => {}
        }
      }
      _ => {
        log.push(format!("merge {:?}", b));
        let want = merged(settled(&now), &b);
        cv.merge_with(other.clone());
        let got = to_defs(&cv);
        if settled(&got) != want {
          ctx.violation(format!("merged:{:?}", log), format!("{:?} settles at {:?}, expected {:?}", log, settled(&got), want));
          return;
        }
        now = got;
        ctx.hit("merge");
      }
    }
    // what was copied before and what was added are as they were
    if to_defs(&before) != kept || to_defs(&other) != b {
      ctx.violation(format!("shared:{:?}", log), format!("{:?}: the last operation changed its argument or an earlier copy", log));
      return;
    }
    let got = to_defs(&cv);
    if got != now {
      ctx.violation(format!("nested:{:?}", log), format!("{:?} gives the definitions {:?}, expected {:?}", log, got, now));
      return;
    }
    let want = from_defs(&now);
    let single = cv.latest().to_string();
    if cv != want && cv.to_vec() == want.to_vec() {
      ctx.violation(format!("equal:{:?}", log), format!("{:?}: two values with the same definitions differ", log));
    }
    if cv.to_string() != single {
      ctx.violation(format!("shown:{:?}", log), format!("{:?} displays as {}, its latest definition as {}", log, cv, single));
    }
    if now.len() > 1 && to_defs(cv.prev_latest()) != vec![now[now.len() - 2].clone()] {
      ctx.violation(format!("prev:{:?}", log), format!("{:?}: the definition before the latest is {:?}", log, cv.prev_latest()));
    }
    if now.len() > 4 {
      ctx.hit("long_history");
    }
  }
  let k = format!("{:?}", log);
  ctx.judged(&k, log.len() > 1);
  ctx.sample(|| trunc(&k, 1200));
}

fn history(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let lit = |r: &mut Rng| -> ConfigValue {
    match r.below(5) {
      0 => ConfigValue::Null,
      1 => ConfigValue::Bool(r.chance(1, 2)),
      2 => ConfigValue::String(format!("s{}", r.below(5))),
      3 => ConfigValue::Number(ConfigNumberValue::from(r.below(9) as i64)),
      _ => {
        let mut m = HashMap::new();
        m.insert(r.pick(&["x", "y"]).to_string(), ConfigValue::Number(ConfigNumberValue::from(r.below(9) as i64)));
        ConfigValue::Object(ConfigObjectValue::new(m))
      }
    }
  };
  let first = lit(r);
  let mut model = vec![first.clone()];
  let mut cv = first;
  let mut log = vec![format!("new {}", cv)];
  for _ in 0..r.below(8) {
    match r.below(4) {
      0 | 1 => {
        let x = lit(r);
        log.push(format!("push {}", x));
        cv.push(x.clone());
        model.push(x);
        ctx.hit("push");
      }
      2 => {
        // appending another history appends its definitions in order
        let mut other = lit(r);
        let mut om = vec![other.clone()];
        for _ in 0..r.below(4) {
          let x = lit(r);
          other.push(x.clone());
          om.push(x);
        }
        log.push(format!("combine {:?}", om));
        cv.combine(&other);
        model.extend(om);
        ctx.hit("combine");
      }
      _ => {
        // merging a value: replaces, except that objects merge
        let x = lit(r);
        log.push(format!("merge {}", x));
        let last = model.last().unwrap().clone();
        let both = last.as_object().is_some() && x.as_object().is_some();
        let want = match both {
          true => {
            let mut m = last.as_object().unwrap().clone();
            for (k, v) in x.as_object().unwrap() {
              m.insert(k.clone(), v.clone());
            }
            m
          }
          false => HashMap::new(),
        };
        cv.merge_with(x.clone());
        let ok = match both {
          true => match cv.latest().as_object() {
            Some(o) => o.len() == want.len() && want.iter().all(|(k, v)| o.get(k).map(|g| g.latest()) == Some(v.latest())),
            None => false,
          },
          false => cv.latest() == &x,
        };
        if !ok {
          ctx.violation(format!("merge:{:?}", log), format!("{:?}: the latest definition is {:?}", log, cv.latest()));
        }
        model = cv.to_vec();
        ctx.hit("merge");
      }
    }
    let v = cv.to_vec();
    if v != model || cv.latest() != model.last().unwrap() {
      ctx.violation(
        format!("history:{:?}", log),
        format!("{:?}: to_vec {:?}, latest {:?}, expected {:?}", log, v, cv.latest(), model),
      );
      break;
    }
    let prev = if model.len() > 1 { &model[model.len() - 2] } else { &model[0] };
    if cv.prev_latest() != prev {
      ctx.violation(format!("prev:{:?}", log), format!("{:?}: the definition before the latest is {:?}, expected {:?}", log, cv.prev_latest(), prev));
      break;
    }
  }
  // arrays and objects combine the same way on their own
  let (a, b): (Vec<ConfigValue>, Vec<ConfigValue>) = ((0..r.below(4)).map(|_| lit(r)).collect(), (0..r.below(4)).map(|_| lit(r)).collect());
  let joined: Vec<ConfigValue> = a.iter().chain(&b).cloned().collect();
  let (mut x, mut y) = (ConfigArrayValue::new(a.clone()), ConfigArrayValue::new(a.clone()));
  x.combine(&ConfigArrayValue::new(b.clone()));
  y.merge_with(ConfigArrayValue::new(b.clone()));
  if x.as_array() != &joined || y.as_array() != &joined {
    ctx.violation(format!("array:{:?}", (&a, &b)), format!("{:?} and {:?} combine to {:?} and merge to {:?}", a, b, x, y));
  }
  ctx.hit("arrays_joined");
  let obj = |r: &mut Rng| -> HashMap<String, ConfigValue> { (0..r.below(4)).map(|_| (r.pick(&["x", "y", "z"]).to_string(), lit(r))).collect() };
  let (l, m) = (obj(r), obj(r));
  let mut o = ConfigObjectValue::new(l.clone());
  o.combine(&ConfigObjectValue::new(m.clone()));
  let keys: std::collections::BTreeSet<&String> = l.keys().chain(m.keys()).collect();
  let ok = o.as_map().len() == keys.len()
    && keys.iter().all(|k| {
      let want: Vec<ConfigValue> = l.get(*k).into_iter().chain(m.get(*k)).cloned().collect();
      o.has_path(k) && o.as_map().get(*k).map(|v| v.to_vec()) == Some(want)
    });
  if !ok {
    ctx.violation(format!("object:{:?}", (&l, &m)), format!("{:?} and {:?} combine to {:?}", l, m, o));
  }
  ctx.hit("objects_combined");
  if model.len() > 3 {
    ctx.hit("long_history");
  }
  ctx.judged(&format!("{:?}", log), log.len() > 1);
  ctx.sample(|| vcommon::trunc(&format!("{:?}", log), 300));
}

// ------------------------------------------------------------------ long texts, many entries

macro_rules! long {
  ($name:ident, $of:ident, $most:expr) => {
    fn $name(ctx: &mut Ctx, r: &mut Rng, i: u64) {
      at_scale(r, $most, |r| $of(ctx, r, i));
      ctx.hit("long_cases");
    }
  };
}
long!(long_structure, structure, 10_000);
long!(long_duplicates, duplicates, 10_000);
long!(long_substitutions, substitutions, 1100);
long!(long_strings, strings, 10_000);
long!(long_arrays, arrays, 10_000);
long!(long_display, display, 3000);
long!(long_files, files, 10_000);

fn suite(name: &'static str, quick: u64, thorough: u64, run: vcommon::CaseFn) -> Suite {
  Suite { name, quick, thorough, run }
}

fn main() {
  for (k, v) in ENV {
    std::env::set_var(k, v);
  }
  for k in ["VH_NOT_THERE", "no-such", "no-such.x", "layer", "needs"] {
    std::env::remove_var(k);
  }
  const A: &[&str] = &["the document model and writer in harness/hocon/src/model.rs give HOCON's meaning on the forms they write"];
  vcommon::main(vec![
    Property {
      id: "H01",
      rule: "documents generated as trees and written with random layout (braces, dotted and quoted keys, = or :, commas, newlines, comments), every path defined once, and documents that define paths repeatedly; the tree and every path compared; distinct by text",
      assumptions: A,
      required: &["accepted", "deep", "empty_document", "lookup_present", "lookup_absent", "comment", "comma", "dotted_key", "quoted_key", "brace_form", "root_braces", "bare_root", "trailing_comma", "array", "long_cases"],
      suites: vec![suite("random", 60_000, 2_000_000, structure), suite("long", 1000, 20000, long_structure), suite("repeated", 25_000, 700_000, duplicates)],
    },
    Property {
      id: "H02",
      rule: "documents over three keys whose paths are defined repeatedly, by values, objects, dotted keys and arrays at every level; distinct by text; non-trivial with two statements or more",
      assumptions: A,
      required: &["accepted", "replaced", "dotted_key", "lookup_present", "empty_object", "long_cases"],
      suites: vec![suite("random", 50_000, 1_500_000, duplicates), suite("long", 1000, 20000, long_duplicates)],
    },
    Property {
      id: "H03",
      rule: "generated numbers (sign, boundary integers, fraction, exponent) in several contexts, and numbers built from every primitive type; distinct by text or value",
      assumptions: &["numbers of at most 28 digits, the precision of the decimal type"],
      required: &["negative", "non_negative", "fraction", "integer", "exponent", "from_integer", "from_float"],
      suites: vec![suite("texts", 100_000, 3_000_000, numbers), suite("values", 100_000, 3_000_000, number_values)],
    },
    Property {
      id: "H04",
      rule: "generated numbers with every unit name, followed by keys that are unit names, and durations built from numbers, units, standard and chrono durations; distinct by text or value",
      assumptions: &["numbers of at most 28 digits, the precision of the decimal type"],
      required: &["ns", "us", "ms", "s", "m", "h", "d", "fractional", "too_long", "constructed", "std_round_trip", "chrono_round_trip"],
      suites: vec![suite("texts", 100_000, 3_000_000, durations), suite("values", 100_000, 3_000_000, duration_values)],
    },
    Property {
      id: "H05",
      rule: "documents with optional and required substitutions planted at every level, to paths before and after, to the environment and to nothing, layered definitions, look-backs and cycles; distinct by text; discarded when a path leads through another substitution or the generated document is cyclic",
      assumptions: A,
      required: &["accepted", "optional_ref", "required_ref", "layered", "reported_unresolved", "look_back", "cycle"],
      suites: vec![suite("random", 80_000, 2_500_000, substitutions), suite("long", 1000, 20000, long_substitutions), suite("cycles", 10_000, 200_000, cycles)],
    },
    Property {
      id: "H06",
      rule: "texts over hostile characters written with random quotes and escapes, unquoted words including look-alikes of literals, numbers and durations, and literals, each in seven contexts; distinct by text",
      assumptions: A,
      required: &["double_quoted", "single_quoted", "empty_string", "unicode_escape", "leading_blank_or_comment_sign", "unquoted", "literal", "long_cases"],
      suites: vec![suite("random", 150_000, 4_000_000, strings), suite("long", 2000, 100000, long_strings)],
    },
    Property {
      id: "H07",
      rule: "arrays of every kind of value, nested and long, with random layout; distinct by text",
      assumptions: A,
      required: &["accepted", "long_array", "empty_array", "array", "comment"],
      suites: vec![suite("random", 40_000, 1_000_000, arrays), suite("long", 1000, 20000, long_arrays)],
    },
    Property {
      id: "H08",
      rule: "accepted documents (with duplicates and substitutions) displayed and read back; distinct by displayed text; discarded when the document has no meaning in the model or is rejected",
      assumptions: A,
      required: &["read_back", "array", "quoted_key", "dotted_key"],
      suites: vec![suite("random", 50_000, 1_500_000, display), suite("long", 1000, 20000, long_display)],
    },
    Property {
      id: "H09",
      rule: "token soup, mutated documents, hostile and random text, unbalanced nesting to 30 levels, long repetitions (to 3000); distinct by text; everything an accepted configuration offers is used",
      assumptions: &["nesting deep enough to exhaust the stack is outside"],
      required: &["accepted_any", "rejected", "long", "non_ascii", "values_used"],
      suites: vec![suite("random", 80_000, 2_000_000, totality)],
    },
    Property {
      id: "H10",
      rule: "scratch files: plain files, chains of includes with missing and nested ones, unreadable and malformed files, include cycles; distinct by content",
      assumptions: A,
      required: &["includes", "missing_include", "nested_include", "plain_file", "unreadable", "include_cycle", "long_cases"],
      suites: vec![suite("random", 15_000, 200_000, files), suite("long", 1000, 20000, long_files)],
    },
    Property {
      id: "H11",
      rule: "random sequences of push, combine and merge against a list of definitions; distinct by sequence",
      assumptions: &[],
      required: &["push", "combine", "merge", "long_history", "arrays_joined", "objects_combined"],
      suites: vec![suite("random", 150_000, 4_000_000, history), suite("nested", 150_000, 4_000_000, nested)],
    },
      Property {
      id: "H12",
      rule: "well-formed documents with one fault planted in them (bad values and entries anywhere in the tree, a structural bracket lost, doubled, changed or turned, the text cut off inside a bracket, leftovers before and after); distinct by text",
      assumptions: A,
      required: &["bad_comma", "bad_bracket", "bad_text", "bad_escape", "bad_reference", "missing_part", "bad_path", "juxtaposed", "lost_bracket", "doubled_bracket", "mixed_bracket", "turned_bracket", "extra_bracket", "cut_off", "leftover", "misplaced_start"],
      suites: vec![suite("random", 120_000, 3_000_000, malformed)],
    },
  ])
}
