mod gen;
mod oracle;
use oni_comb_uri_rs::models::authority::Authority;
use oni_comb_uri_rs::models::hier_part::HierPart;
use oni_comb_uri_rs::models::host_name::{HostName, IpLiteral};
use oni_comb_uri_rs::models::path::Path;
use oni_comb_uri_rs::models::query::Query;
use oni_comb_uri_rs::models::scheme::Scheme;
use oni_comb_uri_rs::models::uri::Uri;
use oni_comb_uri_rs::models::user_info::UserInfo;
use oracle::{Host, U};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use vcommon::{guard, Ctx, Property, Rng, Suite};

fn show(s: &str) -> String {
  vcommon::trunc(&format!("{:?}", s), 300)
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
  const A: &[char] = &[
    ':', '/', '?', '#', '[', ']', '@', '%', '.', '&', '=', '0', '9', 'a', 'g', 'v', ' ', '\t', '<', '>', '"', '\\', '^', '`', '{', '|', '}', 'é', '\0', '１',
    '\u{7f}', '-', '~', '!',
  ];
  let mut c: Vec<char> = s.chars().collect();
  for _ in 0..1 + r.below(2) {
    match r.below(6) {
      0 if !c.is_empty() => {
        let i = r.below(c.len());
        c.remove(i);
      }
      1 | 2 => {
        let i = r.below(c.len() + 1);
        c.insert(i, *r.pick(A));
      }
      3 if !c.is_empty() => {
        let i = r.below(c.len());
        c[i] = *r.pick(A);
      }
      4 if c.len() > 1 => {
        let (i, j) = (r.below(c.len()), r.below(c.len()));
        c.swap(i, j);
      }
      _ => {
        if r.chance(1, 2) {
          c.push(*r.pick(A))
        } else {
          let n = r.below(c.len() + 1);
          c.truncate(n)
        }
      }
    }
  }
  c.into_iter().collect()
}

fn parse(ctx: &mut Ctx, s: &str) -> Option<Option<Uri>> {
  match guard(|| Uri::parse(s).map_err(|e| e.to_string())) {
    Ok(Ok(u)) => Some(Some(u)),
    Ok(Err(_)) => Some(None),
    Err(st) => {
      ctx.violation(format!("panic:{}", s), format!("parsing {} stopped: {}", show(s), st.text()));
      None
    }
  }
}

fn tags(ctx: &mut Ctx, u: &U) {
  match &u.auth {
    None => ctx.hit("no_authority"),
    Some(a) => {
      ctx.hit(match a.host {
        Host::Reg(ref s) if s.is_empty() => "host_empty",
        Host::Reg(_) => "host_name",
        Host::V4(_) => "host_v4",
        Host::V6(_) => "host_v6",
        Host::Future(_) => "host_future",
      });
      match &a.user {
        Some((_, Some(_))) => ctx.hit("password"),
        Some((_, None)) => ctx.hit("user"),
        None => {}
      }
      if a.port.is_some() {
        ctx.hit("port");
      }
    }
  }
  if u.query.is_some() {
    ctx.hit("query");
  }
  if u.fragment.is_some() {
    ctx.hit("fragment");
  }
  if u.path.starts_with('/') {
    ctx.hit("path_absolute");
  } else if u.path.is_empty() {
    ctx.hit("path_empty");
  } else {
    ctx.hit("path_rootless");
  }
}

// ------------------------------------------------------------------ U01

fn check_accept(ctx: &mut Ctx, s: &str) {
  let want = oracle::parse(s);
  let Some(got) = parse(ctx, s) else { return };
  ctx.judged(s, !s.is_empty());
  match (&got, &want) {
    (Some(_), Some(_)) => ctx.hit("accepted"),
    (None, None) => ctx.hit("rejected"),
    (Some(u), None) => ctx.violation(format!("accepted:{}", s), format!("{} is not a URI but parsed to {}", show(s), show(&u.to_string()))),
    (None, Some(u)) => ctx.violation(format!("rejected:{}", s), format!("{} is a URI ({:?}) but was rejected", show(s), u)),
  }
  if let Some(u) = &want {
    tags(ctx, u);
  }
  let b = want.is_some();
  ctx.sample(|| format!("{} accepted={}", show(s), b));
}
fn accept(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let mut s = gen::uri(r, true);
  if r.chance(2, 5) {
    s = mutate(r, &s);
  }
  check_accept(ctx, &s);
}
/// Every ASCII character at every place of a URI that has all components.
fn placed(ctx: &mut Ctx, _: &mut Rng, i: u64) {
  let c = i as u8 as char;
  let base = "ab:c//u1:p2@h3.x:45/s6/t7?k8=v9&w#f0";
  for k in 0..=base.len() {
    let mut s = base.to_string();
    s.insert(k, c);
    check_accept(ctx, &s);
    if k < base.len() {
      let t = format!("{}{}{}", &base[..k], c, &base[k + 1..]);
      check_accept(ctx, &t);
    }
    for base2 in ["http://[::1]:8/", "a:/b", "a:b", "a:?q#f", "f:///x", "z://1.2.3.4:5"] {
      if k <= base2.len() {
        let mut s = base2.to_string();
        s.insert(k, c);
        check_accept(ctx, &s);
      }
    }
    ctx.hit("placed");
  }
}

// ------------------------------------------------------------------ U02

fn host_of(h: &HostName) -> Host {
  match h {
    HostName::RegName(s) => Host::Reg(s.clone()),
    HostName::Ipv4Address(a) => Host::V4(*a),
    HostName::IpLiteral(IpLiteral::Ipv6Address(a)) => Host::V6(*a),
    HostName::IpLiteral(IpLiteral::IpvFuture(s)) => Host::Future(s.clone()),
  }
}
fn differences(u: &Uri, w: &U) -> Vec<String> {
  let mut d = vec![];
  let mut cmp = |what: &str, got: String, want: String| {
    if got != want {
      d.push(format!("{}: {} expected {}", what, vcommon::trunc(&got, 200), vcommon::trunc(&want, 200)));
    }
  };
  cmp("scheme", format!("{:?}", u.schema().map(|s| s.to_string())), format!("{:?}", Some(&w.scheme)));
  cmp("authority", u.authority().is_some().to_string(), w.auth.is_some().to_string());
  let a = w.auth.as_ref();
  cmp("host", format!("{:?}", u.host_name().map(host_of)), format!("{:?}", a.map(|a| &a.host)));
  cmp("port", format!("{:?}", u.port()), format!("{:?}", a.and_then(|a| a.port)));
  cmp(
    "user info",
    format!("{:?}", u.user_info().map(|i| (i.user_name().to_string(), i.password().map(|p| p.to_string())))),
    format!("{:?}", a.and_then(|a| a.user.clone())),
  );
  if let Some(x) = u.authority() {
    cmp("authority host", format!("{:?}", host_of(x.host_name())), format!("{:?}", a.map(|a| a.host.clone()).unwrap()));
    cmp("authority port", format!("{:?}", x.port()), format!("{:?}", a.and_then(|a| a.port)));
    cmp("authority user", x.user_info().is_some().to_string(), a.map_or(false, |a| a.user.is_some()).to_string());
  }
  cmp("path", format!("{:?}", u.path().map(|p| p.to_string()).unwrap_or_default()), format!("{:?}", w.path));
  cmp("path parts", format!("{:?}", u.path().map(|p| p.parts().clone()).unwrap_or_default()), format!("{:?}", w.parts));
  cmp("query", format!("{:?}", u.query()), format!("{:?}", w.query.clone().map(Query::new)));
  cmp("query text", format!("{:?}", u.query().map(|q| q.as_string())), format!("{:?}", w.query.as_ref().map(|q| oracle::query_text(q))));
  cmp("fragment", format!("{:?}", u.fragment()), format!("{:?}", w.fragment.as_ref()));
  cmp("is_absolute", u.is_absolute().to_string(), w.fragment.is_none().to_string());
  d
}
fn components(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let hostile = r.chance(1, 2);
  let s = gen::uri(r, hostile);
  check_components(ctx, s);
}
fn check_components(ctx: &mut Ctx, s: String) {
  let Some(w) = oracle::parse(&s) else {
    ctx.discarded += 1;
    return;
  };
  let Some(got) = parse(ctx, &s) else { return };
  ctx.judged(&s, true);
  tags(ctx, &w);
  match got {
    None => ctx.violation(format!("rejected:{}", s), format!("{} was rejected", show(&s))),
    Some(u) => {
      let d = differences(&u, &w);
      if !d.is_empty() {
        ctx.violation(format!("components:{}", s), format!("{}: {}", show(&s), d.join("; ")));
      }
    }
  }
  ctx.sample(|| format!("{} -> {:?}", show(&s), w));
}

// ------------------------------------------------------------------ U03

fn hash<T: Hash>(t: &T) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  t.hash(&mut h);
  h.finish()
}
fn build(w: &U, rootless: bool, how: usize) -> Uri {
  let parts = &w.parts;
  let path = if parts.is_empty() && w.auth.is_none() {
    Path::of_empty()
  } else if rootless {
    Path::of_rootless_from_strings(parts)
  } else {
    Path::of_abempty_from_strings(parts)
  };
  let auth = w.auth.as_ref().map(|a| {
    let host = match &a.host {
      Host::Reg(s) => HostName::RegName(s.clone()),
      Host::V4(x) => HostName::Ipv4Address(*x),
      Host::V6(x) => HostName::IpLiteral(IpLiteral::Ipv6Address(*x)),
      Host::Future(s) => HostName::IpLiteral(IpLiteral::IpvFuture(s.clone())),
    };
    Authority::new(host, a.port, a.user.clone().map(|(n, p)| match how % 2 {
      0 => UserInfo::new(n, p),
      _ => UserInfo::from((n.as_str(), p.as_deref())),
    }))
  });
  Uri::new(
    Some(match how / 2 % 4 {
      0 => Scheme::new(w.scheme.clone()),
      1 => Scheme::from(w.scheme.clone()),
      2 => Scheme::from(w.scheme.as_str()),
      _ => Scheme::from(w.scheme.as_bytes()),
    }),
    Some(match auth {
      None if how % 3 == 0 => HierPart::of_path(path),
      a => HierPart::new(a, path),
    }),
    w.query.clone().map(Query::new),
    w.fragment.clone(),
  )
}
fn roundtrip(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let hostile = r.chance(1, 2);
  let s = gen::uri(r, hostile);
  check_roundtrip(ctx, r, s);
}
fn check_roundtrip(ctx: &mut Ctx, r: &mut Rng, s: String) {
  let Some(w) = oracle::parse(&s) else {
    ctx.discarded += 1;
    return;
  };
  let Some(Some(u)) = parse(ctx, &s) else {
    ctx.discarded += 1;
    return;
  };
  ctx.judged(&s, true);
  tags(ctx, &w);
  let text = match guard(|| u.to_string()) {
    Ok(t) => t,
    Err(st) => {
      ctx.violation(format!("display-panic:{}", s), format!("displaying {} stopped: {}", show(&s), st.text()));
      return;
    }
  };
  let canon = oracle::canonical(&w);
  if text != canon {
    ctx.violation(format!("display:{}", s), format!("{} displays as {}, expected {}", show(&s), show(&text), show(&canon)));
  }
  ctx.hit(if canon == s { "identical_text" } else { "canonicalised" });
  match parse(ctx, &text) {
    Some(Some(v)) => {
      if v != u {
        ctx.violation(format!("reparse:{}", s), format!("{} displays as {}, which parses to something else: {:?} / {:?}", show(&s), show(&text), u, v));
      } else if hash(&u) != hash(&v) {
        ctx.violation(format!("hash:{}", s), format!("{}: equal URIs hash differently", show(&s)));
      }
      if v.to_string() != text {
        ctx.violation(format!("stable:{}", s), format!("{}: displaying again gives {}", show(&s), show(&v.to_string())));
      }
    }
    Some(None) => ctx.violation(format!("reparse:{}", s), format!("{} displays as {}, which is rejected", show(&s), show(&text))),
    None => {}
  }
  // the same URI built from its components displays and parses the same
  let b = build(&w, !w.path.starts_with('/') && !w.path.is_empty(), r.below(24));
  let bt = b.to_string();
  if bt != canon {
    ctx.violation(format!("built:{}", s), format!("built from the components of {} displays as {}", show(&s), show(&bt)));
  }
  let d = differences(&b, &w);
  if !d.is_empty() {
    ctx.violation(format!("built-components:{}", s), format!("built from the components of {}: {}", show(&s), d.join("; ")));
  }
  for (what, part, want) in [
    ("authority", b.authority().map(|a| a.to_string()), w.auth.as_ref().map(|_| canon_auth(&w))),
    ("scheme", b.schema().map(|a| a.to_string()), Some(w.scheme.clone())),
    ("hier part", Some(HierPart::new(b.authority().cloned(), b.path().unwrap().clone()).to_string()), Some(format!("{}{}", w.auth.as_ref().map(|_| format!("//{}", canon_auth(&w))).unwrap_or_default(), w.path))),
  ] {
    if part != want {
      ctx.violation(format!("part-display:{}:{}", what, s), format!("{} of {} displays as {:?}, expected {:?}", what, show(&s), part, want));
    }
  }
  // a different text of the same shape is a different URI
  let t = match r.chance(1, 2) {
    true => mutate(r, &s),
    false => gen::uri(r, false),
  };
  if let (Some(x), Some(Some(v))) = (oracle::parse(&t), parse(ctx, &t)) {
    if (oracle::canonical(&x) == canon) != (v == u) {
      ctx.violation(format!("eq:{}|{}", s, t), format!("{} and {} compare {}", show(&s), show(&t), v == u));
    }
    if v == u && hash(&v) != hash(&u) {
      ctx.violation(format!("hash:{}|{}", s, t), format!("{} and {} are equal and hash differently", show(&s), show(&t)));
    }
  }
  ctx.sample(|| format!("{} <-> {}", show(&s), show(&canon)));
}
fn canon_auth(w: &U) -> String {
  let c = oracle::canonical(&U { scheme: "x".into(), path: String::new(), parts: vec![], query: None, fragment: None, auth: w.auth.clone() });
  c["x://".len()..].to_string()
}

// ------------------------------------------------------------------ U04

fn check_host(ctx: &mut Ctx, h: &str) {
  let s = format!("x://{}/", h);
  let want = oracle::host(h);
  let Some(got) = parse(ctx, &s) else { return };
  ctx.judged(h, true);
  let got = got.and_then(|u| u.host_name().map(host_of));
  if got != want {
    ctx.violation(format!("host:{}", h), format!("host {} read as {:?}, expected {:?}", show(h), got, want));
  }
  match want {
    Some(Host::Reg(_)) => ctx.hit("reg_name"),
    Some(Host::V4(_)) => ctx.hit("v4"),
    Some(Host::V6(_)) => ctx.hit("v6"),
    Some(Host::Future(_)) => ctx.hit("future"),
    None => ctx.hit("no_host"),
  }
}
fn hosts(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let h = loop {
    let h = match r.below(6) {
      0 => gen::v4(r, true),
      1 => format!("[{}]", gen::v6(r, false)),
      2 => format!("[{}]", gen::v6(r, true)),
      3 => gen::host(r, true),
      4 => {
        let v = gen::v6(r, false);
        format!("[{}]", mutate(r, &v))
      }
      _ => {
        let v = gen::v4(r, false);
        mutate(r, &v)
      }
    };
    // characters that end or restructure the authority are other properties' business
    if !h.contains(&['/', '?', '#', '@'][..]) && (h.starts_with('[') || !h.contains(':')) && !(h.starts_with('[') && h.find(']') != Some(h.len() - 1)) {
      break h;
    }
  };
  check_host(ctx, &h);
  ctx.sample(|| h);
}
/// Every IPv4-shaped text with one octet from 0 to 1099 (with and without leading zeros) at each place.
fn octets(ctx: &mut Ctx, _: &mut Rng, i: u64) {
  for k in 0..4 {
    for t in [format!("{}", i), format!("{:02}", i), format!("{:03}", i), format!("0{}", i)] {
      let mut o = ["1".to_string(), "22".into(), "133".into(), "244".into()];
      o[k] = t;
      check_host(ctx, &o.join("."));
    }
  }
  ctx.hit("octets");
}
/// Every split of groups around `::` (and none), hex and dotted tails, up to nine groups.
fn shapes(ctx: &mut Ctx, r: &mut Rng, i: u64) {
  let groups = ["1", "ab", "0", "0000", "ffff", "00F0", "9", "c0d", "12"];
  let tail = ["", "1.2.3.4", "0.0.0.0", "255.255.255.255"][i as usize % 4];
  for left in 0..=9 {
    for right in 0..=9 {
      let mk = |r: &mut Rng, n: usize| (0..n).map(|_| r.pick(&groups).to_string()).collect::<Vec<_>>();
      let l = mk(r, left).join(":");
      let mut rt = mk(r, right);
      if !tail.is_empty() {
        rt.push(tail.to_string());
      }
      check_host(ctx, &format!("[{}::{}]", l, rt.join(":")));
      if left == 0 {
        check_host(ctx, &format!("[{}]", rt.join(":")));
        check_host(ctx, &format!("[:{}]", rt.join(":")));
        check_host(ctx, &format!("[{}:]", rt.join(":")));
      }
      ctx.hit("shapes");
    }
  }
}

// ------------------------------------------------------------------ U05

fn queries(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let key = |r: &mut Rng| r.pick(&["", "a", "b", "ab", "k%20", "Z"]).to_string();
  let n = r.below(5);
  let n = gen::many(r, n).min(400);
  let mut model: Vec<(String, Option<String>)> = (0..n).map(|_| (key(r), if r.chance(2, 3) { Some(gen::chars(r, 0, 3, &['='])) } else { None })).collect();
  for kv in model.iter_mut() {
    kv.1 = kv.1.as_ref().map(|v| v.replace('&', "."));
  }
  let mut q = match r.below(4) {
    0 => Query::from(model.clone()),
    1 => Query::from(model.iter().map(|(k, v)| (k.as_str(), v.as_deref())).collect::<Vec<(&str, Option<&str>)>>()),
    2 if !model.is_empty() => {
      let s = format!("x:?{}", oracle::query_text(&model));
      match parse(ctx, &s) {
        Some(Some(u)) => u.query().unwrap().clone(),
        _ => {
          ctx.violation(format!("query-rejected:{}", s), format!("{} was rejected", show(&s)));
          return;
        }
      }
    }
    _ => Query::new(model.clone()),
  };
  for _ in 0..r.below(6) {
    let k = key(r);
    let v = gen::chars(r, 0, 3, &[]).replace('&', ".");
    match r.below(4) {
      0 => {
        q.add_opt(k, None);
        ctx.hit("add_none");
      }
      1 => {
        q.add_opt(k.clone(), Some(v.clone()));
        model.push((k, Some(v)));
      }
      _ => {
        q.add(k.clone(), v.clone());
        model.push((k, Some(v)));
        ctx.hit("add");
      }
    }
  }
  let key_s = format!("{:?}", model);
  ctx.judged(&key_s, !model.is_empty());
  let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
  for (k, v) in &model {
    let e = want.entry(k.clone()).or_default();
    if let Some(v) = v {
      e.push(v.clone());
    }
  }
  let got: BTreeMap<String, Vec<String>> =
    q.params().into_iter().map(|(k, v)| (k.clone(), v.into_iter().cloned().collect())).collect();
  if got != want {
    ctx.violation(format!("params:{}", key_s), format!("{} has parameters {:?}, expected {:?}", q, got, want));
  }
  let keys: BTreeSet<String> = model.iter().map(|m| m.0.clone()).chain(["nope".to_string()]).collect();
  for k in keys {
    let g: Option<Vec<String>> = q.get_param(k.clone()).map(|v| v.into_iter().cloned().collect());
    if g != want.get(&k).cloned() {
      ctx.violation(format!("get_param:{}:{}", k, key_s), format!("{} get_param({:?}) = {:?}, expected {:?}", q, k, g, want.get(&k)));
    }
  }
  let t = oracle::query_text(&model);
  if q.as_string() != t || q.to_string() != t {
    ctx.violation(format!("query-text:{}", key_s), format!("query displays as {:?}, expected {:?}", q.to_string(), t));
  }
  if q != Query::new(model.clone()) {
    ctx.violation(format!("query-eq:{}", key_s), format!("{} differs from a query with the same parameters", q));
  }
  if model.iter().enumerate().any(|(i, m)| model[..i].iter().any(|x| x.0 == m.0)) {
    ctx.hit("repeated_keys");
  }
  let other = Query::new(model.iter().skip(1).cloned().collect());
  if q.partial_cmp(&other) != t.partial_cmp(&other.to_string()) {
    ctx.violation(format!("query-order:{}", key_s), "query order differs from the order of its text".to_string());
  }
  ctx.hit("queries");
  ctx.sample(|| t);
}
fn paths(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let part = |r: &mut Rng| {
    let c = gen::chars(r, 0, 4, &[':', '@']);
    if r.chance(2, 3) { format!("/{}", c) } else { c }
  };
  let n = r.below(4);
  let n = gen::many(r, n).min(400);
  let mut model: Vec<String> = (0..n).map(|_| part(r)).collect();
  let strs: Vec<&str> = model.iter().map(|s| s.as_str()).collect();
  let (mut p, name) = match r.below(8) {
    0 => (Path::of_rootless_from_strs(&strs), "rootless_path"),
    1 => (Path::of_rootless_from_strings(&model), "rootless_path"),
    2 => (Path::of_abempty_from_strs(&strs), "abempty_path"),
    3 => (Path::of_abempty_from_strings(&model), "abempty_path"),
    4 => (Path::of_absolute_from_strs(&strs), "absolute_path"),
    5 => (Path::of_absolute_from_strings(&model), "absolute_path"),
    6 => (Path::of_no_scheme_from_strs(&strs), "no_scheme_path"),
    _ => (Path::of_no_scheme_from_strings(&model), "no_scheme_path"),
  };
  for _ in 0..r.below(5) {
    match r.below(4) {
      0 => {
        let x = part(r);
        p.add_part(x.clone());
        model.push(x);
      }
      1 => {
        let x: Vec<String> = (0..r.below(3)).map(|_| part(r)).collect();
        p.add_parts(x.clone());
        model.extend(x);
      }
      2 => {
        let q = p.to_rootless();
        if q.type_name() != "rootless_path" || q.parts() != p.parts() {
          ctx.violation(format!("to_rootless:{:?}", model), format!("{:?} to_rootless gave {:?}", p, q));
        }
      }
      _ => {
        let q = p.to_absolute();
        if q.type_name() != "absolute_path" || q.parts() != p.parts() {
          ctx.violation(format!("to_absolute:{:?}", model), format!("{:?} to_absolute gave {:?}", p, q));
        }
      }
    }
  }
  let key = format!("{} {:?}", name, model);
  ctx.judged(&key, !model.is_empty());
  if *p.parts() != model || p.type_name() != name || p.is_empty() != model.is_empty() || p.non_empty() == model.is_empty() || p.to_string() != model.concat() {
    ctx.violation(format!("path:{}", key), format!("{:?} should hold {} and display as {:?}", p, key, model.concat()));
  }
  let e = Path::default();
  if !e.is_empty() || e.to_string() != "" || e != Path::of_empty() {
    ctx.violation("path-empty", format!("the empty path is {:?}", e));
  }
  ctx.hit("paths");
}

// ------------------------------------------------------------------ short texts
const TOKENS: &[&str] = &["a", ":", "/", "//", "?", "#", "[::1]", "@", "1", "%41", ".", "&", "=", "-", "1.2.3.4"];
/// Every text of up to five tokens after `x` and after `x:`.
fn short(i: u64, mut f: impl FnMut(String)) {
  let n = TOKENS.len() as u64;
  let (a, b) = (TOKENS[(i / n % n) as usize], TOKENS[(i % n) as usize]);
  let head = if i / n / n == 0 { "x" } else { "x:" };
  if i % n == 0 {
    f(format!("{}{}", head, a));
  }
  f(format!("{}{}{}", head, a, b));
  for c in TOKENS {
    f(format!("{}{}{}{}", head, a, b, c));
    for d in TOKENS {
      f(format!("{}{}{}{}{}", head, a, b, c, d));
      if head == "x:" {
        for e in TOKENS {
          f(format!("{}{}{}{}{}{}", head, a, b, c, d, e));
        }
      }
    }
  }
}
fn short_accept(ctx: &mut Ctx, _: &mut Rng, i: u64) {
  short(i, |s| check_accept(ctx, &s));
  ctx.hit("short_texts");
}
fn short_components(ctx: &mut Ctx, _: &mut Rng, i: u64) {
  short(i, |s| check_components(ctx, s));
  ctx.hit("short_texts");
}
fn short_roundtrip(ctx: &mut Ctx, r: &mut Rng, i: u64) {
  short(i, |s| check_roundtrip(ctx, r, s));
  ctx.hit("short_texts");
}

// ------------------------------------------------------------------ long components
macro_rules! long {
  ($name:ident, $of:ident) => {
    fn $name(ctx: &mut Ctx, r: &mut Rng, i: u64) {
      gen::at_scale(r, |r| $of(ctx, r, i));
      ctx.hit("long_components");
    }
  };
}
long!(long_accept, accept);
long!(long_components, components);
long!(long_roundtrip, roundtrip);
long!(long_hosts, hosts);
long!(long_queries, queries);
long!(long_paths, paths);
long!(long_totality, totality);

// ------------------------------------------------------------------ U06

fn totality(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let s: String = match r.below(7) {
    0 => (0..r.below(40)).map(|_| char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}')).collect(),
    1 => (0..r.below(60)).map(|_| r.below(128) as u8 as char).collect(),
    2 => {
      let t = r.pick(&["/", ":", "@", "[", "]", "%", "%4", "a", "?", "#", "&", "=", "1.", "::", "0:", "日", "//", "a:", "x://", "%41"]);
      let head = r.pick(&["", "x:", "x://", "x://[", "x:?", "x:#", "x://a@", "x://a:"]);
      let most = if r.chance(1, 50) { 20_000 } else { 200 };
      format!("{}{}", head, t.repeat(r.below(most)))
    }
    3 => {
      let s = gen::uri(r, true);
      let k = r.below(s.len() + 1);
      if s.is_char_boundary(k) { s[..k].to_string() } else { s }
    }
    4 => {
      const T: &[&str] = &["http", ":", "//", "/", "?", "#", "[", "]", "@", "%", "%zz", "%4", "::1", "1.2.3.4", "v1.", "é", "\0", "&", "=", "65536", "."];
      (0..r.below(20)).map(|_| *r.pick(T)).collect()
    }
    _ => {
      let mut s = gen::uri(r, true);
      for _ in 0..3 {
        s = mutate(r, &s);
      }
      s
    }
  };
  match guard(|| Uri::parse(&s)) {
    Err(st) => ctx.violation(format!("panic:{}", s), format!("parsing {} stopped: {}", show(&s), st.text())),
    Ok(Err(e)) => {
      ctx.hit("rejected");
      match guard(|| (e.to_string(), format!("{:?}", e))) {
        Err(st) => ctx.violation(format!("error-panic:{}", s), format!("the error of {} cannot be shown: {}", show(&s), st.text())),
        Ok((m, _)) if m.is_empty() => ctx.violation(format!("empty-error:{}", s), format!("{} rejected without a message", show(&s))),
        _ => {}
      }
    }
    Ok(Ok(u)) => {
      ctx.hit("accepted");
      if let Err(st) = guard(|| {
        let _ = (u.to_string(), format!("{:?}", u), u.query().map(|q| q.params().len()), u.path().map(|p| p.parts().len()), u.clone() == u);
      }) {
        ctx.violation(format!("use-panic:{}", s), format!("using {} stopped: {}", show(&s), st.text()));
      }
    }
  }
  if s.len() > 1000 {
    ctx.hit("long");
  }
  if !s.is_ascii() {
    ctx.hit("non_ascii");
  }
  ctx.judged(&s, !s.is_empty());
  ctx.sample(|| show(&s));
}

fn suite(name: &'static str, quick: u64, thorough: u64, run: vcommon::CaseFn) -> Suite {
  Suite { name, quick, thorough, run }
}

fn main() {
  const A: &[&str] = &["ports are limited to 16 bits by the model", "the splitting RFC 3986 reader in harness/uri/src/oracle.rs is right"];
  const G: &[&str] = &["host_name", "host_v4", "host_v6", "host_future", "host_empty", "no_authority", "user", "password", "port", "query", "fragment", "path_absolute", "path_empty", "path_rootless"];
  vcommon::main(vec![
    Property {
      id: "U01",
      rule: "URIs generated component by component (hostile octets, groups, ports; empty components), two fifths of them mutated; every ASCII character inserted and substituted at every place of a full URI; distinct by text",
      assumptions: A,
      required: &["accepted", "rejected", "placed", "host_name", "host_v4", "host_v6", "host_future", "host_empty", "password", "port", "query", "fragment", "path_rootless", "long_components", "short_texts"],
      suites: vec![suite("placed", 128, 128, placed), suite("random", 600000, 6_000_000, accept), suite("short", 450, 450, short_accept), suite("long_accept", 6000, 200_000, long_accept)],
    },
    Property {
      id: "U02",
      rule: "generated URIs that the oracle accepts, every accessor compared; distinct by text; discarded when the oracle rejects the text",
      assumptions: A,
      required: G,
      suites: vec![suite("random", 600000, 6_000_000, components), suite("short", 450, 450, short_components), suite("long_components", 6000, 200_000, long_components)],
    },
    Property {
      id: "U03",
      rule: "accepted URIs displayed, reparsed, rebuilt from components and compared; distinct by text; discarded when the text is not a URI or is rejected",
      assumptions: A,
      required: &["identical_text", "canonicalised", "host_v6", "host_v4", "password", "port", "query", "fragment", "path_rootless", "no_authority"],
      suites: vec![suite("random", 200_000, 4_000_000, roundtrip), suite("short", 450, 450, short_roundtrip), suite("long_roundtrip", 6000, 200_000, long_roundtrip)],
    },
    Property {
      id: "U04",
      rule: "every octet 0-1099 at each place with and without leading zeros, every group split around :: up to nine groups with hex and dotted tails, and random and mutated addresses, against the standard library's address parsers; distinct by host text",
      assumptions: &["std::net address parsing follows the RFC 3986 grammar for IPv4address and IPv6address"],
      required: &["reg_name", "v4", "v6", "future", "no_host", "octets", "shapes"],
      suites: vec![suite("octets", 1100, 1100, octets), suite("shapes", 400, 8000, shapes), suite("random", 500000, 5_000_000, hosts), suite("long_hosts", 6000, 200_000, long_hosts)],
    },
    Property {
      id: "U05",
      rule: "random operation sequences on queries and paths against list and map models; distinct by final content; non-trivial when not empty",
      assumptions: &["parts added to the empty path are outside the property"],
      required: &["queries", "paths", "add", "add_none", "repeated_keys"],
      suites: vec![suite("queries", 400000, 5_000_000, queries), suite("long_queries", 6000, 200_000, long_queries), suite("paths", 400000, 5_000_000, paths), suite("long_paths", 6000, 200_000, long_paths)],
    },
    Property {
      id: "U06",
      rule: "random Unicode and ASCII, delimiter soup, long repetitions (to 100 kB), truncated and mutated URIs; distinct by text",
      assumptions: &[],
      required: &["accepted", "rejected", "long", "non_ascii"],
      suites: vec![suite("random", 600000, 6_000_000, totality), suite("long_totality", 6000, 200_000, long_totality)],
    },
  ])
}
