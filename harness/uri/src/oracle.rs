//! RFC 3986 by hand, on bytes, splitting at delimiters rather than by combinators. Ports are limited to 16 bits.
use std::net::{Ipv4Addr, Ipv6Addr};

#[derive(Clone, Debug, PartialEq)]
pub enum Host {
  Reg(String),
  V4(Ipv4Addr),
  V6(Ipv6Addr),
  Future(String),
}
impl Host {
  pub fn text(&self) -> String {
    match self {
      Host::Reg(s) => s.clone(),
      Host::V4(a) => a.to_string(),
      Host::V6(a) => format!("[{}]", a),
      Host::Future(s) => format!("[{}]", s),
    }
  }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Auth {
  pub user: Option<(String, Option<String>)>,
  pub host: Host,
  pub port: Option<u16>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct U {
  pub scheme: String,
  pub auth: Option<Auth>,
  pub path: String,
  pub parts: Vec<String>,
  pub query: Option<Vec<(String, Option<String>)>>,
  pub fragment: Option<String>,
}

fn unreserved(b: u8) -> bool {
  b.is_ascii_alphanumeric() || b"-._~".contains(&b)
}
fn sub_delim(b: u8) -> bool {
  b"!$&'()*+,;=".contains(&b)
}
/// All of `s` is unreserved, sub-delims, percent-encoded triplets or one of `extra`.
pub fn all(s: &str, extra: &[u8]) -> bool {
  let b = s.as_bytes();
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'%' {
      if i + 2 >= b.len() || !b[i + 1].is_ascii_hexdigit() || !b[i + 2].is_ascii_hexdigit() {
        return false;
      }
      i += 3;
    } else if unreserved(b[i]) || sub_delim(b[i]) || extra.contains(&b[i]) {
      i += 1;
    } else {
      return false;
    }
  }
  true
}

pub fn ipv_future(s: &str) -> bool {
  let b = s.as_bytes();
  if b.is_empty() || (b[0] != b'v' && b[0] != b'V') {
    return false;
  }
  match s[1..].split_once('.') {
    Some((h, r)) => {
      !h.is_empty()
        && h.bytes().all(|c| c.is_ascii_hexdigit())
        && !r.is_empty()
        && r.bytes().all(|c| unreserved(c) || sub_delim(c) || c == b':')
    }
    None => false,
  }
}

pub fn host(s: &str) -> Option<Host> {
  if let Some(inner) = s.strip_prefix('[') {
    let inner = inner.strip_suffix(']')?;
    if let Ok(a) = inner.parse::<Ipv6Addr>() {
      return Some(Host::V6(a));
    }
    return if ipv_future(inner) { Some(Host::Future(inner.to_string())) } else { None };
  }
  if let Ok(a) = s.parse::<Ipv4Addr>() {
    return Some(Host::V4(a));
  }
  if all(s, b"") { Some(Host::Reg(s.to_string())) } else { None }
}

fn authority(s: &str) -> Option<Auth> {
  let (user, hp) = match s.split_once('@') {
    Some((u, h)) => {
      if !all(u, b":") {
        return None;
      }
      let user = match u.split_once(':') {
        Some((n, p)) => (n.to_string(), Some(p.to_string())),
        None => (u.to_string(), None),
      };
      (Some(user), h)
    }
    None => (None, s),
  };
  let (h, port) = if hp.starts_with('[') {
    let i = hp.find(']')?;
    let rest = &hp[i + 1..];
    match rest.strip_prefix(':') {
      Some(p) => (&hp[..=i], Some(p)),
      None if rest.is_empty() => (hp, None),
      None => return None,
    }
  } else {
    match hp.split_once(':') {
      Some((h, p)) => (h, Some(p)),
      None => (hp, None),
    }
  };
  let port = match port {
    None | Some("") => None,
    Some(p) => {
      if !p.bytes().all(|c| c.is_ascii_digit()) {
        return None;
      }
      let t = p.trim_start_matches('0');
      if t.len() > 5 {
        return None;
      }
      let n = t.bytes().fold(0u32, |a, c| a * 10 + (c - b'0') as u32);
      if n > 65535 {
        return None;
      }
      Some(n as u16)
    }
  };
  Some(Auth { user, host: host(h)?, port })
}

pub fn parse(text: &str) -> Option<U> {
  let (rest, fragment) = match text.split_once('#') {
    Some((a, f)) => (a, Some(f)),
    None => (text, None),
  };
  if let Some(f) = fragment {
    if !all(f, b":@/?") {
      return None;
    }
  }
  let (rest, query) = match rest.split_once('?') {
    Some((a, q)) => (a, Some(q)),
    None => (rest, None),
  };
  let query = match query {
    None => None,
    Some(q) => {
      if !all(q, b":@/?") {
        return None;
      }
      Some(
        q.split('&')
          .map(|kv| match kv.split_once('=') {
            Some((k, v)) => (k.to_string(), Some(v.to_string())),
            None => (kv.to_string(), None),
          })
          .collect(),
      )
    }
  };
  let (scheme, hier) = rest.split_once(':')?;
  let sb = scheme.as_bytes();
  if sb.is_empty() || !sb[0].is_ascii_alphabetic() || !sb.iter().all(|c| c.is_ascii_alphanumeric() || b"+-.".contains(c)) {
    return None;
  }
  let (auth, path) = match hier.strip_prefix("//") {
    Some(a) => {
      let i = a.find('/').unwrap_or(a.len());
      (Some(authority(&a[..i])?), &a[i..])
    }
    None => (None, hier),
  };
  if !all(path, b":@/") {
    return None;
  }
  let mut parts = vec![];
  let mut p = path;
  while !p.is_empty() {
    let i = p[1..].find('/').map(|i| i + 1).unwrap_or(p.len());
    parts.push(p[..i].to_string());
    p = &p[i..];
  }
  Some(U { scheme: scheme.to_string(), auth, path: path.to_string(), parts, query, fragment: fragment.map(|s| s.to_string()) })
}

/// The text an accepted URI displays as: the input with host address and port in canonical form.
pub fn canonical(u: &U) -> String {
  let mut s = format!("{}:", u.scheme);
  if let Some(a) = &u.auth {
    s.push_str("//");
    if let Some((n, p)) = &a.user {
      s.push_str(n);
      if let Some(p) = p {
        s.push(':');
        s.push_str(p);
      }
      s.push('@');
    }
    s.push_str(&a.host.text());
    if let Some(p) = a.port {
      s.push_str(&format!(":{}", p));
    }
  }
  s.push_str(&u.path);
  if let Some(q) = &u.query {
    s.push('?');
    s.push_str(&query_text(q));
  }
  if let Some(f) = &u.fragment {
    s.push('#');
    s.push_str(f);
  }
  s
}
pub fn query_text(q: &[(String, Option<String>)]) -> String {
  let mut out = String::new();
  for (i, (k, v)) in q.iter().enumerate() {
    if i > 0 {
      out.push('&');
    }
    out.push_str(k);
    if let Some(v) = v {
      out.push('=');
      out.push_str(v);
    }
  }
  out
}
