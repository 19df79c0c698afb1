//! Independent model of HOCON documents: what a document means, and how it may be written.
use std::collections::BTreeMap;
use vcommon::Rng;

/// A decimal: value = mantissa / 10^scale, with no trailing zero when scale > 0.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dec {
  pub m: i128,
  pub scale: u32,
}

impl Dec {
  pub fn new(m: i128, scale: u32) -> Dec {
    let (mut m, mut scale) = (m, scale);
    while scale > 0 && m % 10 == 0 {
      m /= 10;
      scale -= 1;
    }
    if m == 0 {
      scale = 0;
    }
    Dec { m, scale }
  }
  /// plain decimal text: -?digits(.digits)?
  pub fn read(s: &str) -> Option<Dec> {
    let (neg, t) = match s.strip_prefix('-') {
      Some(t) => (true, t),
      None => (false, s),
    };
    let (i, f) = t.split_once('.').unwrap_or((t, ""));
    if i.is_empty() || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
      return None;
    }
    let m: i128 = format!("{}{}", i, f).parse().ok()?;
    Some(Dec::new(if neg { -m } else { m }, f.len() as u32))
  }
  pub fn text(&self) -> String {
    let d = format!("{:0>w$}", self.m.unsigned_abs(), w = self.scale as usize + 1);
    let (i, f) = d.split_at(d.len() - self.scale as usize);
    format!("{}{}{}{}", if self.m < 0 { "-" } else { "" }, i, if f.is_empty() { "" } else { "." }, f)
  }
  pub fn trunc(&self) -> i128 {
    self.m / 10i128.pow(self.scale)
  }
}

pub const UNITS: &[(&str, i128, &[&str])] = &[
  ("ns", 1, &["ns", "nano", "nanos", "nanosecond", "nanoseconds"]),
  ("us", 1_000, &["us", "micro", "micros", "microsecond", "microseconds"]),
  ("ms", 1_000_000, &["ms", "milli", "millis", "millisecond", "milliseconds"]),
  ("s", 1_000_000_000, &["s", "second", "seconds"]),
  ("m", 60_000_000_000, &["m", "minute", "minutes"]),
  ("h", 3_600_000_000_000, &["h", "hour", "hours"]),
  ("d", 86_400_000_000_000, &["d", "day", "days"]),
];

/// What a value is once everything is resolved.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
  Null,
  Bool(bool),
  Num(Dec),
  Dur(Dec, usize),
  Str(String),
  Arr(Vec<V>),
  Obj(BTreeMap<String, V>),
}

/// A value as written.
#[derive(Clone, Debug)]
pub enum W {
  Lit(V, String),
  Arr(Vec<W>),
  Obj(Vec<Stmt>),
  Ref(Vec<String>, bool),
}

#[derive(Clone, Debug)]
pub struct Stmt {
  pub path: Vec<String>,
  pub val: W,
}

// ------------------------------------------------------------------ meaning

#[derive(Clone, Debug)]
pub enum Item {
  Val(W),
  Obj(Tree),
}
pub type Tree = BTreeMap<String, Vec<Item>>;

pub fn build(stmts: &[Stmt]) -> Tree {
  let mut t = Tree::new();
  for s in stmts {
    define(&mut t, &s.path, &s.val);
  }
  t
}

fn define(t: &mut Tree, path: &[String], w: &W) {
  let hist = t.entry(path[0].clone()).or_default();
  let item = if path.len() > 1 {
    let mut sub = Tree::new();
    define(&mut sub, &path[1..], w);
    Item::Obj(sub)
  } else {
    match w {
      W::Obj(ss) => Item::Obj(build(ss)),
      w => Item::Val(w.clone()),
    }
  };
  add(hist, item);
}

/// Objects merge with an object before them, anything else is the next definition.
fn add(hist: &mut Vec<Item>, item: Item) {
  match (hist.last_mut(), item) {
    (Some(Item::Obj(l)), Item::Obj(r)) => {
      for (k, items) in r {
        let h = l.entry(k).or_default();
        for i in items {
          add(h, i);
        }
      }
    }
    (_, item) => hist.push(item),
  }
}

/// Is any entry defined more than once, or by a substitution?
fn mixed(t: &Tree) -> bool {
  t.values().any(|h| {
    h.len() > 1
      || h.iter().any(|i| match i {
        Item::Obj(t) => mixed(t),
        Item::Val(w) => matches!(w, W::Ref(..)),
      })
  })
}

#[derive(Clone, Debug, PartialEq)]
pub enum R {
  V(V),
  Undefined,
  Unresolved(String),
  /// outside the claims: a cycle, or a path that leads through another substitution
  Outside,
}

pub struct World<'a> {
  pub root: &'a Tree,
  pub env: &'a dyn Fn(&str) -> Option<String>,
}

fn merge(l: V, r: V) -> V {
  match (l, r) {
    (V::Obj(mut l), V::Obj(r)) => {
      for (k, v) in r {
        let v = match l.remove(&k) {
          Some(o) => merge(o, v),
          None => v,
        };
        l.insert(k, v);
      }
      V::Obj(l)
    }
    (_, r) => r,
  }
}

impl<'a> World<'a> {
  /// Err: the path leads through another substitution
  fn find(&self, path: &[String]) -> Result<Option<&'a Vec<Item>>, ()> {
    let mut t = self.root;
    for (i, k) in path.iter().enumerate() {
      let h = match t.get(k) {
        Some(h) => h,
        None => return Ok(None),
      };
      if i + 1 == path.len() {
        return Ok(Some(h));
      }
      if h.iter().any(|i| matches!(i, Item::Val(W::Ref(..)))) {
        return Err(());
      }
      match h.last() {
        Some(Item::Obj(o)) => t = o,
        _ => return Ok(None),
      }
    }
    Ok(None)
  }

  pub fn hist(&self, h: &[Item], visiting: &mut Vec<Vec<String>>) -> R {
    let mut cur = R::Undefined;
    for i in h {
      let r = match i {
        Item::Obj(t) => self.tree(t, visiting),
        Item::Val(w) => self.written(w, visiting),
      };
      if let (R::V(V::Obj(_)), R::V(V::Obj(_))) = (&cur, &r) {
        // how far an object reaches back when one of its own entries was replaced is not settled
        let plain = match i {
          Item::Obj(t) => !mixed(t),
          Item::Val(W::Ref(p, _)) => match self.find(p) {
            Ok(Some(h)) => matches!(&h[..], [Item::Obj(t)] if !mixed(t)),
            _ => false,
          },
          _ => true,
        };
        if !plain {
          return R::Outside;
        }
      }
      cur = match (cur, r) {
        (_, R::Outside) | (R::Unresolved(_), R::V(V::Obj(_))) => return R::Outside,
        (R::V(l), R::V(r)) => R::V(merge(l, r)),
        (c, R::Undefined) => c,
        (_, r) => r,
      };
    }
    cur
  }

  pub fn tree(&self, t: &Tree, visiting: &mut Vec<Vec<String>>) -> R {
    let mut out = BTreeMap::new();
    let mut bad = None;
    for (k, h) in t {
      match self.hist(h, visiting) {
        R::V(v) => {
          out.insert(k.clone(), v);
        }
        R::Undefined => {}
        R::Outside => return R::Outside,
        u => bad = Some(u),
      }
    }
    bad.unwrap_or(R::V(V::Obj(out)))
  }

  fn written(&self, w: &W, visiting: &mut Vec<Vec<String>>) -> R {
    match w {
      W::Lit(v, _) => R::V(v.clone()),
      W::Obj(ss) => self.tree(&build(ss), visiting),
      W::Arr(ws) => {
        let mut out = vec![];
        let mut bad = None;
        for w in ws {
          match self.written(w, visiting) {
            R::V(v) => out.push(v),
            R::Undefined => {}
            R::Outside => return R::Outside,
            u => bad = Some(u),
          }
        }
        bad.unwrap_or(R::V(V::Arr(out)))
      }
      W::Ref(path, optional) => {
        if visiting.contains(path) {
          return R::Outside;
        }
        let r = match self.find(path) {
          Err(()) => return R::Outside,
          Ok(Some(h)) => {
            visiting.push(path.clone());
            let r = self.hist(h, visiting);
            visiting.pop();
            r
          }
          Ok(None) => match (self.env)(&path.join(".")) {
            Some(s) => R::V(V::Str(s)),
            None => R::Undefined,
          },
        };
        match r {
          R::Undefined if !*optional => R::Unresolved(path.join(".")),
          R::Unresolved(_) if *optional => R::Undefined,
          r => r,
        }
      }
    }
  }
}

// ------------------------------------------------------------------ writing

pub struct Pen<'r> {
  pub r: &'r mut Rng,
  /// how much odd layout to use (0 = plain)
  pub wild: usize,
  pub used: BTreeMap<&'static str, u64>,
  /// write structural brackets as markers, so that they can be told from those inside texts and comments
  pub mark: bool,
}
/// The markers of `[`, `]`, `{`, `}`, in this order.
pub const MARKS: [char; 4] = ['\u{fdd0}', '\u{fdd1}', '\u{fdd2}', '\u{fdd3}'];
pub const BRACKETS: [char; 4] = ['[', ']', '{', '}'];

impl<'r> Pen<'r> {
  pub fn new(r: &'r mut Rng, wild: usize) -> Self {
    Pen { r, wild, used: BTreeMap::new(), mark: false }
  }
  fn br(&self, i: usize) -> char {
    if self.mark { MARKS[i] } else { BRACKETS[i] }
  }
  fn note(&mut self, k: &'static str) {
    *self.used.entry(k).or_insert(0) += 1;
  }
  fn comment(&mut self) -> String {
    self.note("comment");
    let head = *self.r.pick(&["#", "//"]);
    let n = crate::gen::many(self.r, 0, 4);
    if n > 0 {
      let unit = *self.r.pick(&["x", " a=1", "{", "\"", "é", "#", "/"]);
      return format!("{}{}\n", head, unit.repeat(n));
    }
    let body = *self.r.pick(&["", " note", " a = 1", " { [ \" ' ${x} \\", "# //", "é ー"]);
    format!("{}{}{}", head, body, self.r.pick(&["\n", "\r\n", "\n\n"]))
  }
  /// blanks and comments that may stand between any two tokens
  pub fn gap(&mut self) -> String {
    if self.wild == 0 || !self.r.chance(self.wild, 4) {
      return if self.r.chance(1, 2) { " ".into() } else { String::new() };
    }
    let mut s = String::new();
    let n = crate::gen::many(self.r, 0, 20);
    if n > 0 {
      let unit = *self.r.pick(&[" ", "\n", "\t", "\r\n", " #\n"]);
      s.push_str(&unit.repeat(n));
    }
    for _ in 0..self.r.below(3) {
      match self.r.below(5) {
        0 => s.push('\n'),
        1 => s.push_str(" \t"),
        2 => s.push_str("\r\n  "),
        3 => {
          s.push(' ');
          s.push_str(&self.comment())
        }
        _ => s.push(' '),
      }
    }
    s
  }
  fn sep(&mut self) -> String {
    match self.r.below(if self.wild == 0 { 2 } else { 4 }) {
      0 => "\n".into(),
      1 => {
        self.note("comma");
        ",".into()
      }
      2 => {
        self.note("comma");
        format!("{},{}", self.gap(), self.gap())
      }
      _ => format!(" {}{}", self.comment(), self.gap()),
    }
  }
  pub fn key(&mut self, k: &str) -> String {
    let plain = !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_');
    if plain && !self.r.chance(1, 6) {
      k.to_string()
    } else {
      self.note("quoted_key");
      quoted(self.r, k)
    }
  }
  pub fn value(&mut self, w: &W) -> String {
    match w {
      W::Lit(_, s) => s.clone(),
      W::Ref(p, o) => {
        self.note(if *o { "optional_ref" } else { "required_ref" });
        let sp = if self.wild > 0 && self.r.chance(1, 5) { " " } else { "" };
        format!("${}{}{}{}{}{}", self.br(2), sp, if *o { "?" } else { "" }, p.join("."), sp, self.br(3))
      }
      W::Arr(ws) => {
        self.note("array");
        let mut s = format!("{}{}", self.br(0), self.gap());
        for (i, w) in ws.iter().enumerate() {
          if i > 0 {
            s.push_str(&format!("{},{}", self.gap(), self.gap()));
          }
          let v = self.value(w);
          s.push_str(&v);
        }
        s.push_str(&self.gap());
        s.push(self.br(1));
        s
      }
      W::Obj(ss) => {
        let body = self.stmts(ss);
        format!("{}{}{}{}{}", self.br(2), self.gap(), body, self.gap(), self.br(3))
      }
    }
  }
  pub fn stmts(&mut self, ss: &[Stmt]) -> String {
    let mut s = String::new();
    for (i, st) in ss.iter().enumerate() {
      if i > 0 {
        s.push_str(&self.sep());
      }
      let key = if st.path.len() == 1 {
        self.key(&st.path[0])
      } else {
        self.note("dotted_key");
        st.path.join(".")
      };
      s.push_str(&key);
      let v = self.value(&st.val);
      if matches!(st.val, W::Obj(_)) && self.r.chance(1, 2) {
        self.note("brace_form");
        s.push_str(&format!("{}{}", self.gap(), v));
      } else {
        let eq = if self.r.chance(1, 3) { ':' } else { '=' };
        s.push_str(&format!("{}{}{}{}", self.gap(), eq, self.gap(), v));
      }
    }
    if !ss.is_empty() && self.r.chance(1, 12) {
      self.note("trailing_comma");
      s.push_str(&format!("{},", self.gap()));
    }
    s
  }
  pub fn document(&mut self, ss: &[Stmt]) -> String {
    if self.r.chance(1, 5) {
      self.note("root_braces");
      let b = self.value(&W::Obj(ss.to_vec()));
      format!("{}{}{}", self.gap(), b, self.gap())
    } else {
      self.note("bare_root");
      let b = self.stmts(ss);
      format!("{}{}{}", self.gap(), b, self.gap())
    }
  }
}

/// `s` as a quoted string, double or single, with random but faithful escapes.
pub fn quoted(r: &mut Rng, s: &str) -> String {
  let single = r.chance(1, 4) && !s.contains('\'');
  let q = if single { '\'' } else { '"' };
  let mut o = String::new();
  o.push(q);
  for c in s.chars() {
    let must = c == q || c == '\\' || c == '\n' || c == '\r';
    if must || r.chance(1, 12) {
      let simple = match c {
        '"' => Some("\\\""),
        '\\' => Some("\\\\"),
        '/' => Some("\\/"),
        '\u{8}' => Some("\\b"),
        '\u{c}' => Some("\\f"),
        '\n' => Some("\\n"),
        '\r' => Some("\\r"),
        '\t' => Some("\\t"),
        _ => None,
      };
      match simple {
        Some(t) if r.chance(1, 2) => o.push_str(t),
        _ => {
          let mut b = [0u16; 2];
          for u in c.encode_utf16(&mut b) {
            let h = format!("{:04x}", u);
            o.push_str("\\u");
            o.push_str(&if r.chance(1, 2) { h.to_uppercase() } else { h });
          }
        }
      }
    } else {
      o.push(c);
    }
  }
  o.push(q);
  o
}
