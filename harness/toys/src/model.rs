//! An independent statement of what a toys program means: its own tree, evaluator and writer.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
  Int(i64),
  Bool(bool),
  Str(String),
  Arr(Vec<V>),
}

impl V {
  pub fn show(&self) -> String {
    match self {
      V::Int(i) => i.to_string(),
      V::Bool(b) => b.to_string(),
      V::Str(s) => s.clone(),
      V::Arr(a) => format!("[{}]", a.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
  Mul,
  Div,
  Mod,
  Add,
  Sub,
  Lt,
  Le,
  Gt,
  Ge,
  Eq,
  Ne,
  And,
  Or,
}

pub const OPS: [(Op, &str, u8); 13] = [
  (Op::Mul, "*", 3),
  (Op::Div, "/", 3),
  (Op::Mod, "%", 2),
  (Op::Add, "+", 1),
  (Op::Sub, "-", 1),
  (Op::Lt, "<", 0),
  (Op::Le, "<=", 0),
  (Op::Gt, ">", 0),
  (Op::Ge, ">=", 0),
  (Op::Eq, "==", 0),
  (Op::Ne, "!=", 0),
  (Op::And, "&&", 0),
  (Op::Or, "||", 0),
];

impl Op {
  pub fn text(self) -> &'static str {
    OPS.iter().find(|o| o.0 == self).unwrap().1
  }
  pub fn level(self) -> u8 {
    OPS.iter().find(|o| o.0 == self).unwrap().2
  }
}

#[derive(Clone, Debug)]
pub enum X {
  Int(i64),
  Bool(bool),
  Str(String),
  Arr(Vec<X>),
  Var(String),
  Bin(Op, Box<X>, Box<X>),
  Call(String, Vec<X>),
  Labelled(String, Vec<(String, X)>),
}

#[derive(Clone, Debug)]
pub enum S {
  Expr(X),
  Assign(String, X),
  Print(X),
  While(X, Box<S>),
  For(String, X, X, Box<S>),
  If(X, Box<S>, Option<Box<S>>),
  Block(Vec<S>),
}

#[derive(Clone, Debug)]
pub enum Top {
  Global(String, X),
  Fn(String, Vec<String>, Vec<S>),
}

/// Why a program has no meaning here: overflow, division by zero, an unknown name, a value of the wrong kind, too long.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Outside;

type R = Result<V, Outside>;

pub struct Eval {
  /// bindings from the innermost call outwards at the end
  env: Vec<HashMap<String, V>>,
  fns: HashMap<String, (Vec<String>, Vec<S>)>,
  pub out: String,
  pub steps: u32,
  pub max_depth: usize,
  pub outer_writes: u32,
  pub calls: u32,
  pub rounds: u32,
  deepest: usize,
}

const MAX_STEPS: u32 = 6000;
const MAX_DEPTH: usize = 60;

impl Eval {
  pub fn new() -> Eval {
    Eval {
      env: vec![HashMap::new()],
      fns: HashMap::new(),
      out: String::new(),
      steps: 0,
      max_depth: 0,
      outer_writes: 0,
      calls: 0,
      rounds: 0,
      deepest: MAX_DEPTH,
    }
  }
  pub fn program(p: &[Top]) -> (Result<V, Outside>, Eval) {
    let mut e = Eval::new();
    let r = e.run(p);
    (r, e)
  }
  /// The same with this many calls in progress at most.
  pub fn deep(p: &[Top], deepest: usize) -> (Result<V, Outside>, Eval) {
    let mut e = Eval::new();
    e.deepest = deepest;
    let r = e.run(p);
    (r, e)
  }
  /// What is bound outside every call.
  pub fn bound(&self) -> &HashMap<String, V> {
    &self.env[0]
  }
  pub fn reset(&mut self) {
    self.env = vec![HashMap::new()];
    self.fns.clear();
  }
  pub fn run(&mut self, p: &[Top]) -> R {
    for t in p {
      match t {
        Top::Global(n, x) => {
          let v = self.x(x)?;
          self.env[0].insert(n.clone(), v);
        }
        Top::Fn(n, ps, b) => {
          self.fns.insert(n.clone(), (ps.clone(), b.clone()));
        }
      }
    }
    let (_, b) = self.fns.get("main").ok_or(Outside)?.clone();
    self.block(&b)
  }
  fn tick(&mut self) -> Result<(), Outside> {
    self.steps += 1;
    if self.steps > MAX_STEPS || self.out.len() > 20_000 {
      Err(Outside)
    } else {
      Ok(())
    }
  }
  fn int(&mut self, x: &X) -> Result<i64, Outside> {
    match self.x(x)? {
      V::Int(i) => Ok(i),
      _ => Err(Outside),
    }
  }
  fn x(&mut self, x: &X) -> R {
    self.tick()?;
    Ok(match x {
      X::Int(i) => V::Int(*i),
      X::Bool(b) => V::Bool(*b),
      X::Str(s) => V::Str(s.clone()),
      X::Arr(a) => V::Arr(a.iter().map(|e| self.x(e)).collect::<Result<_, _>>()?),
      X::Var(n) => self.env.iter().rev().find_map(|m| m.get(n)).ok_or(Outside)?.clone(),
      X::Bin(op, l, r) => {
        if matches!(op, Op::And | Op::Or) {
          // both sides are evaluated
          let (l, r) = (self.x(l)?, self.x(r)?);
          match (l, r) {
            (V::Bool(a), V::Bool(b)) => V::Bool(if *op == Op::And { a && b } else { a || b }),
            _ => return Err(Outside),
          }
        } else {
          let (l, r) = (self.x(l)?, self.x(r)?);
          let (a, b) = match (l, r) {
            (V::Int(a), V::Int(b)) => (a, b),
            _ => return Err(Outside),
          };
          match op {
            Op::Mul => V::Int(a.checked_mul(b).ok_or(Outside)?),
            Op::Div => V::Int(a.checked_div(b).ok_or(Outside)?),
            Op::Mod => V::Int(a.checked_rem(b).ok_or(Outside)?),
            Op::Add => V::Int(a.checked_add(b).ok_or(Outside)?),
            Op::Sub => V::Int(a.checked_sub(b).ok_or(Outside)?),
            Op::Lt => V::Bool(a < b),
            Op::Le => V::Bool(a <= b),
            Op::Gt => V::Bool(a > b),
            Op::Ge => V::Bool(a >= b),
            Op::Eq => V::Bool(a == b),
            Op::Ne => V::Bool(a != b),
            Op::And | Op::Or => unreachable!(),
          }
        }
      }
      X::Call(n, args) => {
        let (ps, b) = self.fns.get(n).ok_or(Outside)?.clone();
        let vs = args.iter().map(|a| self.x(a)).collect::<Result<Vec<_>, _>>()?;
        if vs.len() < ps.len() {
          return Err(Outside);
        }
        self.call(ps.into_iter().zip(vs).collect(), &b)?
      }
      X::Labelled(n, args) => {
        let (_, b) = self.fns.get(n).ok_or(Outside)?.clone();
        let vs = args.iter().map(|(l, a)| Ok((l.clone(), self.x(a)?))).collect::<Result<HashMap<_, _>, _>>()?;
        self.call(vs, &b)?
      }
    })
  }
  fn call(&mut self, frame: HashMap<String, V>, b: &[S]) -> R {
    self.calls += 1;
    self.env.push(frame);
    self.max_depth = self.max_depth.max(self.env.len());
    if self.env.len() > self.deepest {
      return Err(Outside);
    }
    let r = self.block(b);
    self.env.pop();
    r
  }
  fn assign(&mut self, n: &str, v: V) -> V {
    let here = self.env.len() - 1;
    match (0..self.env.len()).rev().find(|k| self.env[*k].contains_key(n)) {
      Some(k) => {
        if k != here {
          self.outer_writes += 1;
        }
        self.env[k].insert(n.to_string(), v.clone());
      }
      None => {
        self.env[here].insert(n.to_string(), v.clone());
      }
    }
    v
  }
  fn block(&mut self, b: &[S]) -> R {
    let mut last = V::Bool(true);
    for s in b {
      last = self.s(s)?;
    }
    Ok(last)
  }
  fn s(&mut self, s: &S) -> R {
    self.tick()?;
    Ok(match s {
      S::Expr(x) => self.x(x)?,
      S::Assign(n, x) => {
        let v = self.x(x)?;
        self.assign(n, v)
      }
      S::Print(x) => {
        let v = self.x(x)?;
        self.out.push_str(&v.show());
        self.out.push('\n');
        v
      }
      S::While(c, b) => {
        loop {
          match self.x(c)? {
            V::Bool(true) => {
              self.rounds += 1;
              self.s(b)?;
            }
            V::Bool(false) => break,
            _ => return Err(Outside),
          }
        }
        V::Bool(true)
      }
      S::For(n, from, to, b) => {
        // from is evaluated once, the bound before every round, the bound itself is not reached
        let v = self.x(from)?;
        self.assign(n, v);
        loop {
          let i = self.int(&X::Var(n.clone()))?;
          if i >= self.int(to)? {
            break;
          }
          self.rounds += 1;
          self.s(b)?;
          let i = self.int(&X::Var(n.clone()))?;
          self.assign(n, V::Int(i.checked_add(1).ok_or(Outside)?));
        }
        V::Bool(true)
      }
      S::If(c, t, e) => match self.x(c)? {
        V::Bool(true) => self.s(t)?,
        V::Bool(false) => match e {
          Some(e) => self.s(e)?,
          None => V::Bool(true),
        },
        _ => return Err(Outside),
      },
      S::Block(b) => self.block(b)?,
    })
  }
}

/// Writes a program as tokens; the layout between them is chosen afterwards.
pub struct Writer {
  pub toks: Vec<String>,
}

impl Writer {
  fn t(&mut self, s: impl Into<String>) {
    self.toks.push(s.into())
  }
  pub fn program(&mut self, p: &[Top], paren: &mut dyn FnMut() -> bool) {
    for t in p {
      match t {
        Top::Global(n, x) => {
          self.t("global");
          self.t(n.clone());
          self.t("=");
          self.x(x, 0, paren);
          self.t(";");
        }
        Top::Fn(n, ps, b) => {
          self.t("fn");
          self.t(n.clone());
          self.t("(");
          for (i, p) in ps.iter().enumerate() {
            if i > 0 {
              self.t(",");
            }
            self.t(p.clone());
          }
          self.t(")");
          self.block(b, paren);
        }
      }
    }
  }
  fn block(&mut self, b: &[S], paren: &mut dyn FnMut() -> bool) {
    self.t("{");
    for s in b {
      self.s(s, paren);
    }
    self.t("}");
  }
  fn s(&mut self, s: &S, paren: &mut dyn FnMut() -> bool) {
    match s {
      S::Expr(x) => {
        self.x(x, 0, paren);
        self.t(";");
      }
      S::Assign(n, x) => {
        self.t(n.clone());
        self.t("=");
        self.x(x, 0, paren);
        self.t(";");
      }
      S::Print(x) => {
        self.t("println");
        self.t("(");
        self.x(x, 0, paren);
        self.t(")");
        self.t(";");
      }
      S::While(c, b) => {
        self.t("while");
        self.t("(");
        self.x(c, 0, paren);
        self.t(")");
        self.s(b, paren);
      }
      S::For(n, from, to, b) => {
        self.t("for");
        self.t("(");
        self.t(n.clone());
        self.t("in");
        self.x(from, 0, paren);
        self.t("to");
        self.x(to, 0, paren);
        self.t(")");
        self.s(b, paren);
      }
      S::If(c, t, e) => {
        self.t("if");
        self.t("(");
        self.x(c, 0, paren);
        self.t(")");
        // an else belongs to the nearest if
        if e.is_some() && open_if(t) {
          self.block(&[(**t).clone()], paren);
        } else {
          self.s(t, paren);
        }
        if let Some(e) = e {
          self.t("else");
          self.s(e, paren);
        }
      }
      S::Block(b) => self.block(b, paren),
    }
  }
  fn args<'a>(&mut self, it: impl Iterator<Item = &'a X>, paren: &mut dyn FnMut() -> bool) {
    for (i, x) in it.enumerate() {
      if i > 0 {
        self.t(",");
      }
      self.x(x, 0, paren);
    }
  }
  fn x(&mut self, x: &X, min: u8, paren: &mut dyn FnMut() -> bool) {
    let lv = match x {
      X::Bin(op, ..) => op.level(),
      _ => 4,
    };
    let p = lv < min || paren();
    if p {
      self.t("(");
    }
    match x {
      X::Int(i) => self.t(i.to_string()),
      X::Bool(b) => self.t(b.to_string()),
      X::Str(s) => self.t(s_literal(s)),
      X::Arr(a) => {
        self.t("[");
        self.args(a.iter(), paren);
        self.t("]");
      }
      X::Var(n) => self.t(n.clone()),
      X::Bin(op, l, r) => {
        self.x(l, lv, paren);
        self.t(op.text());
        self.x(r, lv + 1, paren);
      }
      X::Call(n, a) => {
        self.t(n.clone());
        self.t("(");
        self.args(a.iter(), paren);
        self.t(")");
      }
      X::Labelled(n, a) => {
        self.t(n.clone());
        self.t("[");
        for (i, (l, x)) in a.iter().enumerate() {
          if i > 0 {
            self.t(",");
          }
          self.t(l.clone());
          self.t("=");
          self.x(x, 0, paren);
        }
        self.t("]");
      }
    }
    if p {
      self.t(")");
    }
  }
}

fn open_if(s: &S) -> bool {
  match s {
    S::If(_, _, None) => true,
    S::If(_, _, Some(e)) => open_if(e),
    S::While(_, b) | S::For(_, _, _, b) => open_if(b),
    _ => false,
  }
}

/// The quoted form; which characters are escaped depends on the text only, so that every form occurs.
fn s_literal(s: &str) -> String {
  let mut o = String::from("\"");
  for (k, c) in s.chars().enumerate() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' if k % 2 == 0 => o.push_str("\\n"),
      '\t' if k % 2 == 0 => o.push_str("\\t"),
      '\r' => o.push_str("\\r"),
      '\u{8}' => o.push_str("\\b"),
      '\u{c}' => o.push_str("\\f"),
      '/' if k % 2 == 0 => o.push_str("\\/"),
      c if (c as u32 > 126 || c == 'u') && k % 3 == 0 => {
        let mut b = [0; 2];
        for u in c.encode_utf16(&mut b) {
          o.push_str(&format!("\\u{:04x}", u));
        }
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn wordy(c: char) -> bool {
  c.is_ascii_alphanumeric() || c == '_'
}

/// Joins tokens: white space between any two, required between two words.
pub fn join(toks: &[String], gap: &mut dyn FnMut() -> &'static str) -> String {
  let mut o = String::new();
  o.push_str(gap());
  for (i, t) in toks.iter().enumerate() {
    if i > 0 {
      let g = gap();
      let need = wordy(o.chars().last().unwrap_or(' ')) && t.starts_with(wordy);
      o.push_str(if need && g.is_empty() { " " } else { g });
    }
    o.push_str(t);
  }
  o.push_str(gap());
  o
}
