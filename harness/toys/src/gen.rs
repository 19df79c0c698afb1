//! Typed random programs that end. Names tell their type, so that a callee may use whatever its callers have.
use crate::model::*;
use vcommon::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T {
  Int,
  Bool,
  Str,
  Arr,
}

const INTS: &[&str] = &["a", "n", "i2", "elsewhere", "tox", "x_1", "whiled"];
const BOOLS: &[&str] = &["p", "truex", "falsehood", "iffy", "Q"];
const STRS: &[&str] = &["s", "printlnx", "inner", "_t"];
const ARRS: &[&str] = &["v", "forx", "global_v", "fnord"];

fn names(t: T) -> &'static [&'static str] {
  match t {
    T::Int => INTS,
    T::Bool => BOOLS,
    T::Str => STRS,
    T::Arr => ARRS,
  }
}

#[derive(Clone)]
pub struct Sig {
  pub name: String,
  pub params: Vec<(String, T)>,
  pub ret: T,
}

#[derive(Clone, Copy)]
pub struct Focus {
  pub fns: usize,
  pub depth: usize,
  pub stmts: usize,
  pub xdepth: usize,
  /// weights: print, assign, expression, if, while, for, block
  pub w: [usize; 7],
  pub wild: bool,
  /// one in so many expressions is passed through a function that prints it
  pub trace: usize,
  /// long texts, arrays and argument lists
  pub scale: bool,
}

fn tracer(t: T) -> &'static str {
  match t {
    T::Int => "seen",
    T::Bool => "seenp",
    T::Str => "seens",
    T::Arr => "seenv",
  }
}

pub struct Gen<'r> {
  pub r: &'r mut Rng,
  pub f: Focus,
  fns: Vec<Sig>,
  vars: Vec<(String, T)>,
  loops: usize,
  pub fresh: usize,
}

impl<'r> Gen<'r> {
  pub fn new(r: &'r mut Rng, f: Focus) -> Self {
    Gen { r, f, fns: vec![], vars: vec![], loops: 0, fresh: 0 }
  }
  fn ty(&mut self) -> T {
    [T::Int, T::Bool, T::Str, T::Arr][self.r.weighted(&[6, 3, 2, 1])]
  }
  pub fn number(&mut self) -> i64 {
    match self.r.below(12) {
      0 => *self.r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 32, -(1 << 31), 4294967296 * 3]),
      1 => self.r.range(-1000, 1000),
      2 => -1,
      3 => 0,
      _ => self.r.range(-9, 20),
    }
  }
  fn text(&mut self) -> String {
    let n = match self.f.scale && self.r.chance(1, 6) {
      true => self.r.below(1500),
      false => self.r.below(6),
    };
    (0..n)
      .map(|_| *self.r.pick(&['a', 'b', ' ', '"', '\\', '/', '\n', '\t', 'u', 'é', '日', '🦀', '{', ';', '1', 'n', ')', '\r', '\u{8}', '\u{c}']))
      .collect()
  }
  fn var(&mut self, t: T) -> Option<String> {
    let c: Vec<&String> = self.vars.iter().filter(|v| v.1 == t).map(|v| &v.0).collect();
    if c.is_empty() {
      return None;
    }
    Some(c[self.r.below(c.len())].clone())
  }
  fn call(&mut self, t: T, d: usize) -> Option<X> {
    let c: Vec<Sig> = self.fns.iter().filter(|f| f.ret == t).cloned().collect();
    if c.is_empty() {
      return None;
    }
    let f = c[self.r.below(c.len())].clone();
    if !f.params.is_empty() && self.r.chance(1, 3) {
      let mut args: Vec<(String, X)> = f.params.iter().map(|(n, t)| (n.clone(), self.arg(n, *t, d))).collect();
      self.r.shuffle(&mut args);
      if self.r.chance(1, 6) {
        // a label that is no parameter is bound all the same
        let t = self.ty();
        let n = self.r.pick(names(t)).to_string();
        if !args.iter().any(|a| a.0 == n) {
          let x = self.x(t, 1);
          args.push((n, x));
        }
      }
      return Some(X::Labelled(f.name, args));
    }
    let mut args: Vec<X> = f.params.iter().map(|(n, t)| self.arg(n, *t, d)).collect();
    if self.r.chance(1, 12) {
      args.push(self.x(T::Int, 0));
    }
    Some(X::Call(f.name, args))
  }
  fn arg(&mut self, n: &str, t: T, d: usize) -> X {
    if self.vars.iter().any(|v| v.0 == n) && self.r.chance(1, 3) {
      // the caller's variable of the parameter's name
      return X::Var(n.to_string());
    }
    self.x(t, d.saturating_sub(1))
  }
  pub fn x(&mut self, t: T, d: usize) -> X {
    let k = self.f.trace;
    if k > 0 && self.fns.iter().any(|f| f.name == tracer(t)) && self.r.chance(1, k) {
      let x = self.plain_x(t, d);
      return match self.r.chance(1, 4) {
        true => X::Labelled(tracer(t).into(), vec![(names(t)[0].into(), x)]),
        false => X::Call(tracer(t).into(), vec![x]),
      };
    }
    self.plain_x(t, d)
  }
  fn plain_x(&mut self, t: T, d: usize) -> X {
    if self.r.chance(1, 3) {
      if let Some(n) = self.var(t) {
        return X::Var(n);
      }
    }
    if self.f.wild && self.r.chance(1, 40) {
      // perhaps a caller's
      return X::Var(self.r.pick(names(t)).to_string());
    }
    if d > 0 && self.r.chance(1, 5) {
      if let Some(c) = self.call(t, d) {
        return c;
      }
    }
    match t {
      T::Int if d == 0 || self.r.chance(1, 6) => X::Int(self.number()),
      T::Int => {
        let op = *self.r.pick(&[Op::Mul, Op::Div, Op::Mod, Op::Add, Op::Sub, Op::Add, Op::Sub]);
        let l = self.x(T::Int, d - 1);
        let r = match op {
          // mostly not zero
          Op::Div | Op::Mod if self.r.chance(4, 5) => X::Int(*self.r.pick(&[1, 2, 3, 5, 7, -1, -2, -3, 10])),
          Op::Mul if self.r.chance(1, 2) => X::Int(self.r.range(-9, 9)),
          _ => self.x(T::Int, d - 1),
        };
        X::Bin(op, Box::new(l), Box::new(r))
      }
      T::Bool if d == 0 || self.r.chance(1, 8) => X::Bool(self.r.chance(1, 2)),
      T::Bool => {
        if self.r.chance(1, 3) {
          let op = *self.r.pick(&[Op::And, Op::Or]);
          X::Bin(op, Box::new(self.x(T::Bool, d - 1)), Box::new(self.x(T::Bool, d - 1)))
        } else {
          let op = *self.r.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne]);
          let l = self.x(T::Int, d - 1);
          let r = if self.r.chance(1, 5) { l.clone() } else { self.x(T::Int, d - 1) };
          X::Bin(op, Box::new(l), Box::new(r))
        }
      }
      T::Str => X::Str(self.text()),
      T::Arr => {
        let mut n = self.r.below(4);
        let mut d = d;
        if self.f.scale && self.r.chance(1, 8) {
          n = self.r.below(40);
          d = 0;
        }
        X::Arr(
          (0..n)
            .map(|_| {
              let t = if d > 0 { self.ty() } else { T::Int };
              self.x(t, d.saturating_sub(1))
            })
            .collect(),
        )
      }
    }
  }
  fn xd(&mut self) -> usize {
    self.r.below(self.f.xdepth + 1)
  }
  fn assign(&mut self, d: usize) -> S {
    let t = self.ty();
    let n = match self.var(t) {
      Some(n) if self.r.chance(1, 2) => n,
      _ => self.r.pick(names(t)).to_string(),
    };
    let x = self.x(t, d);
    if !self.vars.iter().any(|v| v.0 == n) {
      self.vars.push((n.clone(), t));
    }
    S::Assign(n, x)
  }
  fn block(&mut self, d: usize, known: bool) -> Vec<S> {
    let n = self.r.below(self.f.stmts + 1);
    let before = self.vars.len();
    let b = (0..n).map(|_| self.s(d)).collect();
    if !known {
      // assignments of a branch that may not be taken are not relied upon
      self.vars.truncate(before);
    }
    b
  }
  fn body(&mut self, d: usize) -> S {
    let before = self.vars.len();
    let s = if d == 0 || self.r.chance(2, 3) {
      let d = d.saturating_sub(1);
      S::Block(self.block(d, false))
    } else {
      self.s(d - 1)
    };
    self.vars.truncate(before);
    s
  }
  pub fn s(&mut self, d: usize) -> S {
    let w = self.f.w;
    let deep = |x: usize| if d == 0 { 0 } else { x };
    let lp = |x: usize, l: usize| if d == 0 || l > 2 { 0 } else { x };
    let ws = [w[0], w[1], w[2], deep(w[3]), lp(w[4], self.loops), lp(w[5], self.loops), deep(w[6])];
    let xd = self.xd();
    match self.r.weighted(&ws) {
      0 => {
        let t = self.ty();
        S::Print(self.x(t, xd))
      }
      1 => self.assign(xd),
      2 => {
        let t = self.ty();
        S::Expr(self.x(t, xd))
      }
      3 => {
        let c = self.x(T::Bool, xd);
        let t = self.body(d);
        let e = if self.r.chance(1, 2) { Some(Box::new(self.body(d))) } else { None };
        S::If(c, Box::new(t), e)
      }
      4 => {
        // counted, with a counter that the body rarely touches
        self.fresh += 1;
        let k = format!("k{}", self.fresh);
        let lim = self.r.range(0, 5);
        self.loops += 1;
        self.vars.push((k.clone(), T::Int));
        let at = self.vars.len();
        let mut b = match self.body(d) {
          S::Block(b) => b,
          s => vec![s],
        };
        self.vars.truncate(at - 1);
        self.loops -= 1;
        let step = S::Assign(k.clone(), X::Bin(Op::Add, Box::new(X::Var(k.clone())), Box::new(X::Int(1))));
        if self.r.chance(1, 2) {
          b.push(step);
        } else {
          b.insert(0, step);
        }
        let cmp = X::Bin(Op::Lt, Box::new(X::Var(k.clone())), Box::new(X::Int(lim)));
        let cond = if self.r.chance(1, 3) { X::Bin(Op::And, Box::new(cmp), Box::new(X::Bool(true))) } else { cmp };
        S::Block(vec![S::Assign(k, X::Int(0)), S::While(cond, Box::new(S::Block(b)))])
      }
      5 => {
        let n = match self.r.below(3) {
          0 => self.r.pick(INTS).to_string(),
          _ => {
            self.fresh += 1;
            format!("i{}", self.fresh)
          }
        };
        let from = if self.r.chance(1, 2) { X::Int(self.r.range(-3, 3)) } else { self.x(T::Int, 1) };
        let to = match self.r.below(4) {
          0 => self.x(T::Int, 1),
          1 => X::Bin(Op::Add, Box::new(from.clone()), Box::new(X::Int(self.r.range(0, 4)))),
          _ => X::Int(self.r.range(-2, 5)),
        };
        self.loops += 1;
        let had = self.vars.iter().any(|v| v.0 == n);
        if !had {
          self.vars.push((n.clone(), T::Int));
        }
        let b = self.body(d);
        self.loops -= 1;
        S::For(n, from, to, Box::new(b))
      }
      _ => {
        let d = d - 1;
        S::Block(self.block(d, true))
      }
    }
  }
  fn ret(&mut self, t: T) -> Vec<S> {
    let d = self.xd();
    match self.r.below(4) {
      0 => vec![S::If(
        self.x(T::Bool, d),
        Box::new(S::Expr(self.x(t, d))),
        Some(Box::new(S::Block(vec![S::Expr(self.x(t, d))]))),
      )],
      1 => vec![S::Print(self.x(t, d))],
      _ => vec![S::Expr(self.x(t, d))],
    }
  }
  fn function(&mut self, k: usize) -> Top {
    let name = match self.r.below(5) {
      0 => format!("{}{}", self.r.pick(&["elsef", "truef", "printlnf", "fnf", "iff", "forf", "main"]), k),
      _ => format!("f{}", k),
    };
    let ret = self.ty();
    let mut params: Vec<(String, T)> = vec![];
    let np = match self.f.scale {
      true => self.r.below(12),
      false => self.r.below(4),
    };
    for _ in 0..np {
      let t = self.ty();
      let n = match self.f.scale && self.r.chance(1, 2) {
        true => {
          self.fresh += 1;
          format!("{}{}", self.r.pick(names(t)), self.fresh)
        }
        false => self.r.pick(names(t)).to_string(),
      };
      if !params.iter().any(|p| p.0 == n) {
        params.push((n, t));
      }
    }
    let saved = self.vars.clone();
    for p in &params {
      if !self.vars.contains(p) {
        self.vars.push(p.clone());
      }
    }
    let mut b = if ret == T::Int && self.r.chance(1, 5) {
      // counts a parameter down through itself
      let n = "n".to_string();
      if !params.iter().any(|p| p.0 == n) {
        params.insert(0, (n.clone(), T::Int));
      }
      let mut args: Vec<X> = vec![];
      for (p, t) in &params {
        if *p == n {
          args.push(X::Bin(Op::Sub, Box::new(X::Var(n.clone())), Box::new(X::Int(1))));
        } else {
          args.push(if self.r.chance(1, 2) && self.vars.iter().any(|v| v.0 == *p) { X::Var(p.clone()) } else { self.x(*t, 0) });
        }
      }
      let rec = X::Call(name.clone(), args);
      let op = *self.r.pick(&[Op::Add, Op::Sub, Op::Mul]);
      let (l, r) = if self.r.chance(1, 2) { (X::Var(n.clone()), rec) } else { (rec, X::Var(n.clone())) };
      let whole = X::Bin(op, Box::new(l), Box::new(r));
      let mut b = vec![];
      if self.r.chance(1, 2) {
        b.push(S::Print(X::Var(n.clone())));
      }
      // more than 12 rounds down is cut off, so that every call ends
      let stop = X::Bin(
        Op::Or,
        Box::new(X::Bin(Op::Le, Box::new(X::Var(n.clone())), Box::new(X::Int(0)))),
        Box::new(X::Bin(Op::Gt, Box::new(X::Var(n.clone())), Box::new(X::Int(12)))),
      );
      // both sides are comparisons, which associate to the left with ||: the right one is parenthesised by the writer
      b.push(S::If(stop, Box::new(S::Expr(X::Int(self.r.range(0, 3)))), Some(Box::new(S::Expr(whole)))));
      b
    } else {
      let d = self.r.below(self.f.depth + 1);
      let mut b = vec![];
      if self.r.chance(1, 3) {
        for (n, t) in params.clone() {
          if self.r.chance(1, 2) {
            let x = self.x(t, 1);
            b.push(S::Assign(n, x));
          }
        }
      }
      b.extend(self.block(d, true));
      if self.r.chance(1, 5) {
        self.dump(&mut b);
      }
      b.extend(self.ret(ret));
      b
    };
    if self.r.chance(1, 20) {
      b.clear();
    }
    self.vars = saved;
    let ret = if b.is_empty() { T::Bool } else { ret };
    self.fns.push(Sig { name: name.clone(), params: params.clone(), ret });
    Top::Fn(name, params.into_iter().map(|p| p.0).collect(), b)
  }
  /// prints what is known
  fn dump(&mut self, b: &mut Vec<S>) {
    for (n, _) in self.vars.clone() {
      if self.r.chance(3, 4) {
        b.push(S::Print(X::Var(n)));
      }
    }
  }
  pub fn program(&mut self) -> Vec<Top> {
    let mut p = vec![];
    if self.f.trace > 0 {
      for t in [T::Int, T::Bool, T::Str, T::Arr] {
        let n = names(t)[0].to_string();
        let mut b = vec![S::Print(X::Var(n.clone()))];
        if self.r.chance(1, 3) {
          b.push(S::Expr(X::Var(n.clone())));
        }
        p.push(Top::Fn(tracer(t).into(), vec![n.clone()], b));
        self.fns.push(Sig { name: tracer(t).into(), params: vec![(n, t)], ret: t });
      }
    }
    let nf = self.r.below(self.f.fns + 1);
    let ng = self.r.below(4);
    let mut todo: Vec<bool> = (0..nf).map(|_| true).chain((0..ng).map(|_| false)).collect();
    self.r.shuffle(&mut todo);
    let mut k = 0;
    for f in todo {
      if f {
        k += 1;
        let t = self.function(k);
        p.push(t);
        if k > 1 && self.f.trace == 0 && self.r.chance(1, 15) {
          // defined again: the later one counts for calls made afterwards
          let keep = self.fns.clone();
          let (n, ret) = (keep[0].name.clone(), keep[0].ret);
          if keep[0].params.is_empty() {
            let x = match ret {
              T::Int => X::Int(77),
              T::Bool => X::Bool(false),
              T::Str => X::Str("again".into()),
              T::Arr => X::Arr(vec![]),
            };
            p.push(Top::Fn(n, vec![], vec![S::Expr(x)]));
          }
        }
      } else {
        let t = self.ty();
        let n = self.r.pick(names(t)).to_string();
        let d = self.xd();
        let x = self.x(t, d);
        if !self.vars.iter().any(|v| v.0 == n) {
          self.vars.push((n.clone(), t));
        }
        p.push(Top::Global(n, x));
      }
    }
    let d = self.f.depth;
    let mut b = self.block(d, true);
    b.extend((0..1 + self.r.below(3)).map(|_| self.s(d)));
    if self.r.chance(1, 2) {
      self.dump(&mut b);
    }
    let t = self.ty();
    b.extend(self.ret(t));
    let m = Top::Fn("main".into(), vec![], b);
    if self.r.chance(1, 4) {
      let at = self.r.below(p.len() + 1);
      if p[at..].iter().all(|t| matches!(t, Top::Fn(..))) || self.r.chance(1, 2) {
        p.insert(at, m);
        return p;
      }
    }
    p.push(m);
    p
  }
}
