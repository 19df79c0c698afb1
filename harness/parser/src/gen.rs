//! Workload generation: random parser descriptions with a per-property focus, and inputs steered towards
//! (and then mutated away from) what the description accepts.
use crate::ast::*;
use vcommon::Rng;

const FAR: usize = 1 << 24;

pub struct Gen<'r> {
  pub rng: &'r mut Rng,
  pub is_char: bool,
  /// 0, or the size that lengths, counts and inputs are drawn around
  pub scale: usize,
  /// what is left of the work one sampled input may take
  pub steps: usize,
}

pub const ALPHA_CHAR: &[char] = &[
  'a', 'b', 'c', 'B', '0', '1', '2', '8', '9', ' ', '\n', ',', '(', ')', '+', '-', 'é', 'É', '日', '🦀', '\u{212a}', 'k', 'ſ', 'S', '\r', '\t',
];
pub const ALPHA_BYTE: &[u8] = &[
  b'a', b'b', b'c', b'B', b'0', b'1', b'2', b'8', b'9', b' ', b'\n', b',', b'(', b')', b'+', b'-', 0, 0x80, 0xff,
];

pub const COMBOS: &[&str] = &[
  "map", "filter", "flat_map", "and", "or", "attempt", "opt", "not", "exists", "peek", "skip_l", "skip_r",
  "surround", "repeat", "rep_sep", "collect", "discard", "last_off", "next_off", "map_res", "name", "log", "cache",
  "lazy", "chain_l1", "chain_r1", "chain_l0", "chain_r0", "rest_l1", "rest_r1",
];
pub const LEAVES: &[&str] = &[
  "unit", "end", "succ", "fail", "cls", "elm", "elm", "elm", "pred", "of", "none_of", "in", "from_until", "seq", "tag",
  "tag", "tag_nc", "regex", "take", "tw0", "tw1", "twnm", "tt0", "tt1", "skip",
];

impl<'r> Gen<'r> {
  /// A small number, or (when scaling) one at the scale.
  fn big(&mut self, small: usize) -> usize {
    if self.scale > 0 && self.rng.chance(2, 3) {
      (self.scale + self.rng.below(4)).saturating_sub(self.rng.below(4))
    } else {
      small
    }
  }
  pub fn el(&mut self) -> E {
    // bias towards few elements, so that parsers and inputs interact
    if self.rng.chance(2, 3) {
      *self.rng.pick(&['a', 'b', '1', ',']) as u32
    } else if self.is_char {
      *self.rng.pick(ALPHA_CHAR) as u32
    } else {
      *self.rng.pick(ALPHA_BYTE) as u32
    }
  }
  pub fn set(&mut self) -> Vec<E> {
    let n = self.rng.below(4);
    (0..n).map(|_| self.el()).collect()
  }
  fn set1(&mut self) -> Vec<E> {
    let n = 1 + self.rng.below(3);
    (0..n).map(|_| self.el()).collect()
  }
  fn text(&mut self, max: usize) -> String {
    let n = self.rng.below(max + 1);
    let n = self.big(n);
    (0..n)
      .map(|_| {
        let e = self.el();
        if self.is_char {
          char::from_u32(e).unwrap()
        } else {
          (e as u8 & 0x7f) as char
        }
      })
      .collect()
  }
  pub fn spell(&mut self) -> Spell {
    self.rng.below(6) as u8
  }
  /// A number no input reaches.
  fn far(&mut self) -> usize {
    *self.rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, u32::MAX as usize, 1 << 40])
  }
  pub fn rg(&mut self) -> Rg {
    let a = self.rng.below(4);
    let b = self.rng.below(5);
    let (a, b) = if self.scale > 0 && self.rng.chance(1, 2) {
      (self.big(a), self.big(b))
    } else if self.rng.chance(1, 24) {
      // bounds nobody reaches
      let far = self.far();
      if self.rng.chance(1, 4) { (far, far) } else { (a, far) }
    } else {
      (a, b)
    };
    match self.rng.below(9) {
      0 => Rg::Full,
      1 => Rg::Half(a, b),
      2 | 3 => Rg::Incl(a, b),
      4 | 5 => Rg::From(self.rng.below(3)),
      6 => Rg::To(b),
      7 => Rg::ToIncl(b),
      _ => Rg::Exact(a),
    }
  }
  pub fn rx(&mut self, d: usize) -> Rx {
    let ch = |g: &mut Self| char::from_u32(g.el()).unwrap();
    if d == 0 || self.rng.chance(1, 4) {
      return match self.rng.below(6) {
        0 => {
          let n = 1 + self.rng.below(3);
          let cs = (0..n).map(|_| ch(self)).collect();
          Rx::Class(cs, self.rng.chance(1, 3))
        }
        1 => Rx::Any,
        _ => Rx::Lit(ch(self)),
      };
    }
    match self.rng.below(6) {
      0 | 1 => {
        let n = 2 + self.rng.below(2);
        Rx::Cat((0..n).map(|_| self.rx(d - 1)).collect())
      }
      2 | 3 => {
        let n = 2 + self.rng.below(2);
        Rx::Alt((0..n).map(|_| self.rx(d - 1)).collect())
      }
      4 => {
        // only non-nullable bodies are repeated
        let b = self.rx(0);
        match self.rng.below(3) {
          0 => Rx::Star(Box::new(b)),
          1 => Rx::Plus(Box::new(b)),
          _ => Rx::Opt(Box::new(b)),
        }
      }
      _ => {
        let r = self.rx(d - 1);
        if self.rng.chance(1, 3) {
          Rx::Cat(vec![r, Rx::Eoi])
        } else {
          r
        }
      }
    }
  }

  pub fn leaf(&mut self) -> P {
    let k = *self.rng.pick(LEAVES);
    self.leaf_of(k)
  }
  pub fn leaf_of(&mut self, k: &str) -> P {
    let s = self.spell();
    match k {
      "unit" => P::Unit(s),
      "end" => P::End,
      "succ" => P::Succ(self.rng.below(5) as u8, s),
      "fail" => P::Fail(self.rng.chance(1, 2), s),
      "cls" => {
        let c = *self.rng.pick(&[
          Class::Any,
          Class::Space,
          Class::MultiSpace,
          Class::Alpha,
          Class::AlphaDigit,
          Class::Digit,
          Class::Digit19,
          Class::Hex,
          Class::Oct,
        ]);
        P::Cls(c, s)
      }
      "pred" => P::Pred(self.set1(), s),
      "of" => P::Of(self.set(), s),
      "none_of" => P::NoneOf(self.set(), s),
      "in" => P::In(self.el(), self.el(), s),
      "from_until" => P::FromUntil(self.el(), self.el(), s),
      "seq" => {
        let n = self.rng.below(4);
        let n = self.big(n);
        P::Seq((0..n).map(|_| self.el()).collect())
      }
      "tag" => P::Tag(self.text(3)),
      "tag_nc" if self.is_char => P::TagNc(self.text(3)),
      "regex" if self.is_char => P::Regex(self.rx(2), self.rng.chance(1, 4)),
      "take" => {
        let n = self.rng.below(4);
        P::Take(if self.rng.chance(1, 24) { self.far() } else { self.big(n) })
      }
      "tw0" => P::TakeWhile0(self.set1()),
      "tw1" => P::TakeWhile1(self.set1()),
      "twnm" => {
        let n = self.rng.below(3);
        let n = self.big(n);
        let m = if self.rng.chance(1, 24) { self.far() } else { n + self.rng.below(3) };
        P::TakeWhileNM(n, m, self.set1())
      }
      "tt0" => P::TakeTill0(self.set1()),
      "tt1" => P::TakeTill1(self.set1()),
      "skip" => {
        let n = self.rng.below(4);
        P::Skip(if self.rng.chance(1, 24) { self.far() } else { self.big(n) })
      }
      _ => P::Elm(self.el(), s),
    }
  }

  /// `focus` kinds are preferred at every level.
  pub fn gen(&mut self, depth: usize, focus: &[&str]) -> P {
    if depth == 0 {
      return if !focus.is_empty() && self.rng.chance(1, 2) && focus.iter().any(|f| LEAVES.contains(f)) {
        let ls: Vec<&str> = focus.iter().copied().filter(|f| LEAVES.contains(f)).collect();
        let k = *self.rng.pick(&ls);
        self.leaf_of(k)
      } else {
        self.leaf()
      };
    }
    let k = if !focus.is_empty() && self.rng.chance(3, 5) {
      *self.rng.pick(focus)
    } else if self.rng.chance(1, 5) {
      return self.leaf();
    } else {
      *self.rng.pick(COMBOS)
    };
    if LEAVES.contains(&k) && !COMBOS.contains(&k) {
      return self.leaf_of(k);
    }
    self.node(k, depth, focus)
  }

  pub fn node(&mut self, k: &str, depth: usize, focus: &[&str]) -> P {
    let d = depth - 1;
    let s = self.spell();
    macro_rules! sub {
      () => {{
        let dd = if d == 0 { 0 } else { self.rng.below(d + 1) };
        Box::new(self.gen(dd, focus))
      }};
    }
    match k {
      "map" => P::Map(self.rng.below(9) as u8, sub!()),
      "filter" => P::Filter(self.rng.below(3) as u32, sub!(), self.rng.chance(1, 2)),
      "flat_map" => {
        let p = sub!();
        let n = 1 + self.rng.below(3);
        P::FlatMap(p, (0..n).map(|_| *sub!()).collect())
      }
      "and" => P::And(sub!(), sub!(), s),
      "or" => P::Or(sub!(), sub!(), s),
      "attempt" => P::Attempt(sub!()),
      "opt" => P::Opt(sub!()),
      "not" => P::Not(sub!(), s),
      "exists" => P::Exists(sub!()),
      "peek" => P::Peek(sub!()),
      "skip_l" => P::SkipL(sub!(), sub!(), s),
      "skip_r" => P::SkipR(sub!(), sub!(), s),
      "surround" => P::Surround(sub!(), sub!(), sub!(), s),
      "repeat" => P::Repeat(sub!(), self.rg(), s),
      "rep_sep" => {
        let sep = if self.rng.chance(9, 10) { Some(sub!()) } else { None };
        P::RepSep(sub!(), self.rg(), sep, s)
      }
      "collect" => P::Collect(sub!()),
      "discard" => P::Discard(sub!()),
      "last_off" => P::LastOff(sub!()),
      "next_off" => P::NextOff(sub!()),
      "map_res" => P::MapRes(self.rng.below(3) as u32, sub!()),
      "name" => P::Name(self.rng.below(4) as u8, sub!()),
      "log" => P::Log(*self.rng.pick(&[LogK::Debug, LogK::Info, LogK::Warn, LogK::Error]), sub!()),
      "cache" => P::Cache(sub!()),
      "lazy" => P::Lazy(sub!()),
      "chain_l1" => P::ChainL1(sub!(), sub!()),
      "chain_r1" => P::ChainR1(sub!(), sub!(), s),
      "chain_l0" => P::ChainL0(sub!(), sub!(), self.rng.below(9) as u8),
      "chain_r0" => P::ChainR0(sub!(), sub!(), self.rng.below(9) as u8),
      "rest_l1" => P::RestL1(sub!(), sub!(), self.rng.below(9) as u8),
      "rest_r1" => P::RestR1(sub!(), sub!(), self.rng.below(9) as u8),
      _ => self.leaf(),
    }
  }

  fn sample_rx(&mut self, r: &Rx, out: &mut Vec<E>) {
    match r {
      Rx::Lit(c) => out.push(*c as u32),
      Rx::Class(cs, false) => out.push(*self.rng.pick(cs) as u32),
      Rx::Class(_, true) | Rx::Any => {
        let e = self.el();
        out.push(e)
      }
      Rx::Cat(rs) => {
        for r in rs {
          self.sample_rx(r, out)
        }
      }
      Rx::Alt(rs) => {
        let i = self.rng.below(rs.len());
        self.sample_rx(&rs[i], out)
      }
      Rx::Star(r) => {
        for _ in 0..self.many(0) {
          self.sample_rx(r, out)
        }
      }
      Rx::Plus(r) => {
        for _ in 0..self.many(1) {
          self.sample_rx(r, out)
        }
      }
      Rx::Opt(r) => {
        if self.rng.chance(1, 2) {
          self.sample_rx(r, out)
        }
      }
      Rx::Eoi => {}
    }
  }

  pub fn sample(&mut self, p: &P, out: &mut Vec<E>, depth: usize) {
    if out.len() > 40 + 2 * self.scale || depth > 300 || self.steps == 0 {
      return;
    }
    self.steps -= 1;
    let d = depth + 1;
    use P::*;
    match p {
      Unit(_) | End | Succ(..) | Fail(..) | Not(..) => {}
      Cls(c, _) => {
        let s = match c {
          Class::Any => "ab1",
          Class::Space => " \t",
          Class::MultiSpace => " \n\r",
          Class::Alpha => "abB",
          Class::AlphaDigit => "aB1",
          Class::Digit => "019",
          Class::Digit19 => "128",
          Class::Hex => "aB1",
          Class::Oct => "018",
        };
        let v: Vec<char> = s.chars().collect();
        out.push(*self.rng.pick(&v) as u32);
      }
      Elm(e, _) => out.push(*e),
      Pred(s, _) | Of(s, _) => {
        if !s.is_empty() {
          out.push(*self.rng.pick(s))
        }
      }
      NoneOf(..) => {
        let e = self.el();
        out.push(e)
      }
      In(a, b, _) | FromUntil(a, b, _) => {
        let e = if self.rng.chance(1, 2) { *a } else { *b };
        out.push(e)
      }
      Seq(s) => out.extend(s),
      Tag(s) => out.extend(s.chars().map(|c| c as u32)),
      TagNc(s) => {
        for c in s.chars() {
          let c = if self.rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
          out.push(c as u32)
        }
      }
      Regex(r, _) => self.sample_rx(r, out),
      Take(n) | Skip(n) => {
        for _ in 0..if *n > FAR { 4 } else { *n } {
          let e = self.el();
          out.push(e)
        }
      }
      TakeWhile0(s) | TakeWhile1(s) | TakeWhileNM(_, _, s) => {
        if self.rng.chance(1, 8) {
          let e = self.el();
          out.push(e)
        }
        for _ in 0..self.many(0) {
          out.push(*self.rng.pick(s))
        }
      }
      TakeTill0(s) | TakeTill1(s) => {
        for _ in 0..self.many(0) {
          let e = self.el();
          out.push(e)
        }
        out.push(*self.rng.pick(s))
      }
      Opt(p) => {
        if self.rng.chance(2, 3) {
          self.sample(p, out, d)
        }
      }
      Exists(_) | Peek(_) => {}
      FlatMap(p, ks) => {
        self.sample(p, out, d);
        let i = self.rng.below(ks.len());
        self.sample(&ks[i], out, d)
      }
      And(a, b, _) | SkipL(a, b, _) | SkipR(a, b, _) => {
        self.sample(a, out, d);
        self.sample(b, out, d)
      }
      Surround(a, b, c, _) => {
        self.sample(a, out, d);
        self.sample(b, out, d);
        self.sample(c, out, d)
      }
      Or(a, b, _) => {
        if self.rng.chance(1, 2) {
          self.sample(a, out, d)
        } else {
          self.sample(b, out, d)
        }
      }
      Repeat(p, r, _) => {
        let n = self.count(r);
        for _ in 0..n {
          if self.steps == 0 {
            break;
          }
          self.sample(p, out, d)
        }
      }
      RepSep(p, r, s, _) => {
        let n = self.count(r);
        for i in 0..n {
          if self.steps == 0 {
            break;
          }
          if i > 0 {
            if let Some(s) = s {
              self.sample(s, out, d)
            }
          }
          self.sample(p, out, d)
        }
        if self.rng.chance(1, 4) {
          if let Some(s) = s {
            self.sample(s, out, d)
          }
        }
      }
      ChainL1(p, o) | ChainR1(p, o, _) | ChainL0(p, o, _) | ChainR0(p, o, _) => {
        self.sample(p, out, d);
        for _ in 0..self.many(0) {
          self.sample(o, out, d);
          self.sample(p, out, d)
        }
      }
      RestL1(p, o, _) | RestR1(p, o, _) => {
        for _ in 0..self.many(0) {
          self.sample(o, out, d);
          self.sample(p, out, d)
        }
      }
      _ => {
        for c in p.children() {
          self.sample(c, out, d)
        }
      }
    }
  }

  fn many(&mut self, lo: usize) -> usize {
    let n = lo + self.rng.below(4 - lo);
    self.big(n)
  }

  fn count(&mut self, r: &Rg) -> usize {
    // bounds out of reach are not reached
    let lo = if r.min() > FAR { 4 } else { r.min() };
    let hi = r.max().filter(|m| *m <= FAR).unwrap_or(lo + 3);
    if self.scale > 0 {
      return match self.rng.below(6) {
        0 => lo,
        1 => hi,
        2 => hi + 1,
        3 => lo.saturating_sub(1),
        _ if r.max().map_or(false, |m| m <= FAR) => lo + self.rng.below(hi.saturating_sub(lo) + 1),
        _ => self.big(lo),
      };
    }
    let c = match self.rng.below(5) {
      0 => lo,
      1 => hi,
      2 => hi + 1,
      3 => lo.saturating_sub(1),
      _ => lo + self.rng.below(3),
    };
    c.min(6)
  }

  pub fn input_for(&mut self, p: &P) -> Vec<E> {
    let mut out = vec![];
    self.steps = 5000 + 10 * self.scale;
    if self.rng.chance(9, 10) {
      self.sample(p, &mut out, 0);
    } else {
      let n = self.rng.below(9);
      for _ in 0..self.big(n) {
        let e = self.el();
        out.push(e);
      }
    }
    // mutate
    match self.rng.below(8) {
      0 => {
        if !out.is_empty() {
          let i = self.rng.below(out.len());
          out.remove(i);
        }
      }
      1 => {
        let i = self.rng.below(out.len() + 1);
        let e = self.el();
        out.insert(i, e);
      }
      2 => {
        if !out.is_empty() {
          let i = self.rng.below(out.len());
          out[i] = self.el();
        }
      }
      3 => {
        let n = self.rng.below(out.len() + 1);
        out.truncate(n);
      }
      4 | 5 => {
        for _ in 0..self.rng.below(4) {
          let e = self.el();
          out.push(e);
        }
      }
      _ => {}
    }
    if !self.is_char {
      for e in out.iter_mut() {
        *e &= 0xff;
      }
    }
    out
  }
}
