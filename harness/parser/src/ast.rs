//! A description language for parsers: every node is built both with the real combinators (`build`)
//! and given a meaning by an independent reference interpreter (`refsem`).
use std::fmt::Debug;

/// Element alphabet as plain numbers, so that char and u8 inputs share one reference.
pub type E = u32;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
  U,
  E(E),
  S(Vec<E>),
  Str(String),
  P(Box<V>, Box<V>),
  O(Option<Box<V>>),
  L(Vec<V>),
  B(bool),
  N(usize),
  M(u8, Box<V>),
  Op(Box<V>, Box<V>, Box<V>),
}

impl V {
  /// A cheap deterministic digest that predicates and continuations branch on.
  pub fn digest(&self) -> u32 {
    match self {
      V::U => 1,
      V::E(e) => e.wrapping_mul(7).wrapping_add(3),
      V::S(s) => s.iter().fold(5u32, |a, b| a.wrapping_mul(31).wrapping_add(*b)),
      V::Str(s) => s.chars().fold(7u32, |a, b| a.wrapping_mul(33).wrapping_add(b as u32)),
      V::P(a, b) => a.digest().wrapping_mul(3).wrapping_add(b.digest()),
      V::O(None) => 11,
      V::O(Some(a)) => a.digest().wrapping_add(13),
      V::L(l) => l.iter().fold(17u32, |a, b| a.wrapping_mul(37).wrapping_add(b.digest())),
      V::B(b) => *b as u32,
      V::N(n) => *n as u32,
      V::M(t, a) => a.digest().wrapping_add(*t as u32 * 101),
      V::Op(o, a, b) => o
        .digest()
        .wrapping_mul(5)
        .wrapping_add(a.digest().wrapping_mul(3))
        .wrapping_add(b.digest()),
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rg {
  Full,
  Half(usize, usize),
  Incl(usize, usize),
  From(usize),
  To(usize),
  ToIncl(usize),
  Exact(usize),
}

impl Rg {
  pub fn min(&self) -> usize {
    match self {
      Rg::Full | Rg::To(_) | Rg::ToIncl(_) => 0,
      Rg::Half(a, _) | Rg::Incl(a, _) | Rg::From(a) | Rg::Exact(a) => *a,
    }
  }
  pub fn max(&self) -> Option<usize> {
    match self {
      Rg::Full | Rg::From(_) => None,
      Rg::Half(_, b) | Rg::To(b) => Some(b.saturating_sub(1)),
      Rg::Incl(_, b) | Rg::ToIncl(b) | Rg::Exact(b) => Some(*b),
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Class {
  Any,
  Space,
  MultiSpace,
  Alpha,
  AlphaDigit,
  Digit,
  Digit19,
  Hex,
  Oct,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LogK {
  Debug,
  Info,
  Warn,
  Error,
}

/// Which of several equivalent public spellings is used to build the same thing.
pub type Spell = u8;

#[derive(Clone, Debug, PartialEq)]
pub enum Rx {
  Lit(char),
  Class(Vec<char>, bool),
  Any,
  Cat(Vec<Rx>),
  Alt(Vec<Rx>),
  Star(Box<Rx>),
  Plus(Box<Rx>),
  Opt(Box<Rx>),
  Eoi,
}

#[derive(Clone, Debug, PartialEq)]
pub enum P {
  Unit(Spell),
  End,
  Succ(u8, Spell),
  Fail(bool, Spell),
  Cls(Class, Spell),
  Elm(E, Spell),
  Pred(Vec<E>, Spell),
  Of(Vec<E>, Spell),
  NoneOf(Vec<E>, Spell),
  In(E, E, Spell),
  FromUntil(E, E, Spell),
  Seq(Vec<E>),
  Tag(String),
  TagNc(String),
  Regex(Rx, bool),
  Take(usize),
  TakeWhile0(Vec<E>),
  TakeWhile1(Vec<E>),
  TakeWhileNM(usize, usize, Vec<E>),
  TakeTill0(Vec<E>),
  TakeTill1(Vec<E>),
  Skip(usize),
  Map(u8, Box<P>),
  Filter(u32, Box<P>, bool),
  FlatMap(Box<P>, Vec<P>),
  And(Box<P>, Box<P>, Spell),
  Or(Box<P>, Box<P>, Spell),
  Attempt(Box<P>),
  Opt(Box<P>),
  Not(Box<P>, Spell),
  Exists(Box<P>),
  Peek(Box<P>),
  SkipL(Box<P>, Box<P>, Spell),
  SkipR(Box<P>, Box<P>, Spell),
  Surround(Box<P>, Box<P>, Box<P>, Spell),
  Repeat(Box<P>, Rg, Spell),
  RepSep(Box<P>, Rg, Option<Box<P>>, Spell),
  Collect(Box<P>),
  Discard(Box<P>),
  LastOff(Box<P>),
  NextOff(Box<P>),
  MapRes(u32, Box<P>),
  Name(u8, Box<P>),
  Log(LogK, Box<P>),
  Cache(Box<P>),
  Lazy(Box<P>),
  ChainL1(Box<P>, Box<P>),
  ChainR1(Box<P>, Box<P>, Spell),
  ChainL0(Box<P>, Box<P>, u8),
  ChainR0(Box<P>, Box<P>, u8),
  RestL1(Box<P>, Box<P>, u8),
  RestR1(Box<P>, Box<P>, u8),
}

impl P {
  pub fn children(&self) -> Vec<&P> {
    use P::*;
    match self {
      Map(_, p) | Filter(_, p, _) | Attempt(p) | Opt(p) | Not(p, _) | Exists(p) | Peek(p) | Collect(p)
      | Discard(p) | LastOff(p) | NextOff(p) | MapRes(_, p) | Name(_, p) | Log(_, p) | Cache(p) | Lazy(p)
      | Repeat(p, _, _) => vec![p],
      FlatMap(p, ks) => {
        let mut v: Vec<&P> = vec![p];
        v.extend(ks.iter());
        v
      }
      And(a, b, _) | Or(a, b, _) | SkipL(a, b, _) | SkipR(a, b, _) | ChainL1(a, b) | ChainR1(a, b, _)
      | ChainL0(a, b, _) | ChainR0(a, b, _) | RestL1(a, b, _) | RestR1(a, b, _) => vec![a, b],
      Surround(a, b, c, _) => vec![a, b, c],
      RepSep(p, _, s, _) => {
        let mut v: Vec<&P> = vec![p];
        if let Some(s) = s {
          v.push(s)
        }
        v
      }
      _ => vec![],
    }
  }
  /// The first child, or the second where there is one and `k` is not 0.
  pub fn a_child_mut(&mut self, k: usize) -> Option<&mut Box<P>> {
    use P::*;
    match self {
      Map(_, p) | Filter(_, p, _) | Attempt(p) | Opt(p) | Not(p, _) | Exists(p) | Peek(p) | Collect(p)
      | Discard(p) | LastOff(p) | NextOff(p) | MapRes(_, p) | Name(_, p) | Log(_, p) | Cache(p) | Lazy(p)
      | Repeat(p, _, _) | FlatMap(p, _) | RepSep(p, _, _, _) => Some(p),
      And(a, b, _) | Or(a, b, _) | SkipL(a, b, _) | SkipR(a, b, _) | ChainL1(a, b) | ChainR1(a, b, _)
      | ChainL0(a, b, _) | ChainR0(a, b, _) | RestL1(a, b, _) | RestR1(a, b, _) | Surround(a, b, _, _) => Some(if k == 0 { a } else { b }),
      _ => None,
    }
  }
  pub fn size(&self) -> usize {
    1 + self.children().iter().map(|c| c.size()).sum::<usize>()
  }
  pub fn tag_name(&self) -> &'static str {
    use P::*;
    match self {
      Unit(_) => "unit/empty/begin",
      End => "end",
      Succ(..) => "successful",
      Fail(..) => "failed",
      Cls(..) => "elm_class",
      Elm(..) => "elm",
      Pred(..) => "elm_pred",
      Of(..) => "elm_of",
      NoneOf(..) => "none_of",
      In(..) => "elm_in",
      FromUntil(..) => "elm_from_until",
      Seq(_) => "seq",
      Tag(_) => "tag",
      TagNc(_) => "tag_no_case",
      Regex(..) => "regex",
      Take(_) => "take",
      TakeWhile0(_) => "take_while0",
      TakeWhile1(_) => "take_while1",
      TakeWhileNM(..) => "take_while_n_m",
      TakeTill0(_) => "take_till0",
      TakeTill1(_) => "take_till1",
      Skip(_) => "skip",
      Map(..) => "map",
      Filter(..) => "with_filter",
      FlatMap(..) => "flat_map",
      And(..) => "and_then",
      Or(..) => "or",
      Attempt(_) => "attempt",
      Opt(_) => "opt",
      Not(..) => "not",
      Exists(_) => "exists",
      Peek(_) => "peek",
      SkipL(..) => "skip_left",
      SkipR(..) => "skip_right",
      Surround(..) => "surround",
      Repeat(..) => "repeat",
      RepSep(..) => "repeat_sep",
      Collect(_) => "collect",
      Discard(_) => "discard",
      LastOff(_) => "last_offset",
      NextOff(_) => "next_offset",
      MapRes(..) => "map_res",
      Name(..) => "name",
      Log(..) => "log",
      Cache(_) => "cache",
      Lazy(_) => "lazy",
      ChainL1(..) => "chain_left1",
      ChainR1(..) => "chain_right1",
      ChainL0(..) => "chain_left0",
      ChainR0(..) => "chain_right0",
      RestL1(..) => "rest_left1",
      RestR1(..) => "rest_right1",
    }
  }
}

pub const NAMES: [&str; 4] = ["alpha_rule", "beta_rule", "gamma_rule", "delta_rule"];
