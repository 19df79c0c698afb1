//! Builds the real parser for a node. Every node is wrapped in an online monitor that ticks the logical
//! clock and records, at the library's own `run` boundary, what each node consumed.
use crate::ast::*;
use oni_comb_parser_rs::prelude::*;
use std::cell::RefCell;

pub type Pr<'a, I> = Parser<'a, I, V>;

#[derive(Default, Clone)]
pub struct Mon {
  pub total_len: usize,
  pub events: u64,
  pub max_offset: usize,
  pub bad: Option<String>,
}

thread_local! {
  pub static MON: RefCell<Mon> = RefCell::new(Mon::default());
}

pub trait El: Element {
  fn num(&self) -> E;
  fn of(e: E) -> Self;
  fn tag<'a>(s: &'a str) -> Pr<'a, Self>;
  fn tag_nc<'a>(s: &'a str) -> Pr<'a, Self>;
  fn rx<'a>(pat: &str) -> Pr<'a, Self>;
  fn leak_of<'a>(s: &[E], refs: u8, none: bool) -> Pr<'a, Self>;
}

impl El for char {
  fn num(&self) -> E {
    *self as u32
  }
  fn of(e: E) -> Self {
    char::from_u32(e).unwrap()
  }
  fn tag<'a>(s: &'a str) -> Pr<'a, Self> {
    tag(s).map(V::Str)
  }
  fn tag_nc<'a>(s: &'a str) -> Pr<'a, Self> {
    tag_no_case(s).map(V::Str)
  }
  fn rx<'a>(pat: &str) -> Pr<'a, Self> {
    regex(pat).map(V::Str)
  }
  fn leak_of<'a>(s: &[E], sp: u8, none: bool) -> Pr<'a, Self> {
    if sp & 2 == 0 {
      let st: &'static str = Box::leak(s.iter().map(|e| char::of(*e)).collect::<String>().into_boxed_str());
      set_parser(st, sp & 1, none)
    } else {
      let st: &'static [char] = Box::leak(s.iter().map(|e| char::of(*e)).collect::<Vec<_>>().into_boxed_slice());
      set_parser(st, sp & 1, none)
    }
  }
}

impl El for u8 {
  fn num(&self) -> E {
    *self as u32
  }
  fn of(e: E) -> Self {
    e as u8
  }
  fn tag<'a>(s: &'a str) -> Pr<'a, Self> {
    let v: &'static [u8] = Box::leak(s.as_bytes().to_vec().into_boxed_slice());
    seq(v).map(|x: Vec<u8>| V::Str(String::from_utf8_lossy(&x).into_owned()))
  }
  fn tag_nc<'a>(_s: &'a str) -> Pr<'a, Self> {
    unreachable!()
  }
  fn rx<'a>(_pat: &str) -> Pr<'a, Self> {
    unreachable!()
  }
  fn leak_of<'a>(s: &[E], sp: u8, none: bool) -> Pr<'a, Self> {
    if s.len() == 3 && sp & 2 != 0 {
      let a: &'static [u8; 3] = Box::leak(Box::new([s[0] as u8, s[1] as u8, s[2] as u8]));
      set_parser(a, sp & 1, none)
    } else {
      let st: &'static [u8] = Box::leak(s.iter().map(|e| *e as u8).collect::<Vec<_>>().into_boxed_slice());
      set_parser(st, sp & 1, none)
    }
  }
}

fn set_parser<'a, I: El, S: Set<I> + ?Sized>(s: &'static S, r: u8, none: bool) -> Pr<'a, I> {
  match (none, r) {
    (false, 0) => elm_of(s).map(|e: I| V::E(e.num())),
    (false, _) => elm_ref_of(s).map(|e: &I| V::E(e.num())),
    (true, 0) => none_of(s).map(|e: I| V::E(e.num())),
    (true, _) => none_ref_of(s).map(|e: &I| V::E(e.num())),
  }
}

fn v<I: El>(e: I) -> V {
  V::E(e.num())
}
fn vr<I: El>(e: &I) -> V {
  V::E(e.num())
}
fn vs<I: El>(s: &[I]) -> V {
  V::S(s.iter().map(|e| e.num()).collect())
}
fn mark(t: u8) -> V {
  V::M(t, Box::new(V::U))
}

pub fn watch<'a, I: El>(p: Pr<'a, I>) -> Pr<'a, I> {
  Parser::new(move |st: &ParseState<'a, I>| {
    vcommon::tick();
    let off = st.current_offset();
    let rem = st.input().len();
    let r = p.run(st);
    MON.with(|m| {
      let mut m = m.borrow_mut();
      m.events += 1;
      m.max_offset = m.max_offset.max(off);
      if off + rem != m.total_len && m.bad.is_none() {
        m.bad = Some(format!("parser entered at offset {} sees {} elements of {}", off, rem, m.total_len));
      }
      if let ParseResult::Success { length, .. } = &r {
        if *length > rem && m.bad.is_none() {
          m.bad = Some(format!("at offset {}: consumed {} of {} remaining elements", off, length, rem));
        }
      }
    });
    r
  })
}

fn op_of<'a, I: El>(p: Pr<'a, I>) -> Parser<'a, I, impl Fn(V, V) -> V + Clone + 'a> {
  p.map(|o| move |a: V, b: V| V::Op(Box::new(o.clone()), Box::new(a), Box::new(b)))
}

fn fixed_err<'a, I: El>() -> ParseError<'a, I> {
  ParseError::of_custom(0, None, "fixed failure".to_string())
}

macro_rules! with_range {
  ($r:expr, $x:ident => $e:expr) => {
    match $r.clone() {
      Rg::Full => {
        let $x = ..;
        $e
      }
      Rg::Half(a, b) => {
        let $x = a..b;
        $e
      }
      Rg::Incl(a, b) => {
        let $x = a..=b;
        $e
      }
      Rg::From(a) => {
        let $x = a..;
        $e
      }
      Rg::To(b) => {
        let $x = ..b;
        $e
      }
      Rg::ToIncl(b) => {
        let $x = ..=b;
        $e
      }
      Rg::Exact(n) => {
        let $x = n;
        $e
      }
    }
  };
}

pub fn rx_text(r: &Rx) -> String {
  fn esc(c: char) -> String {
    if c.is_ascii_alphanumeric() || !c.is_ascii() {
      c.to_string()
    } else if c == '\n' {
      "\\n".into()
    } else if c == ' ' || c == ',' || c == '"' || c == '\'' {
      c.to_string()
    } else {
      format!("\\{}", c)
    }
  }
  fn atom(r: &Rx) -> String {
    match r {
      Rx::Lit(_) | Rx::Class(..) | Rx::Any => rx_text(r),
      _ => format!("(?:{})", rx_text(r)),
    }
  }
  match r {
    Rx::Lit(c) => esc(*c),
    Rx::Class(cs, neg) => format!(
      "[{}{}]",
      if *neg { "^" } else { "" },
      cs.iter().map(|c| esc(*c)).collect::<String>()
    ),
    Rx::Any => ".".into(),
    Rx::Cat(rs) => rs
      .iter()
      .map(|r| if let Rx::Alt(_) = r { atom(r) } else { rx_text(r) })
      .collect(),
    Rx::Alt(rs) => rs.iter().map(rx_text).collect::<Vec<_>>().join("|"),
    Rx::Star(r) => format!("{}*", atom(r)),
    Rx::Plus(r) => format!("{}+", atom(r)),
    Rx::Opt(r) => format!("{}?", atom(r)),
    Rx::Eoi => "$".into(),
  }
}

pub fn mk<'a, I: El>(p: &'a P) -> Pr<'a, I> {
  watch(mk0(p))
}

fn cls<'a, I: El>(c: Class, sp: u8) -> Pr<'a, I> {
  let r = sp & 1 == 1;
  match (c, r) {
    (Class::Any, false) => elm_any().map(v),
    (Class::Any, true) => elm_any_ref().map(vr),
    (Class::Space, false) => elm_space().map(v),
    (Class::Space, true) => elm_space_ref().map(vr),
    (Class::MultiSpace, false) => elm_multi_space().map(v),
    (Class::MultiSpace, true) => elm_multi_space_ref().map(vr),
    (Class::Alpha, false) => elm_alpha().map(v),
    (Class::Alpha, true) => elm_alpha_ref().map(vr),
    (Class::AlphaDigit, false) => elm_alpha_digit().map(v),
    (Class::AlphaDigit, true) => elm_alpha_digit_ref().map(vr),
    (Class::Digit, false) => elm_digit().map(v),
    (Class::Digit, true) => elm_digit_ref().map(vr),
    (Class::Digit19, false) => elm_digit_1_9().map(v),
    (Class::Digit19, true) => elm_digit_1_9_ref().map(vr),
    (Class::Hex, false) => elm_hex_digit().map(v),
    (Class::Hex, true) => elm_hex_digit_ref().map(vr),
    (Class::Oct, false) => elm_oct_digit().map(v),
    (Class::Oct, true) => elm_oct_digit_ref().map(vr),
  }
}

pub fn class_parser<'a, I: El>(c: Class, sp: u8) -> Pr<'a, I> {
  cls(c, sp)
}

fn mk0<'a, I: El>(p: &'a P) -> Pr<'a, I> {
  match p {
    P::Unit(s) => match s % 3 {
      0 => unit().map(|_| V::U),
      1 => empty().map(|_| V::U),
      _ => begin().map(|_| V::U),
    },
    P::End => end().map(|_| V::U),
    P::Succ(t, s) => {
      let t = *t;
      match s % 3 {
        0 => successful(mark(t)),
        1 => successful_lazy(move || mark(t)),
        _ => <Parser<'a, I, V> as ParserPure>::pure(move || mark(t)),
      }
    }
    P::Fail(c, s) => {
      let c = *c;
      match s % 3 {
        0 => failed(fixed_err(), c.into()),
        1 => failed_lazy(move || (fixed_err(), c.into())),
        _ => {
          if c {
            failed_with_commit(fixed_err())
          } else {
            failed_with_uncommit(fixed_err())
          }
        }
      }
    }
    P::Cls(c, s) => cls(*c, *s),
    P::Elm(e, s) => {
      if s & 1 == 0 {
        elm(I::of(*e)).map(v)
      } else {
        elm_ref(I::of(*e)).map(vr)
      }
    }
    P::Pred(set, s) => {
      let set = set.clone();
      if s & 1 == 0 {
        elm_pred(move |x: &I| set.contains(&x.num())).map(v)
      } else {
        elm_pred_ref(move |x: &I| set.contains(&x.num())).map(vr)
      }
    }
    P::Of(set, s) => I::leak_of(set, *s, false),
    P::NoneOf(set, s) => I::leak_of(set, *s, true),
    P::In(a, b, s) => {
      if s & 1 == 0 {
        elm_in(I::of(*a), I::of(*b)).map(v)
      } else {
        elm_in_ref(I::of(*a), I::of(*b)).map(vr)
      }
    }
    P::FromUntil(a, b, s) => {
      if s & 1 == 0 {
        elm_from_until(I::of(*a), I::of(*b)).map(v)
      } else {
        elm_from_until_ref(I::of(*a), I::of(*b)).map(vr)
      }
    }
    P::Seq(s) => {
      let v: &'static [I] = Box::leak(s.iter().map(|e| I::of(*e)).collect::<Vec<_>>().into_boxed_slice());
      seq(v).map(|x: Vec<I>| V::S(x.iter().map(|e| e.num()).collect()))
    }
    P::Tag(s) => I::tag(s),
    P::TagNc(s) => I::tag_nc(s),
    P::Regex(r, caret) => {
      let t = rx_text(r);
      let t = if *caret && !matches!(r, Rx::Alt(_)) {
        format!("^{}", t)
      } else {
        t
      };
      I::rx(&t)
    }
    P::Take(n) => take(*n).map(vs),
    P::TakeWhile0(s) => take_while0(move |x: &I| s.contains(&x.num())).map(vs),
    P::TakeWhile1(s) => take_while1(move |x: &I| s.contains(&x.num())).map(vs),
    P::TakeWhileNM(n, m, s) => take_while_n_m(*n, *m, move |x: &I| s.contains(&x.num())).map(vs),
    P::TakeTill0(s) => take_till0(move |x: &I| s.contains(&x.num())).map(vs),
    P::TakeTill1(s) => take_till1(move |x: &I| s.contains(&x.num())).map(vs),
    P::Skip(n) => skip(*n).map(|_| V::U),
    P::Map(t, p) => {
      let t = *t;
      mk(p).map(move |x| V::M(t, Box::new(x)))
    }
    P::Filter(m, p, neg) => {
      let m = *m;
      let f = move |x: &V| x.digest() % 3 == m % 3;
      if *neg {
        mk::<I>(p).with_filter_not(f)
      } else {
        mk::<I>(p).with_filter(f)
      }
    }
    P::FlatMap(p, ks) => mk::<I>(p).flat_map(move |x| {
      let k = &ks[x.digest() as usize % ks.len()];
      mk::<I>(k).map(move |w| V::P(Box::new(x.clone()), Box::new(w)))
    }),
    P::And(a, b, s) => {
      let (a, b) = (mk::<I>(a), mk::<I>(b));
      let r = if s & 1 == 0 { a.and_then(b) } else { a + b };
      r.map(|(x, y)| V::P(Box::new(x), Box::new(y)))
    }
    P::Or(a, b, s) => {
      let (a, b) = (mk::<I>(a), mk::<I>(b));
      if s & 1 == 0 {
        a.or(b)
      } else {
        a | b
      }
    }
    P::Attempt(p) => mk::<I>(p).attempt(),
    P::Opt(p) => mk::<I>(p).opt().map(|o| V::O(o.map(Box::new))),
    P::Not(p, s) => {
      let p = mk::<I>(p);
      (if s & 1 == 0 { OperatorParser::not(p) } else { !p }).map(|_| V::U)
    }
    P::Exists(p) => mk::<I>(p).exists().map(V::B),
    P::Peek(p) => mk::<I>(p).peek(),
    P::SkipL(a, b, s) => {
      let (a, b) = (mk::<I>(a), mk::<I>(b));
      if s & 1 == 0 {
        a.skip_left(b)
      } else {
        a * b
      }
    }
    P::SkipR(a, b, s) => {
      let (a, b) = (mk::<I>(a), mk::<I>(b));
      if s & 1 == 0 {
        a.skip_right(b)
      } else {
        a - b
      }
    }
    P::Surround(a, b, c, s) => {
      let (a, b, c) = (mk::<I>(a), mk::<I>(b), mk::<I>(c));
      match s % 3 {
        0 => surround(a, b, c),
        1 => b.surround(a, c),
        _ => a * b - c,
      }
    }
    P::Repeat(p, r, s) => {
      let q = mk::<I>(p);
      let out = match (r, s & 1) {
        (Rg::From(0), 1) => q.of_many0(),
        (Rg::From(1), 1) => q.of_many1(),
        (Rg::Incl(a, b), 1) => q.of_many_n_m(*a, *b),
        (Rg::Exact(n), 1) => q.of_count(*n),
        _ => with_range!(r, x => q.repeat(x)),
      };
      out.map(V::L)
    }
    P::RepSep(p, r, sep, s) => {
      let q = mk::<I>(p);
      let out = match (r, sep, s & 1) {
        (Rg::From(0), Some(d), 1) => q.of_many0_sep(mk::<I>(d)),
        (Rg::From(1), Some(d), 1) => q.of_many1_sep(mk::<I>(d)),
        (Rg::Incl(a, b), Some(d), 1) => q.of_many_n_m_sep(*a, *b, mk::<I>(d)),
        (Rg::Exact(n), Some(d), 1) => q.of_count_sep(*n, mk::<I>(d)),
        _ => {
          let d = sep.as_ref().map(|d| mk::<I>(d));
          with_range!(r, x => q.of_rep_sep(x, d))
        }
      };
      out.map(V::L)
    }
    P::Collect(p) => mk::<I>(p).collect().map(vs),
    P::Discard(p) => mk::<I>(p).discard().map(|_| V::U),
    P::LastOff(p) => mk::<I>(p).last_offset().map(V::N),
    P::NextOff(p) => mk::<I>(p).next_offset().map(V::N),
    P::MapRes(m, p) => {
      let m = *m;
      mk::<I>(p).map_res(move |x| {
        if x.digest() % 3 != m % 3 {
          Ok(V::M(200, Box::new(x)))
        } else {
          Err("no")
        }
      })
    }
    P::Name(t, p) => mk::<I>(p).name(NAMES[*t as usize % NAMES.len()]),
    P::Log(k, p) => {
      let p = mk::<I>(p);
      match k {
        LogK::Debug => p.debug("log"),
        LogK::Info => p.info("log"),
        LogK::Warn => p.warn("log"),
        _ => LoggingParser::error(p, "log"),
      }
    }
    P::Cache(p) => mk::<I>(p).cache(),
    P::Lazy(p) => {
      let p: &'a P = p;
      lazy(move || mk::<I>(p))
    }
    P::ChainL1(p, o) => mk::<I>(p).chain_left1(op_of(mk::<I>(o))),
    P::ChainR1(p, o, s) => {
      if s & 1 == 0 {
        mk::<I>(p).chain_right1(op_of(mk::<I>(o)))
      } else {
        mk::<I>(p).scan_right1(op_of(mk::<I>(o)))
      }
    }
    P::ChainL0(p, o, d) => mk::<I>(p).chain_left0(op_of(mk::<I>(o)), mark(*d)),
    P::ChainR0(p, o, d) => mk::<I>(p).chain_right0(op_of(mk::<I>(o)), mark(*d)),
    P::RestL1(p, o, d) => mk::<I>(p).rest_left1(op_of(mk::<I>(o)), mark(*d)),
    P::RestR1(p, o, d) => mk::<I>(p).rest_right1(op_of(mk::<I>(o)), mark(*d)),
  }
}
