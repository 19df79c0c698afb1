//! P15: whole recursive grammars written with the combinators, against hand-written recursive-descent parsers.
use oni_comb_parser_rs::prelude::*;
use std::collections::BTreeMap;
use std::char::{decode_utf16, REPLACEMENT_CHARACTER};
use std::str::FromStr;
use vcommon::{guard, Ctx, Rng};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
  Null,
  Bool(bool),
  Str(String),
  Num(f64),
  Arr(Vec<J>),
  Obj(BTreeMap<String, J>),
}

fn maybe<'a, I: Clone + 'a, A: Clone + std::fmt::Debug + 'a>(p: Parser<'a, I, A>, cached: bool) -> Parser<'a, I, A> {
  if cached {
    p.cache()
  } else {
    p
  }
}

macro_rules! json_grammar {
  ($m:ident, $t:ty, $c:expr, $sets:expr, $lit:expr, $numtext:expr, $strtext:expr, $u16:expr) => {
    pub mod $m {
      use super::*;
      type P<'a, A> = Parser<'a, $t, A>;
      fn ws<'a>() -> P<'a, ()> {
        $sets(0).of_many0().discard()
      }
      fn number<'a>() -> P<'a, f64> {
        let integer = elm_digit_1_9_ref() - elm_digit_ref().of_many0() | elm_ref($c('0'));
        let frac = elm_ref($c('.')) + elm_digit_ref().of_many1();
        let exp = $sets(1) + $sets(2).opt() + elm_digit_ref().of_many1();
        let number = elm_ref($c('-')).opt() + integer + frac.opt() + exp.opt();
        $numtext(number.collect())
      }
      fn string<'a>() -> P<'a, String> {
        let special = elm($c('\\'))
          | elm($c('/'))
          | elm($c('"'))
          | elm($c('b')).map(|_| $c('\x08'))
          | elm($c('f')).map(|_| $c('\x0C'))
          | elm($c('n')).map(|_| $c('\n'))
          | elm($c('r')).map(|_| $c('\r'))
          | elm($c('t')).map(|_| $c('\t'));
        let esc = elm($c('\\')) * special;
        let chars = $strtext(($sets(3) | esc).of_many1());
        let unit: P<'a, u16> = $lit("\\u").discard() * $u16(elm_hex_digit().of_count(4));
        let units = unit.of_many1().map(|cs| {
          decode_utf16(cs).map(|r| r.unwrap_or(REPLACEMENT_CHARACTER)).collect::<String>()
        });
        surround(elm_ref($c('"')), (chars | units).of_many0(), elm_ref($c('"'))).map(|s| s.concat())
      }
      fn array<'a>(k: bool) -> P<'a, Vec<J>> {
        let elems = lazy(move || value(k)).of_many0_sep(ws() * elm_ref($c(',')) - ws());
        surround(elm_ref($c('[')) - ws(), elems, ws() * elm_ref($c(']')))
      }
      fn object<'a>(k: bool) -> P<'a, Vec<(String, J)>> {
        let member = string() - ws() - elm_ref($c(':')) - ws() + lazy(move || value(k));
        let members = member.of_many0_sep(ws() + elm_ref($c(',')) + ws());
        surround(elm_ref($c('{')) + ws(), members, ws() + elm_ref($c('}')))
      }
      fn value<'a>(k: bool) -> P<'a, J> {
        maybe(
          ($lit("null").map(|_| J::Null)
            | $lit("true").map(|_| J::Bool(true))
            | $lit("false").map(|_| J::Bool(false))
            | maybe(number(), k).map(J::Num)
            | maybe(string(), k).map(J::Str)
            | array(k).map(J::Arr)
            | object(k).map(|o| J::Obj(o.into_iter().collect())))
            - ws(),
          k,
        )
      }
      pub fn json<'a>(k: bool) -> P<'a, J> {
        ws() * value(k) - end()
      }
    }
  };
}

fn char_sets<'a>(n: u8) -> Parser<'a, char, char> {
  match n {
    0 => elm_of(" \t\r\n"),
    1 => elm_of("eE"),
    2 => elm_of("+-"),
    _ => none_of("\\\""),
  }
}
fn byte_sets<'a>(n: u8) -> Parser<'a, u8, u8> {
  match n {
    0 => elm_of(b" \t\r\n"),
    1 => elm_of(b"eE"),
    2 => elm_of(b"+-"),
    _ => none_of(b"\\\""),
  }
}
fn char_num<'a>(p: Parser<'a, char, &'a [char]>) -> Parser<'a, char, f64> {
  p.map(String::from_iter).map_res(|s| f64::from_str(&s))
}
fn byte_num<'a>(p: Parser<'a, u8, &'a [u8]>) -> Parser<'a, u8, f64> {
  p.map_res(std::str::from_utf8).map_res(f64::from_str)
}
fn char_text<'a>(p: Parser<'a, char, Vec<char>>) -> Parser<'a, char, String> {
  p.map(String::from_iter)
}
fn byte_text<'a>(p: Parser<'a, u8, Vec<u8>>) -> Parser<'a, u8, String> {
  p.map_res(String::from_utf8)
}
fn char_u16<'a>(p: Parser<'a, char, Vec<char>>) -> Parser<'a, char, u16> {
  p.map(String::from_iter).map_res(|d: String| u16::from_str_radix(&d, 16))
}
fn byte_u16<'a>(p: Parser<'a, u8, Vec<u8>>) -> Parser<'a, u8, u16> {
  p.map_res(String::from_utf8).map_res(|d| u16::from_str_radix(&d, 16))
}
fn char_lit<'a>(s: &'static str) -> Parser<'a, char, String> {
  tag(s)
}
fn byte_lit<'a>(s: &'static str) -> Parser<'a, u8, Vec<u8>> {
  seq(s.as_bytes())
}
fn cc(c: char) -> char {
  c
}
fn cb(c: char) -> u8 {
  c as u8
}

json_grammar!(jc, char, cc, char_sets, char_lit, char_num, char_text, char_u16);
json_grammar!(jb, u8, cb, byte_sets, byte_lit, byte_num, byte_text, byte_u16);

// ---------------------------------------------------------------- the reference

struct Rd<'a> {
  s: &'a [char],
  i: usize,
}
impl<'a> Rd<'a> {
  fn peek(&self) -> Option<char> {
    self.s.get(self.i).copied()
  }
  fn ws(&mut self) {
    while matches!(self.peek(), Some(' ' | '\t' | '\r' | '\n')) {
      self.i += 1
    }
  }
  fn eat(&mut self, c: char) -> bool {
    if self.peek() == Some(c) {
      self.i += 1;
      true
    } else {
      false
    }
  }
  fn word(&mut self, w: &str) -> bool {
    let cs: Vec<char> = w.chars().collect();
    if self.s[self.i..].starts_with(&cs) {
      self.i += cs.len();
      true
    } else {
      false
    }
  }
  fn digits(&mut self) -> usize {
    let b = self.i;
    while matches!(self.peek(), Some('0'..='9')) {
      self.i += 1
    }
    self.i - b
  }
  fn number(&mut self) -> Option<f64> {
    let b = self.i;
    self.eat('-');
    if !self.eat('0') && self.digits() == 0 {
      return None;
    }
    let save = self.i;
    if !(self.eat('.') && self.digits() > 0) {
      self.i = save;
    }
    let save = self.i;
    let ok = (self.eat('e') || self.eat('E')) && {
      let _ = self.eat('+') || self.eat('-');
      self.digits() > 0
    };
    if !ok {
      self.i = save;
    }
    self.s[b..self.i].iter().collect::<String>().parse().ok()
  }
  fn string(&mut self) -> Option<String> {
    if !self.eat('"') {
      return None;
    }
    let mut out = String::new();
    let mut units: Vec<u16> = vec![];
    fn flush(units: &mut Vec<u16>, out: &mut String) {
      if !units.is_empty() {
        out.push_str(&String::from_utf16_lossy(units));
        units.clear();
      }
    }
    loop {
      let c = self.peek()?;
      self.i += 1;
      match c {
        '"' => {
          flush(&mut units, &mut out);
          return Some(out);
        }
        '\\' => {
          let e = self.peek()?;
          self.i += 1;
          if e == 'u' {
            let h = self.s.get(self.i..self.i + 4)?;
            if !h.iter().all(|c| c.is_ascii_hexdigit()) {
              return None;
            }
            units.push(u16::from_str_radix(&h.iter().collect::<String>(), 16).unwrap());
            self.i += 4;
          } else {
            flush(&mut units, &mut out);
            out.push(match e {
              '\\' | '/' | '"' => e,
              'b' => '\x08',
              'f' => '\x0c',
              'n' => '\n',
              'r' => '\r',
              't' => '\t',
              _ => return None,
            });
          }
        }
        c => {
          flush(&mut units, &mut out);
          out.push(c)
        }
      }
    }
  }
  /// value followed by white space
  fn value(&mut self) -> Option<J> {
    let v = match self.peek()? {
      'n' => self.word("null").then_some(J::Null)?,
      't' => self.word("true").then_some(J::Bool(true))?,
      'f' => self.word("false").then_some(J::Bool(false))?,
      '"' => J::Str(self.string()?),
      '[' => {
        self.i += 1;
        self.ws();
        let mut out = vec![];
        loop {
          // a trailing comma is taken by the separated repetition
          if self.eat(']') {
            break;
          }
          out.push(self.value()?);
          if self.eat(',') {
            self.ws();
          } else if self.eat(']') {
            break;
          } else {
            return None;
          }
        }
        J::Arr(out)
      }
      '{' => {
        self.i += 1;
        self.ws();
        let mut out = BTreeMap::new();
        loop {
          if self.eat('}') {
            break;
          }
          let k = self.string()?;
          self.ws();
          if !self.eat(':') {
            return None;
          }
          self.ws();
          let v = self.value()?;
          out.insert(k, v);
          if self.eat(',') {
            self.ws();
          } else if self.eat('}') {
            break;
          } else {
            return None;
          }
        }
        J::Obj(out)
      }
      _ => J::Num(self.number()?),
    };
    self.ws();
    Some(v)
  }
}

fn ref_json(s: &[char]) -> Option<J> {
  let mut r = Rd { s, i: 0 };
  r.ws();
  let v = r.value()?;
  (r.i == s.len()).then_some(v)
}

// ---------------------------------------------------------------- documents

fn ws(rng: &mut Rng, o: &mut String) {
  for _ in 0..rng.below(6).saturating_sub(3) {
    o.push(*rng.pick(&[' ', '\n', '\t', '\r']))
  }
}
fn gen_str(rng: &mut Rng, o: &mut String) {
  o.push('"');
  for _ in 0..rng.below(6) {
    match rng.below(8) {
      0 => {
        o.push('\\');
        o.push(*rng.pick(&['\\', '/', '"', 'b', 'f', 'n', 'r', 't']));
      }
      1 => o.push_str(&format!("\\u{:04x}", rng.pick(&[0x41u32, 0xe9, 0x2192, 0xd83d, 0xde00, 0xd834, 0xdd1e, 0]))),
      2 => o.push_str("\\uD83D\\uDE00"),
      3 => o.push(*rng.pick(&['é', '日', '🦀'])),
      _ => o.push(*rng.pick(&['a', 'b', ' ', '1', ',', ':', '[', '}', '/'])),
    }
  }
  o.push('"');
}
fn gen_json(rng: &mut Rng, d: usize, o: &mut String) {
  let k = if d == 0 { rng.below(5) } else { rng.below(8) };
  match k {
    0 => o.push_str("null"),
    1 => o.push_str(if rng.chance(1, 2) { "true" } else { "false" }),
    2 => gen_str(rng, o),
    3 | 4 => {
      if rng.chance(1, 3) {
        o.push('-')
      }
      match rng.below(4) {
        0 => o.push('0'),
        _ => o.push_str(&rng.range(1, 99999).to_string()),
      }
      if rng.chance(1, 3) {
        o.push_str(&format!(".{:03}", rng.below(1000)))
      }
      if rng.chance(1, 4) {
        o.push_str(*rng.pick::<&str>(&["e1", "E-3", "e+2", "e308", "e999"]))
      }
    }
    5 | 6 => {
      o.push('[');
      ws(rng, o);
      let n = rng.below(4);
      for i in 0..n {
        if i > 0 {
          ws(rng, o);
          o.push(',');
          ws(rng, o);
        }
        gen_json(rng, d - 1, o);
      }
      ws(rng, o);
      o.push(']');
    }
    _ => {
      o.push('{');
      ws(rng, o);
      let n = rng.below(4);
      for i in 0..n {
        if i > 0 {
          ws(rng, o);
          o.push(',');
          ws(rng, o);
        }
        gen_str(rng, o);
        ws(rng, o);
        o.push(':');
        ws(rng, o);
        gen_json(rng, d - 1, o);
      }
      ws(rng, o);
      o.push('}');
    }
  }
}
fn mutate(rng: &mut Rng, s: &str, alphabet: &str) -> String {
  let mut cs: Vec<char> = s.chars().collect();
  let al: Vec<char> = alphabet.chars().collect();
  for _ in 0..rng.below(3) {
    match rng.below(5) {
      0 if !cs.is_empty() => {
        let i = rng.below(cs.len());
        cs.remove(i);
      }
      1 => {
        let i = rng.below(cs.len() + 1);
        cs.insert(i, *rng.pick(&al));
      }
      2 if !cs.is_empty() => {
        let i = rng.below(cs.len());
        cs[i] = *rng.pick(&al);
      }
      3 => {
        let n = rng.below(cs.len() + 1);
        cs.truncate(n);
      }
      _ => {
        if cs.len() >= 2 {
          let i = rng.below(cs.len() - 1);
          cs.swap(i, i + 1);
        }
      }
    }
  }
  cs.into_iter().collect()
}

pub fn json(ctx: &mut Ctx, rng: &mut Rng, i: u64) {
  let mut s = String::new();
  let shape = rng.below(40);
  if shape == 0 {
    // deep
    let d = 1 + rng.below(if i % 400 == 0 { 1500 } else { 60 });
    let obj = rng.chance(1, 2);
    for _ in 0..d {
      s.push_str(if obj { "{\"k\": " } else { "[ " });
    }
    gen_json(rng, 0, &mut s);
    for _ in 0..d {
      s.push(if obj { '}' } else { ']' });
    }
    if rng.chance(1, 4) {
      s.pop();
    }
    ctx.hit("json_deep");
  } else if shape == 1 {
    s.push('[');
    let n = rng.below(400);
    for k in 0..n {
      if k > 0 {
        s.push_str(", ");
      }
      gen_json(rng, 1, &mut s);
    }
    s.push(']');
    ctx.hit("json_long");
  } else {
    ws(rng, &mut s);
    let d = rng.below(5);
    gen_json(rng, d, &mut s);
    ws(rng, &mut s);
  }
  if rng.chance(1, 2) {
    s = mutate(rng, &s, "\"\\{}[],:0123eE+-.nulltrue \n");
  }
  let chars: Vec<char> = s.chars().collect();
  let want = ref_json(&chars);
  let bytes = s.clone().into_bytes();
  let reps = 1 + rng.below(2);
  let cached = rng.chance(1, 3);
  let pc = jc::json(cached);
  let pb = jb::json(cached);
  for rep in 0..reps {
    let a = guard(|| pc.parse(&chars).to_result().map_err(|e| e.to_string()));
    let b = guard(|| pb.parse(&bytes).to_result().map_err(|e| e.to_string()));
    for (n, g) in [("char", a), ("byte", b)] {
      match g {
        Err(st) => ctx.violation(format!("json-{} panic", n), format!("{:?}: {}", s, st.text())),
        Ok(r) => {
          if r.as_ref().ok() != want.as_ref() {
            ctx.violation(
              format!("json-{} {}", n, if want.is_some() { "accept/value" } else { "reject" }),
              format!("input {:?} (cached={}, run {}): got {:?}, expected {:?}", s, cached, rep, r, want),
            );
          }
        }
      }
    }
  }
  ctx.hit(if want.is_some() { "json_accepted" } else { "json_rejected" });
  ctx.judged(&s, s.len() > 1);
  if s.len() < 100 && s.len() > 10 && ctx.want_sample() {
    ctx.sample(|| format!("{} -> {:?}", s, want));
  }
}

// ---------------------------------------------------------------- calculator: left and right associative levels

fn sp<'a>() -> Parser<'a, char, ()> {
  elm_of(" \t").of_many0().discard()
}
fn op<'a>(cs: &'static str) -> Parser<'a, char, impl Fn(String, String) -> String + Clone + 'a> {
  (sp() * elm_of(cs) - sp()).map(|c| move |a: String, b: String| format!("({}{}{})", a, c, b))
}
fn expr<'a>(k: bool) -> Parser<'a, char, String> {
  maybe(term(k).chain_left1(op("+-")), k)
}
fn term<'a>(k: bool) -> Parser<'a, char, String> {
  power(k).chain_left1(op("*/"))
}
fn power<'a>(k: bool) -> Parser<'a, char, String> {
  unary(k).chain_right1(op("^"))
}
fn unary<'a>(k: bool) -> Parser<'a, char, String> {
  (elm_of("+-") + lazy(move || unary(k))).map(|(c, e)| format!("[{}{}]", c, e)) | prim(k)
}
fn prim<'a>(k: bool) -> Parser<'a, char, String> {
  surround(elm('(') + sp(), lazy(move || expr(k)), sp() + elm(')')) | regex(r"\d+(\.\d+)?|[a-z]+")
}
fn calc<'a>(k: bool) -> Parser<'a, char, String> {
  sp() * expr(k) - sp() - end()
}

struct Cr<'a> {
  s: &'a [char],
  i: usize,
}
impl<'a> Cr<'a> {
  fn sp(&mut self) {
    while matches!(self.s.get(self.i), Some(' ' | '\t')) {
      self.i += 1
    }
  }
  fn op(&mut self, cs: &str) -> Option<char> {
    let save = self.i;
    self.sp();
    match self.s.get(self.i) {
      Some(c) if cs.contains(*c) => {
        self.i += 1;
        self.sp();
        Some(*c)
      }
      _ => {
        self.i = save;
        None
      }
    }
  }
  fn level(&mut self, l: usize) -> Option<String> {
    match l {
      0 | 1 => {
        let mut a = self.level(l + 1)?;
        while let Some(c) = self.op(["+-", "*/"][l]) {
          let b = self.level(l + 1)?;
          a = format!("({}{}{})", a, c, b);
        }
        Some(a)
      }
      2 => {
        let a = self.level(3)?;
        if let Some(c) = self.op("^") {
          let b = self.level(2)?;
          return Some(format!("({}{}{})", a, c, b));
        }
        Some(a)
      }
      _ => match *self.s.get(self.i)? {
        c @ ('+' | '-') => {
          self.i += 1;
          let e = self.level(3)?;
          Some(format!("[{}{}]", c, e))
        }
        '(' => {
          self.i += 1;
          self.sp();
          let e = self.level(0)?;
          self.sp();
          if self.s.get(self.i) == Some(&')') {
            self.i += 1;
            Some(e)
          } else {
            None
          }
        }
        c if c.is_ascii_digit() => {
          let b = self.i;
          while matches!(self.s.get(self.i), Some('0'..='9')) {
            self.i += 1
          }
          if self.s.get(self.i) == Some(&'.') && matches!(self.s.get(self.i + 1), Some('0'..='9')) {
            self.i += 1;
            while matches!(self.s.get(self.i), Some('0'..='9')) {
              self.i += 1
            }
          }
          Some(self.s[b..self.i].iter().collect())
        }
        'a'..='z' => {
          let b = self.i;
          while matches!(self.s.get(self.i), Some('a'..='z')) {
            self.i += 1
          }
          Some(self.s[b..self.i].iter().collect())
        }
        _ => None,
      },
    }
  }
}

fn gen_calc(rng: &mut Rng, d: usize, o: &mut String) {
  if d == 0 {
    match rng.below(3) {
      0 => o.push_str(*rng.pick::<&str>(&["x", "ab", "y"])),
      1 => o.push_str(&format!("{}.{}", rng.below(20), rng.below(100))),
      _ => o.push_str(&rng.below(30).to_string()),
    }
    return;
  }
  match rng.below(6) {
    0 => {
      o.push('(');
      if rng.chance(1, 3) {
        o.push(' ')
      }
      gen_calc(rng, d - 1, o);
      o.push(')')
    }
    1 => {
      o.push(*rng.pick(&['+', '-']));
      gen_calc(rng, d - 1, o)
    }
    _ => {
      gen_calc(rng, d - 1, o);
      let n = 1 + rng.below(3);
      for _ in 0..n {
        if rng.chance(1, 3) {
          o.push(' ')
        }
        o.push(*rng.pick(&['+', '-', '*', '/', '^', '^']));
        if rng.chance(1, 3) {
          o.push(' ')
        }
        let dd = rng.below(d);
        gen_calc(rng, dd, o);
      }
    }
  }
}

pub fn calculator(ctx: &mut Ctx, rng: &mut Rng, i: u64) {
  let mut s = String::new();
  if rng.chance(1, 60) {
    let n = 2 + rng.below(if i % 300 == 0 { 300 } else { 40 });
    let o = *rng.pick(&['+', '-', '*', '/', '^']);
    for k in 0..n {
      if k > 0 {
        s.push(o)
      }
      s.push('1');
    }
    ctx.hit("calc_long");
  } else {
    let d = rng.below(4);
    gen_calc(rng, d, &mut s);
  }
  if rng.chance(2, 5) {
    s = mutate(rng, &s, "()+-*/^ 1.x");
  }
  if s.len() > 1200 {
    ctx.discarded += 1;
    return;
  }
  let chars: Vec<char> = s.chars().collect();
  let mut r = Cr { s: &chars, i: 0 };
  r.sp();
  let want = r.level(0).and_then(|v| {
    r.sp();
    (r.i == chars.len()).then_some(v)
  });
  let cached = rng.chance(1, 3);
  let p = calc(cached);
  match guard(|| p.parse(&chars).to_result().map_err(|e| e.to_string())) {
    Err(st) => ctx.violation("calc panic", format!("{:?}: {}", s, st.text())),
    Ok(g) => {
      if g.as_ref().ok() != want.as_ref() {
        ctx.violation("calc", format!("input {:?} (cached={}): got {:?}, expected {:?}", s, cached, g, want));
      }
    }
  }
  ctx.hit(if want.is_some() { "calc_accepted" } else { "calc_rejected" });
  ctx.judged(&s, s.len() > 1);
  if s.len() > 5 && s.len() < 60 && ctx.want_sample() {
    ctx.sample(|| format!("{} -> {:?}", s, want));
  }
}
