//! Independent reference semantics, written from the documentation as a direct recursive evaluator over
//! positions. It shares no code with the library.
use crate::ast::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
  Mismatch,
  Incomplete,
  Conversion,
  Custom,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fail {
  pub committed: bool,
  /// outermost error kind
  pub kind: Kind,
  /// names attached on the way out, innermost first
  pub names: Vec<u8>,
  /// position where the failing leaf noticed the failure (None: not specified)
  pub pos: Option<usize>,
}

pub type Res = Result<(V, usize), Fail>;

pub struct Ref<'i> {
  pub input: &'i [E],
  pub fuel: u64,
  /// the library's char parsers exist only for char inputs
  pub depth: u32,
}

pub struct Diverged;

fn fail(committed: bool, kind: Kind, pos: usize) -> Fail {
  Fail {
    committed,
    kind,
    names: vec![],
    pos: Some(pos),
  }
}

pub fn in_class(c: Class, e: E) -> bool {
  let r = |a: char, b: char| (a as u32..=b as u32).contains(&e);
  let is = |s: &str| s.chars().any(|x| x as u32 == e);
  match c {
    Class::Any => true,
    Class::Space => is(" \t"),
    Class::MultiSpace => is(" \t\n\r"),
    Class::Alpha => r('A', 'Z') || r('a', 'z'),
    Class::AlphaDigit => r('A', 'Z') || r('a', 'z') || r('0', '9'),
    Class::Digit => r('0', '9'),
    Class::Digit19 => r('1', '9'),
    Class::Hex => r('0', '9') || r('a', 'f') || r('A', 'F'),
    // the documented octal set of this library
    Class::Oct => r('0', '8'),
  }
}

fn lower(e: E) -> E {
  if (65..=90).contains(&e) {
    e + 32
  } else {
    e
  }
}

/// Leftmost-first backtracking matcher over positions: returns the end of the preferred match.
pub fn rx_match(r: &Rx, inp: &[E], i: usize, k: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
  match r {
    Rx::Lit(c) => {
      if inp.get(i) == Some(&(*c as u32)) {
        k(i + 1)
      } else {
        None
      }
    }
    Rx::Class(cs, neg) => match inp.get(i) {
      Some(e) if cs.iter().any(|c| *c as u32 == *e) != *neg => k(i + 1),
      _ => None,
    },
    Rx::Any => match inp.get(i) {
      Some(e) if *e != '\n' as u32 => k(i + 1),
      _ => None,
    },
    Rx::Cat(rs) => cat(rs, inp, i, k),
    Rx::Alt(rs) => {
      for r in rs {
        if let Some(x) = rx_match(r, inp, i, k) {
          return Some(x);
        }
      }
      None
    }
    Rx::Star(r) => star(r, inp, i, k),
    Rx::Plus(r) => rx_match(r, inp, i, &mut |j| star(r, inp, j, k)),
    Rx::Opt(r) => rx_match(r, inp, i, k).or_else(|| k(i)),
    Rx::Eoi => {
      if i == inp.len() {
        k(i)
      } else {
        None
      }
    }
  }
}
fn cat(rs: &[Rx], inp: &[E], i: usize, k: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
  match rs.split_first() {
    None => k(i),
    Some((r, rest)) => rx_match(r, inp, i, &mut |j| cat(rest, inp, j, k)),
  }
}
fn star(r: &Rx, inp: &[E], i: usize, k: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
  let got = rx_match(r, inp, i, &mut |j| if j > i { star(r, inp, j, k) } else { None });
  got.or_else(|| k(i))
}

impl<'i> Ref<'i> {
  fn rest(&self, pos: usize) -> &'i [E] {
    &self.input[pos..]
  }

  pub fn eval(&mut self, p: &P, pos: usize) -> Result<Res, Diverged> {
    if self.fuel == 0 || self.depth > 2000 {
      return Err(Diverged);
    }
    self.fuel -= 1;
    self.depth += 1;
    let r = self.eval0(p, pos);
    self.depth -= 1;
    r
  }

  fn one(&mut self, pos: usize, ok: bool, empty_incomplete: bool) -> Res {
    match self.input.get(pos) {
      Some(e) if ok => Ok((V::E(*e), 1)),
      Some(_) => Err(fail(false, Kind::Mismatch, pos)),
      None => Err(fail(
        false,
        if empty_incomplete { Kind::Incomplete } else { Kind::Mismatch },
        pos,
      )),
    }
  }

  fn literal(&mut self, pos: usize, want: &[E], nc: bool) -> Result<usize, Fail> {
    for (i, w) in want.iter().enumerate() {
      match self.input.get(pos + i) {
        None => return Err(fail(false, Kind::Incomplete, pos + i)),
        Some(e) => {
          let same = if nc { lower(*e) == lower(*w) } else { e == w };
          if !same {
            return Err(fail(i != 0, Kind::Mismatch, pos + i));
          }
        }
      }
    }
    Ok(want.len())
  }

  fn eval0(&mut self, p: &P, pos: usize) -> Result<Res, Diverged> {
    use P::*;
    let cur = self.input.get(pos).copied();
    let r: Res = match p {
      Unit(_) => Ok((V::U, 0)),
      End => {
        if pos == self.input.len() {
          Ok((V::U, 0))
        } else {
          Err(fail(false, Kind::Mismatch, pos))
        }
      }
      Succ(t, _) => Ok((V::M(*t, Box::new(V::U)), 0)),
      Fail(c, _) => Err(crate::refsem::Fail {
        committed: *c,
        kind: Kind::Custom,
        names: vec![],
        pos: None,
      }),
      Cls(c, _) => {
        let ok = cur.map_or(false, |e| in_class(*c, e));
        if *c == Class::Digit19 && cur == Some('0' as u32) {
          // a digit that the filter rejects
          Err(fail(false, Kind::Custom, pos))
        } else {
          self.one(pos, ok, false)
        }
      }
      Elm(w, _) => self.one(pos, cur == Some(*w), false),
      Pred(s, _) => self.one(pos, cur.map_or(false, |e| s.contains(&e)), false),
      Of(s, _) => self.one(pos, cur.map_or(false, |e| s.contains(&e)), true),
      NoneOf(s, _) => self.one(pos, cur.map_or(false, |e| !s.contains(&e)), true),
      In(a, b, _) => self.one(pos, cur.map_or(false, |e| *a <= e && e <= *b), true),
      FromUntil(a, b, _) => self.one(pos, cur.map_or(false, |e| *a <= e && e < *b), true),
      Seq(w) => self.literal(pos, w, false).map(|n| (V::S(w.clone()), n)),
      Tag(s) => {
        let w: Vec<E> = s.chars().map(|c| c as u32).collect();
        self.literal(pos, &w, false).map(|n| (V::Str(s.clone()), n))
      }
      TagNc(s) => {
        let w: Vec<E> = s.chars().map(|c| c as u32).collect();
        self.literal(pos, &w, true).map(|n| (V::Str(s.clone()), n))
      }
      Regex(rx, _) => {
        let rest = self.rest(pos);
        match rx_match(rx, rest, 0, &mut |j| Some(j)) {
          Some(n) => Ok((
            V::Str(rest[..n].iter().map(|e| char::from_u32(*e).unwrap()).collect()),
            n,
          )),
          None => Err(fail(false, Kind::Incomplete, pos)),
        }
      }
      Take(n) => {
        if self.rest(pos).len() >= *n {
          Ok((V::S(self.rest(pos)[..*n].to_vec()), *n))
        } else {
          Err(fail(false, Kind::Incomplete, pos))
        }
      }
      Skip(n) => {
        if self.rest(pos).len() >= *n {
          Ok((V::U, *n))
        } else {
          Err(fail(false, Kind::Incomplete, pos))
        }
      }
      TakeWhile0(s) | TakeWhile1(s) | TakeWhileNM(_, _, s) => {
        let rest = self.rest(pos);
        // the first maximal run of members in what remains
        let start = rest.iter().position(|e| s.contains(e));
        let run: Option<(usize, usize)> = start.map(|b| {
          let l = rest[b..].iter().take_while(|e| s.contains(e)).count();
          (b, l)
        });
        let (lo, hi) = match p {
          TakeWhile0(_) => (0, usize::MAX),
          TakeWhile1(_) => (1, usize::MAX),
          TakeWhileNM(n, m, _) => (*n, *m),
          _ => unreachable!(),
        };
        match run {
          Some((b, l)) if lo <= l && l <= hi => Ok((V::S(rest[b..b + l].to_vec()), b + l)),
          None if lo == 0 => Ok((V::S(vec![]), 0)),
          _ => Err(fail(false, Kind::Incomplete, pos)),
        }
      }
      TakeTill0(s) => {
        let rest = self.rest(pos);
        let n = rest.iter().position(|e| s.contains(e)).map_or(rest.len(), |i| i + 1);
        Ok((V::S(rest[..n].to_vec()), n))
      }
      TakeTill1(s) => {
        let rest = self.rest(pos);
        match rest.iter().position(|e| s.contains(e)) {
          Some(i) => Ok((V::S(rest[..=i].to_vec()), i + 1)),
          None => Err(fail(false, Kind::Incomplete, pos)),
        }
      }
      Map(t, p) => self.eval(p, pos)?.map(|(v, n)| (V::M(*t, Box::new(v)), n)),
      Filter(m, p, neg) => match self.eval(p, pos)? {
        Ok((v, n)) => {
          if (v.digest() % 3 == *m % 3) != *neg {
            Ok((v, n))
          } else {
            Err(fail(false, Kind::Custom, pos + n))
          }
        }
        e => e,
      },
      MapRes(m, p) => match self.eval(p, pos)? {
        Ok((v, n)) => {
          if v.digest() % 3 != *m % 3 {
            Ok((V::M(200, Box::new(v)), n))
          } else {
            Err(fail(false, Kind::Conversion, pos))
          }
        }
        e => e,
      },
      FlatMap(p, ks) => match self.eval(p, pos)? {
        Ok((v, n)) => {
          let k = &ks[v.digest() as usize % ks.len()];
          match self.eval(k, pos + n)? {
            Ok((w, m)) => Ok((V::P(Box::new(v), Box::new(w)), n + m)),
            Err(mut f) => {
              f.committed |= n != 0;
              Err(f)
            }
          }
        }
        e => e,
      },
      And(a, b, _) => match self.eval(a, pos)? {
        Ok((v, n)) => self
          .eval(b, pos + n)?
          .map(|(w, m)| (V::P(Box::new(v), Box::new(w)), n + m)),
        e => e,
      },
      SkipL(a, b, _) => match self.eval(a, pos)? {
        Ok((_, n)) => self.eval(b, pos + n)?.map(|(w, m)| (w, n + m)),
        e => e,
      },
      SkipR(a, b, _) => match self.eval(a, pos)? {
        Ok((v, n)) => self.eval(b, pos + n)?.map(|(_, m)| (v, n + m)),
        e => e,
      },
      Surround(a, b, c, _) => match self.eval(a, pos)? {
        Ok((_, n)) => match self.eval(b, pos + n)? {
          Ok((v, m)) => self.eval(c, pos + n + m)?.map(|(_, k)| (v, n + m + k)),
          e => e,
        },
        e => e,
      },
      Or(a, b, _) => match self.eval(a, pos)? {
        Err(f) if !f.committed => self.eval(b, pos)?,
        r => r,
      },
      Attempt(p) => match self.eval(p, pos)? {
        Err(mut f) => {
          f.committed = false;
          Err(f)
        }
        r => r,
      },
      Opt(p) => match self.eval(p, pos)? {
        Ok((v, n)) => Ok((V::O(Some(Box::new(v))), n)),
        Err(_) => Ok((V::O(None), 0)),
      },
      Not(p, _) => match self.eval(p, pos)? {
        Ok(_) => Err(fail(false, Kind::Mismatch, pos)),
        Err(_) => Ok((V::U, 0)),
      },
      Exists(p) => {
        let ok = self.eval(p, pos)?.is_ok();
        Ok((V::B(ok), 0))
      }
      Peek(p) => self.eval(p, pos)?.map(|(v, _)| (v, 0)),
      Repeat(p, r, _) => self.rep(p, r, None, pos)?,
      RepSep(p, r, s, _) => self.rep(p, r, s.as_deref(), pos)?,
      Collect(p) => {
        let inp = self.input;
        self.eval(p, pos)?.map(|(_, n)| (V::S(inp[pos..pos + n].to_vec()), n))
      }
      Discard(p) => self.eval(p, pos)?.map(|(_, n)| (V::U, n)),
      NextOff(p) => self.eval(p, pos)?.map(|(_, n)| (V::N(pos + n), n)),
      LastOff(p) => self.eval(p, pos)?.map(|(_, n)| (V::N((pos + n).saturating_sub(1)), n)),
      Name(t, p) => match self.eval(p, pos)? {
        Err(mut f) => {
          if f.kind != Kind::Custom {
            f.kind = Kind::Custom;
            f.names.push(*t);
            f.pos = Some(pos);
          }
          Err(f)
        }
        r => r,
      },
      Log(_, p) | Cache(p) | Lazy(p) => self.eval(p, pos)?,
      ChainL1(p, op) => match self.eval(p, pos)? {
        Ok((x, n)) => self.fold_left(p, op, x, pos, n)?,
        e => e,
      },
      ChainR1(p, op, _) => self.chain_right(p, op, pos)?,
      ChainL0(p, op, d) => match self.eval(p, pos)? {
        Ok((x, n)) => self.or_default(|s| s.fold_left(p, op, x, pos, n), *d)?,
        Err(f) if !f.committed => Ok((V::M(*d, Box::new(V::U)), 0)),
        e => e,
      },
      ChainR0(p, op, d) => self.or_default(|s| s.chain_right(p, op, pos), *d)?,
      RestL1(p, op, x) => self.fold_left(p, op, V::M(*x, Box::new(V::U)), pos, 0)?,
      RestR1(p, op, x) => self.rest_right(p, op, V::M(*x, Box::new(V::U)), pos)?,
    };
    Ok(r)
  }

  fn or_default(&mut self, f: impl FnOnce(&mut Self) -> Result<Res, Diverged>, d: u8) -> Result<Res, Diverged> {
    Ok(match f(self)? {
      Err(f) if !f.committed => Ok((V::M(d, Box::new(V::U)), 0)),
      r => r,
    })
  }

  /// x (op p)*, folded from the left; `n0` elements were consumed to get x.
  fn fold_left(&mut self, p: &P, op: &P, x: V, start: usize, n0: usize) -> Result<Res, Diverged> {
    let mut acc = x;
    let mut n = n0;
    loop {
      if self.fuel == 0 {
        return Err(Diverged);
      }
      self.fuel -= 1;
      let (o, n1) = match self.eval(op, start + n)? {
        Ok(x) => x,
        Err(f) if !f.committed => return Ok(Ok((acc, n))),
        Err(f) => return Ok(Err(f)),
      };
      match self.eval(p, start + n + n1)? {
        Ok((y, n2)) => {
          if n1 + n2 == 0 {
            return Err(Diverged);
          }
          acc = V::Op(Box::new(o), Box::new(acc), Box::new(y));
          n += n1 + n2;
        }
        Err(mut f) => {
          f.committed |= n1 != 0;
          if !f.committed {
            return Ok(Ok((acc, n)));
          }
          return Ok(Err(f));
        }
      }
    }
  }

  fn chain_right(&mut self, p: &P, op: &P, pos: usize) -> Result<Res, Diverged> {
    if self.fuel == 0 || self.depth > 2000 {
      return Err(Diverged);
    }
    self.fuel -= 1;
    self.depth += 1;
    let r = match self.eval(p, pos)? {
      Ok((x, n)) => match self.rest_right(p, op, x, pos + n)? {
        Ok((v, m)) => Ok((v, n + m)),
        Err(mut f) => {
          f.committed |= n != 0;
          Err(f)
        }
      },
      e => e,
    };
    self.depth -= 1;
    Ok(r)
  }

  fn rest_right(&mut self, p: &P, op: &P, x: V, pos: usize) -> Result<Res, Diverged> {
    let (o, n1) = match self.eval(op, pos)? {
      Ok(x) => x,
      Err(f) if !f.committed => return Ok(Ok((x, 0))),
      Err(f) => return Ok(Err(f)),
    };
    Ok(match self.chain_right(p, op, pos + n1)? {
      Ok((y, m)) => Ok((V::Op(Box::new(o), Box::new(x), Box::new(y)), n1 + m)),
      Err(mut f) => {
        f.committed |= n1 != 0;
        if !f.committed {
          Ok((x, 0))
        } else {
          Err(f)
        }
      }
    })
  }

  fn rep(&mut self, p: &P, r: &Rg, sep: Option<&P>, pos: usize) -> Result<Res, Diverged> {
    let (min, max) = (r.min(), r.max());
    let mut items: Vec<V> = vec![];
    let mut n = 0;
    if max != Some(0) {
      if let Ok((v, l)) = self.eval(p, pos)? {
        items.push(v);
        n = l;
        loop {
          if max.map_or(false, |m| items.len() >= m) {
            break;
          }
          let before = n;
          if let Some(s) = sep {
            match self.eval(s, pos + n)? {
              Ok((_, l)) => n += l,
              Err(_) => break,
            }
          }
          match self.eval(p, pos + n)? {
            Ok((v, l)) => {
              if max.is_none() && n + l == before && items.len() >= min {
                break;
              }
              items.push(v);
              n += l;
            }
            Err(_) => break,
          }
        }
      }
    }
    Ok(if items.len() < min {
      Err(fail(false, Kind::Mismatch, pos + n))
    } else {
      Ok((V::L(items), n))
    })
  }
}
