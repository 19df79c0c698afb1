//! Workloads that do not go through random descriptions: exhaustive element classes, result algebra, error trees,
//! and entry points.
use crate::ast::*;
use crate::diff::{observe, reference, show};
use crate::gen::Gen;
use crate::mk::{class_parser, mk, El, Mon, MON};
use crate::refsem::in_class;
use oni_comb_parser_rs::prelude::*;
use vcommon::{guard, set_fuel, Ctx, Rng};

const CLASSES: [Class; 9] = [
  Class::Any,
  Class::Space,
  Class::MultiSpace,
  Class::Alpha,
  Class::AlphaDigit,
  Class::Digit,
  Class::Digit19,
  Class::Hex,
  Class::Oct,
];

fn between(e: E, a: char, b: char) -> bool {
  a as u32 <= e && e <= b as u32
}

/// What each predicate of `Element` means, by code point.
fn predicates<I: El>(x: &I) -> Vec<(&'static str, bool, bool)> {
  let e = x.num();
  let up = between(e, 'A', 'Z');
  let lo = between(e, 'a', 'z');
  let di = between(e, '0', '9');
  let sp = e == 32 || e == 9;
  let graph = (33..=126).contains(&e);
  vec![
    ("is_ascii_space", x.is_ascii_space(), sp),
    ("is_ascii_multi_space", x.is_ascii_multi_space(), sp || e == 10 || e == 13),
    ("is_ascii_whitespace", x.is_ascii_whitespace(), sp || e == 10 || e == 13 || e == 12),
    ("is_ascii", Element::is_ascii(x), e < 128),
    ("is_ascii_alpha_uppercase", x.is_ascii_alpha_uppercase(), up),
    ("is_ascii_alpha_lowercase", x.is_ascii_alpha_lowercase(), lo),
    ("is_ascii_alpha", x.is_ascii_alpha(), up || lo),
    ("is_ascii_digit", Element::is_ascii_digit(x), di),
    ("is_ascii_digit_zero", x.is_ascii_digit_zero(), e == 48),
    ("is_ascii_digit_non_zero", x.is_ascii_digit_non_zero(), di && e != 48),
    ("is_ascii_alpha_digit", x.is_ascii_alpha_digit(), up || lo || di),
    (
      "is_ascii_hex_digit",
      x.is_ascii_hex_digit(),
      di || between(e, 'a', 'f') || between(e, 'A', 'F'),
    ),
    ("is_ascii_oct_digit", x.is_ascii_oct_digit(), between(e, '0', '8')),
    (
      "is_ascii_punctuation",
      Element::is_ascii_punctuation(x),
      graph && !(up || lo || di),
    ),
    ("is_ascii_graphic", Element::is_ascii_graphic(x), graph),
    ("is_ascii_control", Element::is_ascii_control(x), e < 32 || e == 127),
    ("to_char", x.to_char() as u32 == e, true),
  ]
}

fn classes_of<I: El>(ctx: &mut Ctx, els: &[E]) {
  let bufs: Vec<[I; 2]> = els.iter().map(|e| [I::of(*e), I::of('z' as u32)]).collect();
  let parsers: Vec<(Class, u8, Parser<I, V>)> = CLASSES
    .iter()
    .flat_map(|c| [(*c, 0u8), (*c, 1u8)])
    .map(|(c, s)| (c, s, class_parser::<I>(c, s)))
    .collect();
  for (k, e) in els.iter().enumerate() {
    let x = I::of(*e);
    for (name, got, want) in predicates(&x) {
      if got != want {
        ctx.violation(
          format!("{}", name),
          format!("{}::{} on U+{:04X} = {}, expected {}", std::any::type_name::<I>(), name, e, got, want),
        );
      }
    }
    for (c, s, p) in &parsers {
      let buf: &[I] = &bufs[k];
      let want = in_class(*c, *e);
      match guard(|| observe(p.parse(buf), buf)) {
        Ok(o) => {
          let ok = match (&o.res, want) {
            (Ok((V::E(g), 1)), true) => g == e,
            (Err(f), false) => !f.committed,
            _ => false,
          };
          if !ok {
            ctx.violation(
              format!("class {:?}", c),
              format!("elm class {:?} (spelling {}) on U+{:04X}: {:?}, member={}", c, s, e, o.res, want),
            );
          }
        }
        Err(st) => ctx.violation(format!("class panic {:?}", c), format!("U+{:04X}: {}", e, st.text())),
      }
      ctx.add("class_checks", 1);
    }
  }
  ctx.evaluations += els.len() as u64;
}

pub const CHAR_CHUNK: u32 = 2048;

/// index 0: all bytes; index n: the n-th chunk of Unicode scalar values (exhaustive).
pub fn classes(ctx: &mut Ctx, _rng: &mut Rng, i: u64) {
  if i == 0 {
    let all: Vec<E> = (0..256).collect();
    classes_of::<u8>(ctx, &all);
    ctx.add("bytes_exhausted", 1);
    ctx.judged("bytes", true);
    return;
  }
  let lo = (i as u32 - 1) * CHAR_CHUNK;
  let els: Vec<E> = (lo..lo + CHAR_CHUNK).filter(|e| char::from_u32(*e).is_some()).collect();
  if els.is_empty() {
    return;
  }
  classes_of::<char>(ctx, &els);
  ctx.add("chars_exhausted", els.len() as u64);
  ctx.judged(&format!("chars {}", lo), true);
}

/// Ranges and sets over bytes: every (start, end) pair for one element per index.
pub fn ranges(ctx: &mut Ctx, rng: &mut Rng, i: u64) {
  let a = (i % 256) as u8;
  let bufs: Vec<[u8; 1]> = (0..=255u8).map(|b| [b]).collect();
  for b in 0..=255u8 {
    let ps: [Parser<u8, V>; 4] = [
      elm_in(a, b).map(|e| V::E(e as u32)),
      elm_in_ref(a, b).map(|e: &u8| V::E(*e as u32)),
      elm_from_until(a, b).map(|e| V::E(e as u32)),
      elm_from_until_ref(a, b).map(|e: &u8| V::E(*e as u32)),
    ];
    let mut probes = vec![a, b, a.wrapping_sub(1), b.wrapping_sub(1), a.wrapping_add(1), b.wrapping_add(1)];
    for _ in 0..3 {
      probes.push(rng.below(256) as u8);
    }
    for x in probes {
      for (k, p) in ps.iter().enumerate() {
        let want = if k < 2 { a <= x && x <= b } else { a <= x && x < b };
        let got = guard(|| p.parse(&bufs[x as usize]).to_result());
        let ok = match (&got, want) {
          (Ok(Ok(V::E(g))), true) => *g == x as u32,
          (Ok(Err(_)), false) => true,
          _ => false,
        };
        ctx.add("range_checks", 1);
        if !ok {
          ctx.violation(
            if k < 2 { "elm_in" } else { "elm_from_until" },
            format!("range {}..{} (form {}) on {}: {:?}, member={}", a, b, k, x, got.map(|r| r.is_ok()), want),
          );
        }
      }
    }
  }
  ctx.judged(&format!("range {}", a), true);
}

/// `Set` and `RangeArgument` implementations themselves.
pub fn sets(ctx: &mut Ctx, rng: &mut Rng, _i: u64) {
  let a = rng.below(256) as u8;
  let b = rng.below(256) as u8;
  let x = match rng.below(4) {
    0 => a,
    1 => b,
    _ => rng.below(256) as u8,
  };
  let mut chk = |n: &'static str, got: bool, want: bool| {
    if got != want {
      ctx.violation(format!("set {}", n), format!("{} a={} b={} x={} got {} want {}", n, a, b, x, got, want));
    }
  };
  chk("full", Set::<u8>::contains(&(..), &x), true);
  chk("range", Set::contains(&(a..b), &x), a <= x && x < b);
  chk("inclusive", Set::contains(&(a..=b), &x), a <= x && x <= b);
  chk("from", Set::contains(&(a..), &x), a <= x);
  chk("to", Set::contains(&(..b), &x), x < b);
  chk("to-inclusive", Set::contains(&(..=b), &x), x <= b);
  chk("array", Set::contains(&[a, b], &x), x == a || x == b);
  chk("slice", Set::contains(&[a, b][..], &x), x == a || x == b);
  chk("empty", Set::contains(&[0u8; 0], &x), false);
  let s: String = [a as char, b as char].iter().collect();
  chk("str", Set::contains(s.as_str(), &(x as char)), x == a || x == b);
  ctx.judged(&format!("{} {} {}", a, b, x), a != b);
  ctx.hit("set_checks");
}

fn rand_err<'a>(rng: &mut Rng, buf: &'a [char], d: usize, names: &mut Vec<String>, o: &mut Vec<usize>) -> ParseError<'a, char> {
  let k = rng.below(if d == 0 { 4 } else { 6 });
  let lo = rng.below(buf.len() + 1);
  let hi = lo + rng.below(buf.len() - lo + 1);
  let sl = &buf[lo..hi];
  let off = match rng.below(5) {
    0 => usize::MAX,
    1 => buf.len() * 3,
    _ => rng.below(buf.len() + 2),
  };
  let len = match rng.below(5) {
    0 => usize::MAX,
    _ => rng.below(buf.len() + 3),
  };
  let name = format!("msg{}x", names.len());
  match k {
    0 => {
      names.push(name.clone());
      o.push(off);
      ParseError::of_mismatch(sl, off, len, name)
    }
    1 => {
      names.push(name.clone());
      o.push(off);
      ParseError::of_conversion(sl, off, len, name)
    }
    2 => ParseError::of_in_complete(),
    3 => {
      names.push(name.clone());
      o.push(off);
      ParseError::of_custom(off, None, name)
    }
    4 => {
      names.push(name.clone());
      o.push(off);
      let i = rand_err(rng, buf, d - 1, names, o);
      ParseError::of_custom(off, Some(Box::new(i)), name)
    }
    _ => {
      names.push(name.clone());
      o.push(off);
      let i = rand_err(rng, buf, d - 1, names, o);
      ParseError::of_expect(off, Box::new(i), name)
    }
  }
}

/// Any error value, however nested, can be displayed and excerpted.
pub fn error_trees(ctx: &mut Ctx, rng: &mut Rng, _i: u64) {
  let n = rng.below(8);
  let buf: Vec<char> = (0..n).map(|k| char::from(b'a' + k as u8)).collect();
  let mut names = vec![];
  let mut offs = vec![];
  let d = rng.below(5);
  let e = rand_err(rng, &buf, d, &mut names, &mut offs);
  let r = guard(|| (format!("{}", e), e.input().map(|x| x.to_vec()), e.input_string()));
  match r {
    Err(s) => ctx.violation("error-tree panic", format!("{:?}: {}", e, s.text())),
    Ok((text, ex, st)) => {
      for (k, n) in names.iter().enumerate() {
        if !text.contains(n.as_str()) || !text.contains(&offs[k].to_string()) {
          ctx.violation("error-tree display", format!("{:?} displays as {:?}: message {} or its position is missing", e, text, n));
        }
      }
      if ex.as_ref().map(|x| x.iter().collect::<String>()) != st {
        ctx.violation("error-tree excerpt", format!("{:?}: input {:?} but input_string {:?}", e, ex, st));
      }
      if let Some(x) = &ex {
        let all: String = buf.iter().collect();
        let x: String = x.iter().collect();
        if !all.contains(&x) {
          ctx.violation("error-tree excerpt", format!("{:?}: excerpt {:?} is not part of {:?}", e, x, all));
        }
      }
      // the innermost error decides whether there is an excerpt
      let mut leaf = &e;
      while let ParseError::Expect { inner, .. } | ParseError::Custom { inner: Some(inner), .. } = leaf {
        leaf = &**inner;
      }
      if ex.is_some() != (leaf.is_mismatch() || leaf.is_conversion()) {
        ctx.violation("error-tree excerpt", format!("{:?}: excerpt {:?}", e, ex));
      }
      let kinds = [e.is_expect(), e.is_custom(), e.is_mismatch(), e.is_conversion(), e.is_in_complete()];
      if kinds.iter().filter(|x| **x).count() != 1 {
        ctx.violation("error-tree kind", format!("{:?}: kind flags {:?}", e, kinds));
      }
    }
  }
  ctx.hit("error_trees");
  ctx.judged(&format!("{:?}", e), d > 0);
}

/// Every Unicode scalar value against one-character tags of its relatives under case mapping: only ASCII letters fold.
pub fn folding(ctx: &mut Ctx, rng: &mut Rng, i: u64) {
  let lo = i as u32 * CHAR_CHUNK;
  let chars: Vec<char> = (lo..lo + CHAR_CHUNK).filter_map(char::from_u32).collect();
  if chars.is_empty() {
    return;
  }
  for c in &chars {
    let mut rel: Vec<char> = vec![*c, (*rng.pick(&['a', 'K', 's', 'S', 'i', 'I', 'z', 'k'])) as char];
    rel.extend(c.to_lowercase());
    rel.extend(c.to_uppercase());
    rel.sort();
    rel.dedup();
    for t in rel {
      let text = format!("{}x", t);
      for input in [vec![*c, 'x'], vec![*c, 'X']] {
        let exact = t == *c;
        let want_tag = exact && input[1] == 'x';
        let want_nc = t.eq_ignore_ascii_case(c);
        let r = guard(|| {
          (
            matches!(tag(text.as_str()).parse(&input), ParseResult::Success { length: 2, .. }),
            matches!(tag_no_case(text.as_str()).parse(&input), ParseResult::Success { length: 2, .. }),
          )
        });
        match r {
          Ok((a, b)) => {
            if a != want_tag {
              ctx.violation(format!("tag fold {:?} {:?}", text, input), format!("tag {:?} on {:?}: success {}, expected {}", text, input, a, want_tag));
            }
            if b != want_nc {
              ctx.violation(format!("tag_no_case fold {:?} {:?}", text, input), format!("tag_no_case {:?} on {:?}: success {}, expected {}", text, input, b, want_nc));
            }
          }
          Err(s) => ctx.violation(format!("tag panic {:?}", text), format!("tag {:?} on {:?}: {}", text, input, s.text())),
        }
        ctx.add("folding_checks", 1);
      }
    }
  }
  ctx.judged(&format!("fold {}", lo), true);
}

fn byte_err<'a>(rng: &mut Rng, buf: &'a [u8], d: usize) -> ParseError<'a, u8> {
  let lo = rng.below(buf.len() + 1);
  let sl = &buf[lo..];
  let off = rng.below(buf.len() + 2);
  let len = if rng.chance(1, 8) { usize::MAX } else { rng.below(buf.len() + 2) };
  match rng.below(if d == 0 { 3 } else { 5 }) {
    0 => ParseError::of_mismatch(sl, off, len, "m".to_string()),
    1 => ParseError::of_conversion(sl, off, len, "c".to_string()),
    2 => ParseError::of_in_complete(),
    3 => ParseError::of_custom(off, Some(Box::new(byte_err(rng, buf, d - 1))), "u".to_string()),
    _ => ParseError::of_expect(off, Box::new(byte_err(rng, buf, d - 1)), "e".to_string()),
  }
}

/// The textual excerpt of an error over bytes: the bytes themselves when they are UTF-8, never a stop.
pub fn byte_errors(ctx: &mut Ctx, rng: &mut Rng, _i: u64) {
  let n = rng.below(8);
  let buf: Vec<u8> = match rng.below(3) {
    0 => "aé日b".bytes().take(n).collect(),
    _ => (0..n).map(|_| *rng.pick(&[b'a', b'b', 0, 0x7f, 0x80, 0xc3, 0xa9, 0xe6, 0xf0, 0xff])).collect(),
  };
  let d = rng.below(4);
  let e = byte_err(rng, &buf, d);
  match guard(|| (format!("{}", e), e.input().map(|x| x.to_vec()), e.input_string())) {
    Err(s) => ctx.violation("byte-error panic", format!("{:?}: {}", e, s.text())),
    Ok((_, ex, st)) => {
      let ok = match (&ex, &st) {
        (None, None) => true,
        (Some(x), Some(s)) => match std::str::from_utf8(x) {
          Ok(t) => t == s,
          Err(_) => {
            ctx.hit("byte_excerpt_not_utf8");
            true
          }
        },
        _ => false,
      };
      if !ok {
        ctx.violation("byte-error excerpt", format!("{:?}: excerpt {:?} but text {:?}", e, ex, st));
      }
      if let Some(x) = &ex {
        if !x.is_empty() && !buf.windows(x.len()).any(|w| w == &x[..]) {
          ctx.violation("byte-error excerpt", format!("{:?}: excerpt {:?} is not part of {:?}", e, x, buf));
        }
      }
    }
  }
  ctx.judged(&format!("{:?}", e), true);
}

type PR<'a> = ParseResult<'a, char, i64>;

fn shape(r: &PR) -> (Option<(i64, usize)>, Option<(String, bool)>) {
  match r {
    ParseResult::Success { value, length } => (Some((*value, *length)), None),
    ParseResult::Failure { error, committed_status } => (None, Some((format!("{}", error), committed_status.is_committed()))),
  }
}

/// The result algebra: every accessor and transformer against its definition.
pub fn results(ctx: &mut Ctx, rng: &mut Rng, _i: u64) {
  let ok = rng.chance(1, 2);
  let v = rng.range(-50, 50);
  let n = rng.below(50);
  let c = rng.chance(1, 2);
  let m = format!("m{}", rng.below(9));
  let via = rng.below(3);
  let mk = || -> PR<'static> {
    if ok {
      ParseResult::successful(v, n)
    } else {
      let e = ParseError::of_custom(n, None, m.clone());
      match via {
        0 => ParseResult::failed(e, c.into()),
        1 if c => ParseResult::failed_with_commit(e),
        1 => ParseResult::failed_with_uncommitted(e),
        _ => ParseResult::failed(
          e,
          if c { CommittedStatus::Committed } else { CommittedStatus::Uncommitted },
        ),
      }
    }
  };
  let text = format!("{} at {}", m, n);
  let base: (Option<(i64, usize)>, Option<(String, bool)>) =
    if ok { (Some((v, n)), None) } else { (None, Some((text.clone(), c))) };
  let with_commit = |x: bool| if ok { (Some((v, n)), None) } else { (None, Some((text.clone(), x))) };
  let mut chk = |name: &str, got: (Option<(i64, usize)>, Option<(String, bool)>), want: (Option<(i64, usize)>, Option<(String, bool)>)| {
    if got != want {
      ctx.violation(format!("result {}", name), format!("{}: got {:?}, expected {:?} (base {:?})", name, got, want, base));
    }
  };
  chk("construct", shape(&mk()), base.clone());
  chk("clone", shape(&mk().clone()), base.clone());
  chk("with_uncommitted", shape(&mk().with_uncommitted()), with_commit(false));
  let b = rng.chance(1, 2);
  chk("add_commit", shape(&mk().add_commit(b)), with_commit(c || b));
  let k = rng.below(9);
  chk(
    "advance_success",
    shape(&mk().advance_success(k)),
    if ok { (Some((v, n + k)), None) } else { base.clone() },
  );
  chk(
    "map",
    shape(&mk().map(|x, l| (x * 3 + 1, l + 2))),
    if ok { (Some((v * 3 + 1, n + 2)), None) } else { base.clone() },
  );
  let inner_ok = rng.chance(1, 2);
  let inner_c = rng.chance(1, 2);
  let fm = mk().flat_map(|x, l| {
    if inner_ok {
      ParseResult::successful(x - 7, l + 1)
    } else {
      ParseResult::failed(ParseError::of_custom(l, None, "inner".into()), inner_c.into())
    }
  });
  chk(
    "flat_map",
    shape(&fm),
    match (ok, inner_ok) {
      (true, true) => (Some((v - 7, n + 1)), None),
      (true, false) => (None, Some((format!("inner at {}", n), inner_c))),
      _ => base.clone(),
    },
  );
  chk(
    "map_err",
    shape(&mk().map_err(|e| ParseError::of_expect(1, Box::new(e.clone()), "w".into()))),
    if ok { base.clone() } else { (None, Some((format!("w at 1: {}", text), c))) },
  );
  let flags = (
    mk().is_success(),
    mk().is_failure(),
    mk().success(),
    mk().failure().map(|e| e.to_string()),
    mk().committed_status().map(|s| s.is_committed()),
    mk().committed_status().map(|s| s.is_uncommitted()),
    mk().to_result().map_err(|e| e.to_string()),
  );
  let want = if ok {
    (true, false, Some(v), None, None, None, Ok(v))
  } else {
    (false, true, None, Some(text.clone()), Some(c), Some(!c), Err(text.clone()))
  };
  if flags != want {
    ctx.violation("result accessors", format!("got {:?}, expected {:?}", flags, want));
  }
  let (x, y) = (rng.chance(1, 2), rng.chance(1, 2));
  let or = CommittedStatus::from(x).or(CommittedStatus::from(y));
  if or.is_committed() != (x || y) || or.is_uncommitted() == (x || y) {
    ctx.violation("status or", format!("{} or {} = {:?}", x, y, or));
  }
  ctx.hit("result_algebra");
  ctx.judged(&format!("{:?}{}{}{}{}", base, b, k, inner_ok, inner_c), true);
}

/// parse, parse_as_result, run from offset 0 and the `ParserParsers` facade agree on every parser and input.
pub fn entry_points(ctx: &mut Ctx, rng: &mut Rng, _i: u64) {
  let mut g = Gen { rng, is_char: true, scale: 0, steps: 0 };
  let d = 1 + g.rng.below(3);
  let p = g.gen(d, &[]);
  if p.size() > 40 {
    ctx.discarded += 1;
    return;
  }
  let inp = g.input_for(&p);
  let (want, used) = match reference(&p, &inp, 0) {
    Some(x) => x,
    None => {
      ctx.discarded += 1;
      return;
    }
  };
  let buf: Vec<char> = inp.iter().map(|e| char::of(*e)).collect();
  let r = guard(|| {
    set_fuel(used * 100 + 100_000);
    MON.with(|m| *m.borrow_mut() = Mon { total_len: buf.len(), ..Mon::default() });
    let q = mk::<char>(&p);
    let a = observe(q.parse(&buf), &buf);
    let b = q.parse_as_result(&buf);
    let c = observe(q.run(&ParseState::new(&buf, 0)), &buf);
    let d = ParserParsers::parse(&q, &buf[..]);
    let pm = ParserParsers::map(q.clone(), |v| V::M(77, Box::new(v)));
    let e = observe(pm.parse(&buf), &buf);
    let pf = ParserParsers::filter(q.clone(), |v: &V| v.digest() % 2 == 0);
    let f = observe(pf.parse(&buf), &buf);
    let ps = ParserParsers::flat_map(q.clone(), |v| {
      let w = v.clone();
      let x = v.clone();
      if v.digest() % 2 == 0 {
        ParserParsers::successful_lazy(move || V::M(78, Box::new(w.clone())))
      } else {
        ParserParsers::successful(V::M(79, Box::new(x)))
      }
    });
    let h = observe(ps.parse(&buf), &buf);
    let u = observe(ParserParsers::unit().map(|_| V::U).parse(&buf), &buf);
    let y1 = observe(
      ParserParsers::failed_lazy(|| (ParseError::of_custom(0, None, "z".to_string()), CommittedStatus::Committed)).parse(&buf),
      &buf,
    );
    let y2 = observe(
      ParserParsers::failed(ParseError::of_custom(0, None, "z".to_string()), CommittedStatus::Uncommitted).parse(&buf),
      &buf,
    );
    set_fuel(u64::MAX);
    (a, b, c, d, e, f, h, u, y1, y2)
  });
  set_fuel(u64::MAX);
  let head = format!("{:?} on {}", p, show(&inp));
  match r {
    Err(s) => ctx.violation("entry panic", format!("{}: {}", head, s.text())),
    Ok((a, b, c, d, e, f, h, u, y1, y2)) => {
      let val = |o: &crate::diff::Obs| o.res.as_ref().ok().cloned();
      let w = want.as_ref().ok().cloned();
      let mut chk = |n: &str, got: Option<(V, usize)>, want: Option<(V, usize)>| {
        if got != want {
          ctx.violation(format!("entry {}", n), format!("{}: {} gives {:?}, expected {:?}", head, n, got, want));
        }
      };
      chk("parse", val(&a), w.clone());
      chk("run", val(&c), w.clone());
      let n = w.as_ref().map_or(0, |x| x.1);
      chk("parse_as_result", b.as_ref().ok().map(|v| (v.clone(), n)), w.clone());
      chk("ParserParsers::parse", d.ok().map(|v| (v, n)), w.clone());
      chk("ParserParsers::map", val(&e), w.clone().map(|(v, n)| (V::M(77, Box::new(v)), n)));
      chk("ParserParsers::filter", val(&f), w.clone().filter(|(v, _)| v.digest() % 2 == 0));
      chk(
        "ParserParsers::flat_map",
        val(&h),
        w.clone().map(|(v, n)| (V::M(if v.digest() % 2 == 0 { 78 } else { 79 }, Box::new(v)), n)),
      );
      chk("ParserParsers::unit", val(&u), Some((V::U, 0)));
      chk("ParserParsers::failed_lazy", val(&y1), None);
      chk("ParserParsers::failed", val(&y2), None);
      let com = |o: &crate::diff::Obs| o.res.as_ref().err().map(|e| e.committed);
      if com(&y1) != Some(true) || com(&y2) != Some(false) {
        ctx.violation("entry failed status", format!("{:?} {:?}", y1, y2));
      }
      if let (Err(x), Err(y)) = (&a.res, &b) {
        if x.display != y.to_string() {
          ctx.violation("entry error", format!("{}: parse reports {:?}, parse_as_result {:?}", head, x.display, y.to_string()));
        }
      }
      ctx.hit(if w.is_some() { "entry_success" } else { "entry_failure" });
    }
  }
  ctx.judged(&head, p.size() > 1 || !inp.is_empty());
  if ctx.want_sample() {
    ctx.sample(|| head);
  }
}

/// ParseState arithmetic.
pub fn states(ctx: &mut Ctx, rng: &mut Rng, _i: u64) {
  let n = rng.below(30);
  let buf: Vec<u8> = (0..n as u8).collect();
  let o = rng.below(n + 1);
  let k = rng.below(n - o + 1);
  let l = rng.below(n - o - k + 1);
  let r = guard(|| {
    let s = ParseState::new(&buf[..], o);
    let t = s.advance_by(k);
    (
      s.current_offset(),
      s.last_offset(),
      s.input().to_vec(),
      t.current_offset(),
      t.input().to_vec(),
      t.slice_with_len(l).to_vec(),
      t.clone().current_offset(),
    )
  });
  let want = (
    o,
    o.checked_sub(1),
    buf[o..].to_vec(),
    o + k,
    buf[o + k..].to_vec(),
    buf[o + k..o + k + l].to_vec(),
    o + k,
  );
  if r.as_ref().ok() != Some(&want) {
    ctx.violation("parse state", format!("n={} o={} k={} l={}: {:?}, expected {:?}", n, o, k, l, r, want));
  }
  ctx.hit("states");
  ctx.judged(&format!("{} {} {} {}", n, o, k, l), n > 0);
}
