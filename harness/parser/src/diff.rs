//! The deciding step for the combinator properties: one execution of the real parser, observed at its public
//! boundary (result, consumed length, commitment, error) and judged by the reference semantics.
use crate::ast::*;
use crate::gen::Gen;
use crate::mk::{mk, El, Mon, MON};
use crate::refsem::{Fail, Kind, Ref, Res};
use oni_comb_parser_rs::prelude::*;
use vcommon::{guard, set_fuel, Ctx, Rng, Stop};

pub fn show(input: &[E]) -> String {
  let s: String = input.iter().map(|e| char::from_u32(*e).unwrap_or('?')).collect();
  format!("{:?}", s)
}

/// What the caller could see of one run.
#[derive(Clone, Debug)]
pub struct Obs {
  pub res: Result<(V, usize), ObsErr>,
}
#[derive(Clone, Debug)]
pub struct ObsErr {
  pub committed: bool,
  pub kind: Option<Kind>,
  pub display: String,
  pub offset: Option<usize>,
  /// excerpt: None = no excerpt offered
  pub excerpt: Option<Vec<E>>,
  pub in_input: bool,
}

pub fn observe<'a, I: El>(r: ParseResult<'a, I, V>, input: &'a [I]) -> Obs {
  let st = r.committed_status();
  match r {
    ParseResult::Success { value, length } => Obs {
      res: Ok((value, length)),
    },
    ParseResult::Failure { error, .. } => {
      let kind = match &error {
        ParseError::Mismatch { .. } => Some(Kind::Mismatch),
        ParseError::Conversion { .. } => Some(Kind::Conversion),
        ParseError::Incomplete => Some(Kind::Incomplete),
        ParseError::Custom { .. } => Some(Kind::Custom),
        ParseError::Expect { .. } => None,
      };
      let offset = match &error {
        ParseError::Mismatch { offset, .. }
        | ParseError::Conversion { offset, .. }
        | ParseError::Custom { offset, .. }
        | ParseError::Expect { offset, .. } => Some(*offset),
        ParseError::Incomplete => None,
      };
      let ex = error.input();
      let in_input = match ex {
        None => true,
        Some(s) if s.is_empty() => true,
        Some(s) => {
          let (b, e) = (input.as_ptr() as usize, input.as_ptr() as usize + std::mem::size_of_val(input));
          let (x, y) = (s.as_ptr() as usize, s.as_ptr() as usize + std::mem::size_of_val(s));
          b <= x && y <= e
        }
      };
      Obs {
        res: Err(ObsErr {
          committed: st.map_or(false, |c| c.is_committed()),
          kind,
          display: format!("{}", error),
          offset,
          excerpt: ex.map(|s| s.iter().map(|e| e.num()).collect()),
          in_input,
        }),
      }
    }
  }
}

pub enum Verdict {
  Agree,
  Diverged,
  Bad(String, String),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Strict {
  /// value, consumption, commitment
  Outcome,
  /// additionally the error report
  Errors,
}

pub fn reference(p: &P, input: &[E], off: usize) -> Option<(Res, u64)> {
  // (long inputs get more)
  let budget = if input.len() > 200 { 400_000 } else { 20_000 };
  let mut r = Ref {
    input,
    fuel: budget,
    depth: 0,
  };
  match r.eval(p, off) {
    Ok(x) => Some((x, budget - r.fuel)),
    Err(_) => None,
  }
}

fn compare(p: &P, input: &[E], off: usize, want: &Res, got: &Obs, strict: Strict) -> Option<(String, String)> {
  let head = || format!("parser {:?}\ninput {} from offset {}", p, show(input), off);
  match (want, &got.res) {
    (Ok((wv, wn)), Ok((gv, gn))) => {
      if wn != gn {
        return Some((
          "consumed".into(),
          format!("{}\nconsumed {} elements, expected {} (value {:?})", head(), gn, wn, gv),
        ));
      }
      if wv != gv {
        return Some(("value".into(), format!("{}\nvalue    {:?}\nexpected {:?}", head(), gv, wv)));
      }
      None
    }
    (Ok(w), Err(g)) => Some((
      "failed".into(),
      format!("{}\nfailed ({:?}), expected success {:?}", head(), g, w),
    )),
    (Err(w), Ok(g)) => Some((
      "succeeded".into(),
      format!("{}\nsucceeded with {:?}, expected failure {:?}", head(), g, w),
    )),
    (Err(w), Err(g)) => {
      if w.committed != g.committed {
        return Some((
          "commitment".into(),
          format!("{}\nfailure committed={}, expected committed={}", head(), g.committed, w.committed),
        ));
      }
      if strict == Strict::Errors {
        if let Some(why) = bad_error(w, g, input) {
          return Some(("error-report".into(), format!("{}\n{}: {:?}, expected {:?}", head(), why, g, w)));
        }
      }
      None
    }
  }
}

fn bad_error(w: &Fail, g: &ObsErr, input: &[E]) -> Option<String> {
  if g.kind != Some(w.kind) {
    return Some("error of another kind".into());
  }
  if let Some(n) = w.names.last() {
    if !g.display.contains(NAMES[*n as usize % NAMES.len()]) {
      return Some("the name given to the parser is missing from the message".into());
    }
  }
  if let (Some(o), Some(p)) = (g.offset, w.pos) {
    if o > p + 1 || o + 1 < p {
      return Some(format!("reported position {} but the failure is at {}", o, p));
    }
  }
  if !g.in_input {
    return Some("the excerpt is not part of the input".into());
  }
  if g.excerpt.is_none() && matches!(w.kind, Kind::Mismatch | Kind::Conversion) {
    return Some("no excerpt is offered".into());
  }
  if let Some(x) = &g.excerpt {
    if x.len() > input.len() {
      return Some("the excerpt is longer than the input".into());
    }
  }
  if g.display.is_empty() {
    return Some("empty message".into());
  }
  None
}

/// Runs a sequence of (input, offset) through ONE parser object and judges every run.
pub fn run_history<I: El>(
  ctx: &mut Ctx,
  p: &P,
  history: &[(Vec<E>, usize)],
  strict: Strict,
) -> Vec<Verdict> {
  let mut out = vec![];
  // all inputs outlive the parser
  let bufs: Vec<Vec<I>> = history.iter().map(|(i, _)| i.iter().map(|e| I::of(*e)).collect()).collect();
  // an input that is a prefix or suffix of the first one is parsed in place: same memory, another extent
  let views: Vec<&[I]> = history
    .iter()
    .enumerate()
    .map(|(k, (i, _))| {
      let first = &history[0].0;
      if k > 0 && k % 2 == 1 && first.starts_with(i) {
        &bufs[0][..i.len()]
      } else if k > 0 && k % 2 == 0 && first.ends_with(i) {
        &bufs[0][first.len() - i.len()..]
      } else {
        &bufs[k][..]
      }
    })
    .collect();
  let mut wants = vec![];
  for (i, o) in history {
    match reference(p, i, *o) {
      None => {
        out.push(Verdict::Diverged);
        return out;
      }
      Some(x) => wants.push(x),
    }
  }
  let parser = match guard(|| mk::<I>(p)) {
    Ok(x) => x,
    Err(s) => {
      out.push(Verdict::Bad("panic-build".into(), format!("building {:?}: {}", p, s.text())));
      return out;
    }
  };
  for (k, (inp, off)) in history.iter().enumerate() {
    let (want, used) = &wants[k];
    let buf: &[I] = views[k];
    MON.with(|m| {
      *m.borrow_mut() = Mon {
        total_len: buf.len(),
        ..Mon::default()
      }
    });
    set_fuel(used * 20 + 20_000);
    let got = guard(|| {
      // clones share the parser (and its cache); the original is used in between
      let copy;
      let q = if k % 2 == 1 {
        copy = parser.clone();
        &copy
      } else {
        &parser
      };
      let r = if *off == 0 && k % 3 != 2 {
        q.parse(buf)
      } else {
        q.run(&ParseState::new(buf, *off))
      };
      observe(r, buf)
    });
    set_fuel(u64::MAX);
    let mon = MON.with(|m| m.borrow().clone());
    ctx.add("node_runs_monitored", mon.events);
    let v = match got {
      Err(Stop::Fuel) => Verdict::Bad(
        "no-termination".into(),
        format!("parser {:?}\ninput {} from {}: did not finish within {} node runs; the reference needs {}", p, show(inp), off, used * 20 + 20_000, used),
      ),
      Err(s) => Verdict::Bad(
        "panic".into(),
        format!("parser {:?}\ninput {} from {}: {}", p, show(inp), off, s.text()),
      ),
      Ok(obs) => {
        if let Some(b) = mon.bad {
          Verdict::Bad("bounds".into(), format!("parser {:?}\ninput {} from {}: {}", p, show(inp), off, b))
        } else if let Some((s, d)) = compare(p, inp, *off, want, &obs, strict) {
          let d = if history.len() > 1 {
            format!("{}\n(run {} of the history {:?})", d, k, history.iter().map(|(i, o)| (show(i), *o)).collect::<Vec<_>>())
          } else {
            d
          };
          Verdict::Bad(s, d)
        } else {
          match want {
            Ok((_, n)) => {
              ctx.hit("success");
              if *n > 0 {
                ctx.hit("success_consuming");
              }
            }
            Err(f) => {
              ctx.hit("failure");
              if f.committed {
                ctx.hit("failure_committed");
              }
            }
          }
          Verdict::Agree
        }
      }
    };
    let bad = matches!(v, Verdict::Bad(..));
    out.push(v);
    if bad {
      break;
    }
  }
  out
}

fn count_nodes(ctx: &mut Ctx, p: &P) {
  ctx.hit(p.tag_name());
  for c in p.children() {
    count_nodes(ctx, c);
  }
}

pub struct Opts {
  pub focus: &'static [&'static str],
  /// the description must contain one of these nodes at the root (focus root)
  pub depth: usize,
  pub strict: Strict,
  pub runs: usize,
  pub offsets: bool,
  pub root: &'static [&'static str],
}

fn rooted(g: &mut Gen, o: &Opts, depth: usize) -> P {
  if o.root.is_empty() {
    return g.gen(depth, o.focus);
  }
  let k = *g.rng.pick(o.root);
  // the focus node sits at the root, or inside one more layer
  let inner = if crate::gen::COMBOS.contains(&k) {
    g.node(k, depth.max(1), o.focus)
  } else {
    g.leaf_of(k)
  };
  match g.rng.below(6) {
    0 => P::And(Box::new(inner), Box::new(g.gen(1, &[])), 0),
    1 => P::Or(Box::new(inner), Box::new(g.gen(1, &[])), 1),
    2 => P::Or(Box::new(g.gen(1, &[])), Box::new(inner), 0),
    3 => P::And(Box::new(g.gen(1, &[])), Box::new(inner), 1),
    _ => inner,
  }
}

pub fn case(ctx: &mut Ctx, rng: &mut Rng, o: &Opts) {
  let is_char = rng.chance(3, 5);
  let mut g = Gen { rng, is_char, scale: 0, steps: 0 };
  let depth = 1 + g.rng.below(o.depth);
  let p = rooted(&mut g, o, depth);
  if p.size() > 60 {
    ctx.discarded += 1;
    return;
  }
  let n = 1 + g.rng.below(o.runs);
  let mut hist: Vec<(Vec<E>, usize)> = vec![];
  for _ in 0..n {
    let i = if !hist.is_empty() && g.rng.chance(1, 2) {
      let mut x = hist[g.rng.below(hist.len())].0.clone();
      match g.rng.below(3) {
        0 => {
          let n = g.rng.below(x.len() + 1);
          x.truncate(n)
        }
        1 => {
          let n = g.rng.below(x.len() + 1);
          x.drain(..n);
        }
        _ => {}
      }
      x
    } else {
      g.input_for(&p)
    };
    let off = if o.offsets && g.rng.chance(2, 3) {
      g.rng.below(i.len() + 1)
    } else {
      0
    };
    hist.push((i, off));
  }
  judge(ctx, &p, &hist, is_char, o);
}

fn judge(ctx: &mut Ctx, p: &P, hist: &[(Vec<E>, usize)], is_char: bool, o: &Opts) -> bool {
  let key = format!("{:?}{:?}", p, hist);
  let vs = if is_char {
    run_history::<char>(ctx, p, hist, o.strict)
  } else {
    run_history::<u8>(ctx, p, hist, o.strict)
  };
  let mut any = false;
  for v in vs {
    match v {
      Verdict::Diverged => ctx.discarded += 1,
      Verdict::Agree => any = true,
      Verdict::Bad(s, d) => {
        any = true;
        ctx.violation(format!("{}:{}", s, p.tag_name()), d)
      }
    }
  }
  if any {
    count_nodes(ctx, p);
    let nontrivial = p.size() > 1 || !hist[0].0.is_empty();
    ctx.judged(&key, nontrivial);
    if hist[0].0.len() > 1000 {
      ctx.hit("long_input");
    }
    if hist[0].0.len() > 0x10000 {
      ctx.hit("very_long_input");
    }
    if ctx.want_sample() && p.size() > 2 && key.len() < 2000 {
      ctx.sample(|| format!("{:?} on {:?}", p, hist.iter().map(|(i, o)| (show(i), *o)).collect::<Vec<_>>()));
    }
  }
  any
}

const SCALES: &[usize] = &[
  16, 32, 62, 64, 100, 127, 128, 200, 255, 256, 257, 300, 500, 511, 512, 1000, 1023, 1024, 1100, 2000, 2048, 4096, 5000, 8192,
  10_000, 16_384, 32_767, 32_768, 40_000, 65_535, 65_536, 66_000, 70_000,
];

fn repeats(p: &P) -> bool {
  matches!(
    p,
    P::Repeat(..) | P::RepSep(..) | P::ChainL0(..) | P::ChainL1(..) | P::ChainR0(..) | P::ChainR1(..) | P::RestL1(..) | P::RestR1(..)
  )
}
/// Something that may look at all of the remaining input sits under a repetition.
fn quadratic(p: &P, under: bool) -> bool {
  let far = matches!(
    p,
    P::Regex(..) | P::TakeWhile0(_) | P::TakeWhile1(_) | P::TakeWhileNM(..) | P::TakeTill0(_) | P::TakeTill1(_) | P::Take(_) | P::Seq(_) | P::Tag(_) | P::TagNc(_)
  ) || repeats(p);
  (under && far) || p.children().iter().any(|c| quadratic(c, under || repeats(p)))
}
/// (the library copies the accumulated value at every step of a chain)
fn recursive(p: &P) -> bool {
  matches!(
    p,
    P::ChainL0(..) | P::ChainL1(..) | P::RestL1(..) | P::ChainR0(..) | P::ChainR1(..) | P::RestR1(..)
  ) || p.children().iter().any(|c| recursive(c))
}
/// A regex whose reference matcher may take quadratic time.
fn backtracks(p: &P) -> bool {
  fn stars(r: &Rx) -> usize {
    match r {
      Rx::Star(r) | Rx::Plus(r) => 1 + stars(r),
      Rx::Cat(rs) | Rx::Alt(rs) => rs.iter().map(stars).sum(),
      Rx::Opt(r) => stars(r),
      _ => 0,
    }
  }
  matches!(p, P::Regex(r, _) if stars(r) > 1) || p.children().iter().any(|c| backtracks(c))
}

/// The same judgement on long literals, high counts, long inputs and far offsets.
pub fn scale_case(ctx: &mut Ctx, rng: &mut Rng, o: &Opts) {
  let is_char = rng.chance(3, 5);
  let scale = *rng.pick(SCALES);
  let mut g = Gen { rng, is_char, scale, steps: 0 };
  let depth = 1 + g.rng.below(2);
  let mut p = rooted(&mut g, o, depth);
  for k in 0..9 {
    if k == 8 {
      ctx.discarded += 1;
      return;
    }
    let most = if quadratic(&p, false) {
      64
    } else if recursive(&p) {
      400
    } else if backtracks(&p) {
      1100
    } else {
      usize::MAX
    };
    if g.scale <= most {
      break;
    }
    if g.rng.chance(1, 2) {
      g.scale = *g.rng.pick(SCALES).min(&most);
    }
    p = rooted(&mut g, o, depth);
  }
  if p.size() > 16 {
    ctx.discarded += 1;
    return;
  }
  let (mut i, mut off) = (g.input_for(&p), 0);
  if g.rng.chance(1, 3) {
    // the same thing far from the start, or far from the end
    let most = if quadratic(&p, false) || backtracks(&p) { g.scale } else { scale };
    let n = most + g.rng.below(4);
    let pad: Vec<E> = (0..n).map(|_| g.el()).collect();
    if g.rng.chance(3, 4) {
      i.splice(0..0, pad.iter().copied());
      off = n;
    }
    if g.rng.chance(1, 2) {
      let most = if recursive(&p) { most.min(g.scale) } else { most };
      i.extend(&pad[..most]);
    }
  }
  let mut hist = vec![(i, off)];
  if g.rng.chance(1, 4) {
    let mut again = hist[0].clone();
    if g.rng.chance(1, 2) && again.0.len() > off {
      let n = off + g.rng.below(again.0.len() - off);
      again.0.truncate(n);
    }
    hist.push(again);
  }
  judge(ctx, &p, &hist, is_char, o);
}

/// The same judgement on tall descriptions: a node of the property's kinds over another, up to 250 times.
pub fn tall_case(ctx: &mut Ctx, rng: &mut Rng, o: &Opts) {
  let is_char = rng.chance(3, 5);
  let mut g = Gen { rng, is_char, scale: 0, steps: 0 };
  let kinds: Vec<&str> = o.root.iter().copied().filter(|k| crate::gen::COMBOS.contains(k)).collect();
  let kinds = if kinds.is_empty() || g.rng.chance(1, 3) {
    vec!["and", "or", "skip_l", "skip_r", "map", "attempt", "opt", "name", "cache", "lazy", "collect", "next_off"]
  } else {
    kinds
  };
  let mut p = g.gen(1, o.focus);
  let most = *g.rng.pick(&[12, 60, 250]);
  let levels = 3 + g.rng.below(most);
  let one = *g.rng.pick(&kinds);
  for _ in 0..levels {
    let k = if g.rng.chance(4, 5) { one } else { *g.rng.pick(&kinds) };
    // (operators that consume, so that repetition ends)
    let mut q = g.node(k, 1, o.focus);
    let which = g.rng.below(2);
    if let Some(c) = q.a_child_mut(which) {
      **c = p;
      p = q;
    } else {
      ctx.discarded += 1;
      return;
    }
  }
  let mut i = g.input_for(&p);
  i.truncate(60);
  let n = 1 + g.rng.below(2);
  let mut hist = vec![];
  for _ in 0..n {
    hist.push((i.clone(), 0));
    let cut = g.rng.below(i.len() + 1);
    i.truncate(cut);
  }
  if judge(ctx, &p, &hist, is_char, o) {
    ctx.hit("tall_descriptions");
    if levels > 100 {
      ctx.hit("very_tall_descriptions");
    }
  }
}
