use crate::oracle::*;
use vcommon::Rng;

pub fn value_text(r: &mut Rng, k: Kind) -> String {
  let (lo, hi) = match k {
    Kind::Min => (0, 59),
    Kind::Hour => (0, 23),
    Kind::Day => (1, 31),
    Kind::Month => (1, 12),
    Kind::Dow => {
      return match r.below(8) {
        0 => "L".into(),
        1..=4 => r.range(1, 7).to_string(),
        _ => r.pick(&NAMES).to_string(),
      }
    }
  };
  let n = match r.below(6) {
    0 => lo,
    1 => hi,
    2 => (lo + r.range(0, 3)).min(hi),
    _ => r.range(lo, hi),
  };
  if n < 10 && r.chance(1, 3) {
    format!("0{}", n)
  } else {
    n.to_string()
  }
}
fn step_text(r: &mut Rng, k: Kind, zero: bool) -> String {
  for _ in 0..20 {
    let s = if k != Kind::Dow && r.chance(1, 2) { (r.range(1, 12)).to_string() } else { value_text(r, k) };
    if zero || !matches!(value(k, &s), Some(Val::N(0))) {
      return s;
    }
  }
  "1".into()
}
fn item_text(r: &mut Rng, k: Kind, zero: bool) -> String {
  match r.below(5) {
    0 | 1 => value_text(r, k),
    n => {
      let (mut a, mut b) = (value_text(r, k), value_text(r, k));
      if r.chance(3, 4) {
        if let (Some(Val::N(x)), Some(Val::N(y))) = (value(k, &a), value(k, &b)) {
          if x > y {
            std::mem::swap(&mut a, &mut b);
          }
        }
      }
      if n == 2 { format!("{}-{}", a, b) } else { format!("{}-{}/{}", a, b, step_text(r, k, zero)) }
    }
  }
}
pub fn field_text(r: &mut Rng, k: Kind, zero: bool) -> String {
  match r.below(10) {
    0..=2 => "*".into(),
    3 | 4 => format!("*/{}", step_text(r, k, zero)),
    5 | 6 => item_text(r, k, zero),
    _ => {
      let n = 1 + r.below(5);
      (0..n).map(|_| item_text(r, k, zero)).collect::<Vec<_>>().join(",")
    }
  }
}
/// A valid expression; with `zero`, steps of zero may appear (making it invalid).
pub fn cron_text(r: &mut Rng, zero: bool) -> String {
  KINDS.iter().map(|k| field_text(r, *k, zero)).collect::<Vec<_>>().join(" ")
}
pub fn mutate(r: &mut Rng, s: &str) -> String {
  const ALPHA: &[char] = &[
    '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '*', '/', '-', ',', ' ', 'L', 'S', 'U', 'N', 'M', 'l', 's', '\t', '\n', '+', '.', '?', '#',
    '٣', '１', '\u{a0}', '×', '\0', 'é',
  ];
  let mut c: Vec<char> = s.chars().collect();
  for _ in 0..1 + r.below(3) {
    match r.below(9) {
      0 if !c.is_empty() => {
        let i = r.below(c.len());
        c.remove(i);
      }
      1 | 2 => {
        let i = r.below(c.len() + 1);
        c.insert(i, *r.pick(ALPHA));
      }
      3 if !c.is_empty() => {
        let i = r.below(c.len());
        c[i] = *r.pick(ALPHA);
      }
      4 if c.len() > 1 => {
        let i = r.below(c.len() - 1);
        c.swap(i, i + 1);
      }
      5 if !c.is_empty() => {
        let i = r.below(c.len());
        let x = c[i];
        c.insert(i, x);
      }
      6 if !c.is_empty() => {
        // swap two fields' texts
        let s: String = c.iter().collect();
        let mut f: Vec<&str> = s.split(' ').collect();
        let (i, j) = (r.below(f.len()), r.below(f.len()));
        f.swap(i, j);
        c = f.join(" ").chars().collect();
      }
      7 => match r.below(6) {
        0 => c.push(' '),
        1 => c.insert(0, ' '),
        2 => c.push(','),
        3 => c.extend(" *".chars()),
        4 => c.extend("/2".chars()),
        _ => c.extend("-3".chars()),
      },
      _ if !c.is_empty() => {
        let n = r.below(c.len());
        c.truncate(n);
      }
      _ => {}
    }
  }
  c.into_iter().collect()
}
