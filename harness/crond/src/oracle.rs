//! Independent meaning of a cron expression: a hand-written field parser, a set-membership evaluation, and civil-date
//! arithmetic that does not use chrono.
use oni_comb_crond_rs::CronExpr;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
  Min,
  Hour,
  Day,
  Month,
  Dow,
}
pub const KINDS: [Kind; 5] = [Kind::Min, Kind::Hour, Kind::Day, Kind::Month, Kind::Dow];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Val {
  N(u8),
  Last,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Item {
  Val(Val),
  Range(Val, Val, Option<Val>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Field {
  Any,
  Step(Val),
  List(Vec<Item>),
}

pub const NAMES: [&str; 7] = ["SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT"];

pub fn value(k: Kind, s: &str) -> Option<Val> {
  if k == Kind::Dow {
    if s == "L" {
      return Some(Val::Last);
    }
    if let Some(i) = NAMES.iter().position(|n| *n == s) {
      return Some(Val::N(i as u8 + 1));
    }
    let b = s.as_bytes();
    return if b.len() == 1 && (b'1'..=b'7').contains(&b[0]) { Some(Val::N(b[0] - b'0')) } else { None };
  }
  let b = s.as_bytes();
  if b.is_empty() || b.len() > 2 || !b.iter().all(|c| (b'0'..=b'9').contains(c)) {
    return None;
  }
  let n = b.iter().fold(0u8, |a, c| a * 10 + (c - b'0'));
  let (lo, hi) = match k {
    Kind::Min => (0, 59),
    Kind::Hour => (0, 23),
    Kind::Day => (1, 31),
    Kind::Month => (1, 12),
    Kind::Dow => unreachable!(),
  };
  if lo <= n && n <= hi { Some(Val::N(n)) } else { None }
}

fn item(k: Kind, s: &str) -> Option<Item> {
  if let Some(v) = value(k, s) {
    return Some(Item::Val(v));
  }
  let (range, step) = match s.find('/') {
    Some(i) => (&s[..i], Some(&s[i + 1..])),
    None => (s, None),
  };
  let i = range.find('-')?;
  let from = value(k, &range[..i])?;
  let to = value(k, &range[i + 1..])?;
  let step = match step {
    None => None,
    Some(x) => match value(k, x)? {
      Val::N(0) => return None,
      v => Some(v),
    },
  };
  Some(Item::Range(from, to, step))
}

pub fn field(k: Kind, s: &str) -> Option<Field> {
  if s == "*" {
    return Some(Field::Any);
  }
  if s.starts_with("*/") {
    return match value(k, &s[2..])? {
      Val::N(0) => None,
      v => Some(Field::Step(v)),
    };
  }
  let mut out = vec![];
  for p in s.split(',') {
    out.push(item(k, p)?);
  }
  Some(Field::List(out))
}

pub fn parse(s: &str) -> Option<Vec<Field>> {
  let parts: Vec<&str> = s.split(' ').collect();
  if parts.len() != 5 {
    return None;
  }
  let mut out = vec![];
  for (k, p) in KINDS.iter().zip(parts) {
    out.push(field(*k, p)?);
  }
  Some(out)
}

// ---- expected tree

fn val_expr(v: Val) -> CronExpr {
  match v {
    Val::N(n) => CronExpr::ValueExpr(n),
    Val::Last => CronExpr::LastValueExpr,
  }
}
fn item_expr(i: &Item) -> CronExpr {
  match i {
    Item::Val(v) => val_expr(*v),
    Item::Range(a, b, s) => CronExpr::RangeExpr {
      from: Box::new(val_expr(*a)),
      to: Box::new(val_expr(*b)),
      per_option: Box::new(s.map(val_expr).unwrap_or(CronExpr::NoOp)),
    },
  }
}
pub fn field_expr(f: &Field) -> CronExpr {
  match f {
    Field::Any => CronExpr::AnyValueExpr,
    Field::Step(v) => CronExpr::PerExpr { digit: Box::new(CronExpr::AnyValueExpr), option: Box::new(val_expr(*v)) },
    Field::List(items) if items.len() == 1 => item_expr(&items[0]),
    Field::List(items) => CronExpr::ListExpr(items.iter().map(item_expr).collect()),
  }
}
pub fn expr(f: &[Field]) -> CronExpr {
  CronExpr::CronExpr {
    mins: Box::new(field_expr(&f[0])),
    hours: Box::new(field_expr(&f[1])),
    days: Box::new(field_expr(&f[2])),
    months: Box::new(field_expr(&f[3])),
    day_of_weeks: Box::new(field_expr(&f[4])),
  }
}

// ---- membership

fn item_matches(i: &Item, now: i64, max: i64) -> bool {
  match *i {
    Item::Val(Val::N(n)) => now == n as i64,
    Item::Val(Val::Last) => now == max,
    Item::Range(Val::N(a), Val::N(b), None) => now >= a as i64 && now <= b as i64,
    Item::Range(Val::N(a), Val::N(b), Some(Val::N(s))) => {
      now >= a as i64 && now <= b as i64 && (now - a as i64) % (s as i64) == 0
    }
    _ => false,
  }
}
pub fn matches(f: &Field, now: i64, max: i64) -> bool {
  match f {
    Field::Any => true,
    Field::Step(Val::N(s)) => now % (*s as i64) == 0,
    Field::Step(Val::Last) => false,
    Field::List(items) => items.iter().any(|i| item_matches(i, now, max)),
  }
}

// ---- civil time

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Civil {
  pub year: i64,
  pub month: i64,
  pub day: i64,
  pub hour: i64,
  pub min: i64,
  pub sec: i64,
  pub dow: i64,
  pub last_day: i64,
}

pub fn leap(y: i64) -> bool {
  (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn month_len(y: i64, m: i64) -> i64 {
  match m {
    2 => 28 + leap(y) as i64,
    4 | 6 | 9 | 11 => 30,
    _ => 31,
  }
}
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
  let y = if m <= 2 { y - 1 } else { y };
  let era = y.div_euclid(400);
  let yoe = y - era * 400;
  let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
  let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  era * 146097 + doe - 719468
}
pub fn civil(local_secs: i64) -> Civil {
  let days = local_secs.div_euclid(86400);
  let tod = local_secs.rem_euclid(86400);
  let z = days + 719468;
  let era = z.div_euclid(146097);
  let doe = z - era * 146097;
  let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  let mp = (5 * doy + 2) / 153;
  let d = doy - (153 * mp + 2) / 5 + 1;
  let m = if mp < 10 { mp + 3 } else { mp - 9 };
  let y = yoe + era * 400 + (m <= 2) as i64;
  Civil {
    year: y,
    month: m,
    day: d,
    hour: tod / 3600,
    min: tod / 60 % 60,
    sec: tod % 60,
    dow: (days + 4).rem_euclid(7) + 1, // 1970-01-01 was a Thursday; Sunday is 1
    last_day: month_len(y, m),
  }
}
pub fn satisfied(f: &[Field], c: &Civil) -> bool {
  matches(&f[0], c.min, 59)
    && matches(&f[1], c.hour, 23)
    && matches(&f[2], c.day, c.last_day)
    && matches(&f[3], c.month, 12)
    && matches(&f[4], c.dow, 7)
}
