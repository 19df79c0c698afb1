mod gen;
mod oracle;
mod tz;
use chrono::{DateTime, Datelike, FixedOffset, Offset, TimeZone, Timelike, Utc};
use intervals_rs::LimitValue;
use oni_comb_crond_rs::*;
use oracle::*;
use std::cell::RefCell;
use std::rc::Rc;
use tz::Zone;
use vcommon::{guard, set_fuel, Ctx, Property, Rng, Suite};

fn show(s: &str) -> String {
  vcommon::trunc(&format!("{:?}", s), 300)
}

// ------------------------------------------------------------------ C01 / C05: the language

fn check_text(ctx: &mut Ctx, s: &str) {
  let want = parse(s);
  let got = match guard(|| CronParser::parse(s)) {
    Ok(r) => r,
    Err(st) => {
      ctx.violation(format!("parse-panic:{}", s), format!("parsing {} stopped: {}", show(s), st.text()));
      return;
    }
  };
  ctx.judged(s, !s.is_empty());
  match (&got, &want) {
    (Ok(e), Some(f)) => {
      ctx.hit("accepted");
      if *e != expr(f) {
        ctx.violation(format!("tree:{}", s), format!("{} parsed to {:?}, its fields mean {:?}", show(s), e, expr(f)));
      }
    }
    (Err(_), None) => ctx.hit("rejected"),
    (Ok(e), None) => ctx.violation(format!("accepted:{}", s), format!("{} is not a cron expression but was accepted as {:?}", show(s), e)),
    (Err(m), Some(_)) => {
      ctx.violation(format!("rejected:{}", s), format!("{} is a cron expression but was rejected: {}", show(s), vcommon::trunc(m, 200)))
    }
  }
  match guard(|| CronSchedule::<Utc>::new(s).is_ok()) {
    Ok(b) if b == got.is_ok() => {}
    x => ctx.violation(format!("schedule:{}", s), format!("{}: schedule construction gave {:?}, parsing gave {:?}", show(s), x, got.is_ok())),
  }
  if ctx.want_sample() {
    let (a, b) = (show(s), format!("{:?}", want.is_some()));
    ctx.sample(|| format!("{} accepted={}", a, b));
  }
}

fn language(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let mut s = gen::cron_text(r, true);
  if r.chance(1, 2) {
    s = gen::mutate(r, &s);
  }
  for (t, n) in [("/", "steps"), (",", "lists"), ("-", "ranges"), ("*", "any"), ("L", "last")] {
    if s.contains(t) {
      ctx.hit(n);
    }
  }
  check_text(ctx, &s);
}

/// Every one- to three-character text over the alphabet that matters, in every field.
fn small_fields(ctx: &mut Ctx, _: &mut Rng, i: u64) {
  const A: &[u8] = b"0123456789*/-,LAx";
  let a = A[(i as usize) / 5 % A.len()] as char;
  let k = (i as usize) % 5;
  let run = |ctx: &mut Ctx, t: &str| {
    let mut f = ["*", "*", "*", "*", "*"];
    f[k] = t;
    let s = f.join(" ");
    check_text(ctx, &s);
    ctx.hit("small_fields");
  };
  run(ctx, &a.to_string());
  for b in A {
    run(ctx, &format!("{}{}", a, *b as char));
    for c in A {
      run(ctx, &format!("{}{}{}", a, *b as char, *c as char));
    }
  }
}

const TOKENS: &[&str] = &[
  "*", "/", "-", ",", " ", "L", "0", "00", "000", "1", "01", "001", "7", "07", "12", "23", "24", "31", "32", "59", "60", "61", "99", "100", "255", "256",
  "300", "999", "99999", "4294967296", "99999999999999999999999", "SUN", "SAT", "MON-FRI", "SU", "S", "*/2", "1-5", "1-5/2", "\t", "+1", ".",
];
/// Every field text of up to three tokens, in every position.
fn tokens(ctx: &mut Ctx, _: &mut Rng, i: u64) {
  let k = (i as usize) % 5;
  let a = TOKENS[(i as usize) / 5 % TOKENS.len()];
  let run = |ctx: &mut Ctx, t: &str| {
    let mut f = ["*", "*", "*", "*", "*"];
    f[k] = t;
    let s = f.join(" ");
    check_text(ctx, &s);
    ctx.hit("token_fields");
  };
  run(ctx, a);
  for b in TOKENS {
    run(ctx, &format!("{}{}", a, b));
    for c in TOKENS {
      run(ctx, &format!("{}{}{}", a, b, c));
    }
  }
}
/// Every pair of bounds and steps that could matter, in every position.
fn numbers(ctx: &mut Ctx, _: &mut Rng, i: u64) {
  let k = (i as usize) % 5;
  let a = i / 5;
  let run = |ctx: &mut Ctx, t: &str| {
    let mut f = ["*", "*", "*", "*", "*"];
    f[k] = t;
    let s = f.join(" ");
    check_text(ctx, &s);
    ctx.hit("number_fields");
  };
  run(ctx, &a.to_string());
  run(ctx, &format!("0{}", a));
  run(ctx, &format!("*/{}", a));
  run(ctx, &format!("{},{}", a, a));
  if a < 70 {
    for b in 0..70 {
      run(ctx, &format!("{}-{}", a, b));
      run(ctx, &format!("{},{}", a, b));
      run(ctx, &format!("{}-{}/{}", a.min(b), a.max(b), (a + b) % 63));
      run(ctx, &format!("1-2/{},{}", a, b));
    }
  }
}
/// Long digit runs, long lists and long junk around a valid expression.
fn long_text(r: &mut Rng) -> String {
  let most = *r.pick(&[10, 100, 300, 1100, 5000]);
  let n = 1 + r.below(most);
  let mut f: Vec<String> = KINDS.iter().map(|k| if r.chance(1, 2) { "*".into() } else { gen::field_text(r, *k, true) }).collect();
  let at = r.below(5);
  let k = KINDS[at];
  f[at] = match r.below(9) {
    0 => (0..n).map(|_| gen::value_text(r, k)).collect::<Vec<_>>().join(","),
    1 => (0..n).map(|_| gen::field_text(r, k, true)).filter(|t| !t.contains('*')).collect::<Vec<_>>().join(","),
    2 => (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
    3 => format!("{}{}", "0".repeat(n), gen::value_text(r, k)),
    4 => format!("{}{}", (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>(), r.pick(&["L", "SUN", "*", "/2", "-3", ",1"])),
    5 => format!("{}{}", gen::value_text(r, k), r.pick(&["L", "SUN", "*", "/2", "-3", ",1", "0", "9"]).repeat(n)),
    6 => format!("*/{}", (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>()),
    7 => format!("{}-{}", gen::value_text(r, k), (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>()),
    _ => {
      let mut t: Vec<String> = (0..n).map(|_| gen::value_text(r, k)).collect();
      let i = r.below(n);
      t[i] = r.pick(&["", "61", "x", "*", "1-", "L"]).to_string();
      t.join(",")
    }
  };
  match r.below(8) {
    0 => format!("{}{}", f.join(" "), " ".repeat(n)),
    1 => format!("{}{}", " ".repeat(n), f.join(" ")),
    2 => format!("{}{}", f.join(" "), " *".repeat(n)),
    _ => f.join(" "),
  }
}
fn long(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let s = long_text(r);
  if s.len() > 1000 {
    ctx.hit("long_texts");
  }
  check_text(ctx, &s);
}

fn totality(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let s: String = match r.below(8) {
    6 => {
      let t = long_text(r);
      if t.len() > 1000 {
        ctx.hit("long_texts");
      }
      t
    }
    7 => {
      let mut f: Vec<String> = KINDS.iter().map(|k| gen::field_text(r, *k, true)).collect();
      for _ in 0..1 + r.below(2) {
        let k = r.below(5);
        f[k] = (0..1 + r.below(4)).map(|_| *r.pick(TOKENS)).collect::<String>();
      }
      f.join(" ")
    }
    0 => (0..r.below(40)).map(|_| char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}')).collect(),
    1 => (0..r.below(60)).map(|_| r.below(128) as u8 as char).collect(),
    2 => {
      let n = 1 + r.below(400);
      let l = (0..n).map(|_| r.range(0, 59).to_string()).collect::<Vec<_>>().join(",");
      format!("{} * * * *", l)
    }
    3 => {
      let t = r.pick(&["*", ",", "-", "/", "1", " ", "* ", "SUN,", "1-2/3,", "日"]);
      t.repeat(r.below(300))
    }
    4 => {
      let s = gen::cron_text(r, true);
      let k = r.below(s.len() + 1);
      s[..k].to_string()
    }
    _ => {
      let mut s = gen::cron_text(r, true);
      for _ in 0..3 {
        s = gen::mutate(r, &s);
      }
      s
    }
  };
  match guard(|| CronParser::parse(&s)) {
    Err(st) => ctx.violation(format!("parse-panic:{}", s), format!("parsing {} stopped: {}", show(&s), st.text())),
    Ok(Err(m)) => {
      ctx.hit("rejected");
      ctx.judged(&s, true);
      if m.is_empty() {
        ctx.violation(format!("empty-error:{}", s), format!("{} rejected without a message", show(&s)));
      }
    }
    Ok(Ok(e)) => {
      ctx.hit("accepted");
      ctx.judged(&s, true);
      let d = Utc.timestamp_opt(r.range(-2_000_000_000, 4_000_000_000), 0).unwrap();
      if let Err(st) = guard(|| CronEvaluator::new(&d).eval(&e)) {
        ctx.violation(format!("eval-panic:{}", s), format!("evaluating {} at {} stopped: {}", show(&s), d, st.text()));
      }
      ctx.hit("evaluated");
    }
  }
  let t = show(&s);
  ctx.sample(|| t);
}

// ------------------------------------------------------------------ C02: evaluation

fn offset(r: &mut Rng) -> i32 {
  match r.below(6) {
    0 => 0,
    1 => r.range(-14, 14) as i32 * 3600,
    2 => r.range(-56, 56) as i32 * 900,
    3 => *r.pick(&[20700, 34200, -12600, 45900, 32400, -18000]),
    4 => r.range(-50399, 50399) as i32,
    _ => 32400,
  }
}
fn zone(r: &mut Rng, near: i64) -> Zone {
  let base = offset(r);
  let mut changes = vec![];
  if r.chance(1, 2) {
    let mut t = near + r.range(-200_000, 200_000);
    let mut o = base;
    for _ in 0..1 + r.below(3) {
      o = if o == base { base + *r.pick(&[3600, 1800, -3600, 7200, 900]) } else { base };
      changes.push((t, o));
      t += r.range(600, 500_000);
    }
  }
  Zone { base, changes: Rc::new(changes) }
}
/// An instant (seconds), preferring boundaries of minutes, days, months and years.
fn instant(r: &mut Rng) -> i64 {
  let y = match r.below(5) {
    0 => *r.pick(&[1900, 1999, 2000, 2004, 2100, 2024, 1970, 1972]),
    1 => r.range(1601, 2600),
    _ => r.range(1900, 2100),
  };
  let m = r.range(1, 12);
  let m = if r.chance(1, 5) { *r.pick(&[1, 2, 12]) } else { m };
  let len = month_len(y, m);
  let d = match r.below(4) {
    0 => len,
    1 => 1,
    2 => (len - r.range(0, 3)).max(1),
    _ => r.range(1, len),
  };
  let tod = match r.below(5) {
    0 => 0,
    1 => 86399,
    2 => r.range(0, 23) * 3600 + *r.pick(&[0, 59, 60, 3540, 3599]),
    _ => r.range(0, 86399),
  };
  days_from_civil(y, m, d) * 86400 + tod
}

fn check_eval<Tz: TimeZone>(ctx: &mut Ctx, text: &str, f: &[Field], e: &CronExpr, d: &DateTime<Tz>, off: i32)
where
  Tz::Offset: std::fmt::Debug,
{
  let c = civil(d.timestamp() + off as i64);
  let want = satisfied(f, &c);
  let spec = CronSpecification::new(e.clone());
  for (route, got) in [
    ("evaluator", guard(|| CronEvaluator::new(d).eval(e))),
    ("specification", guard(|| spec.is_satisfied_by(d))),
  ] {
    match got {
      Err(st) => ctx.violation(format!("eval-panic:{}@{}+{}", text, d.timestamp(), off), format!("{} of {} at {:?} stopped: {}", route, show(text), c, st.text())),
      Ok(b) if b != want => ctx.violation(
        format!("eval:{}@{}+{}", text, d.timestamp(), off),
        format!("{} of {} at {:?} gave {}, the fields say {}", route, show(text), c, b, want),
      ),
      _ => {}
    }
  }
  ctx.hit(if want { "satisfied" } else { "not_satisfied" });
}

/// Text of a field made to contain (mostly) the given current value, so that the conjunction is often true.
fn near_field(r: &mut Rng, k: Kind, now: i64, max: i64) -> String {
  for _ in 0..12 {
    let t = gen::field_text(r, k, false);
    if r.chance(1, 10) || matches(&field(k, &t).unwrap(), now, max) {
      return t;
    }
  }
  if k == Kind::Dow { NAMES[now as usize - 1].to_string() } else { now.to_string() }
}

fn evaluation(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let t = instant(r);
  let z = zone(r, t);
  let off = z.offset_at(t);
  let c = civil(t + off as i64);
  let text = [
    near_field(r, Kind::Min, c.min, 59),
    near_field(r, Kind::Hour, c.hour, 23),
    near_field(r, Kind::Day, c.day, c.last_day),
    near_field(r, Kind::Month, c.month, 12),
    near_field(r, Kind::Dow, c.dow, 7),
  ]
  .join(" ");
  let f = parse(&text).unwrap();
  let e = expr(&f);
  set_fuel(100_000);
  ctx.judged(&format!("{}@{}+{}", text, t, off), true);
  check_eval(ctx, &text, &f, &e, &z.timestamp_opt(t, 0).unwrap(), off);
  if off == 0 {
    check_eval(ctx, &text, &f, &e, &Utc.timestamp_opt(t, r.below(1_000_000_000) as u32).unwrap(), 0);
    ctx.hit("utc");
  }
  let fo = FixedOffset::east_opt(off).unwrap();
  check_eval(ctx, &text, &f, &e, &fo.timestamp_opt(t, 0).unwrap(), off);
  if !z.changes.is_empty() {
    ctx.hit("zone_with_changes");
  }
  if c.day == c.last_day {
    ctx.hit("month_end");
  }
  if c.month == 2 && c.day == 29 {
    ctx.hit("leap_day");
  }
  for (i, n) in ["only_min_decides", "only_hour_decides", "only_day_decides", "only_month_decides", "only_dow_decides"].iter().enumerate() {
    let v = [
      matches(&f[0], c.min, 59),
      matches(&f[1], c.hour, 23),
      matches(&f[2], c.day, c.last_day),
      matches(&f[3], c.month, 12),
      matches(&f[4], c.dow, 7),
    ];
    if !v[i] && v.iter().filter(|x| !**x).count() == 1 {
      ctx.hit(n);
    }
  }
  ctx.sample(|| format!("{} at {:?}", text, c));
}

/// Long lists in which one place, or none, holds the instant.
fn long_lists(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let t = instant(r);
  let off = offset(r);
  let c = civil(t + off as i64);
  let now = [(c.min, 59), (c.hour, 23), (c.day, c.last_day), (c.month, 12), (c.dow, 7)];
  let at = r.below(5);
  let n = match r.chance(1, 2) {
    true => 6 + r.below(700),
    false => *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]),
  };
  let holds = |k: Kind, s: &str| matches(&field(k, s).unwrap(), now[at].0, now[at].1);
  let mut one = |r: &mut Rng, want: bool| loop {
    let s = gen::field_text(r, KINDS[at], false);
    if !s.contains('*') && !s.contains(',') && holds(KINDS[at], &s) == want {
      break s;
    }
    if want && r.chance(1, 20) {
      break if at == 4 { NAMES[c.dow as usize - 1].to_string() } else { now[at].0.to_string() };
    }
  };
  let pool: Vec<String> = (0..12).map(|_| one(r, false)).collect();
  let mut items: Vec<String> = (0..n).map(|_| r.pick(&pool).clone()).collect();
  if r.chance(2, 3) {
    let k = if r.chance(1, 2) { n - 1 } else { r.below(n) };
    items[k] = one(r, true);
    ctx.hit("one_place_of_a_long_list");
  } else {
    ctx.hit("no_place_of_a_long_list");
  }
  let mut text = vec!["*".to_string(); 5];
  text[at] = items.join(",");
  let text = text.join(" ");
  let f = parse(&text).unwrap();
  let e = expr(&f);
  set_fuel(1_000_000);
  ctx.judged(&format!("{}@{}+{}", text, t, off), true);
  check_eval(ctx, &text, &f, &e, &FixedOffset::east_opt(off).unwrap().timestamp_opt(t, 0).unwrap(), off);
}

/// Every day of one year, against the calendar fields; every minute of one day against the time fields.
fn calendar(ctx: &mut Ctx, r: &mut Rng, i: u64) {
  let y = 1890 + i as i64 % 220;
  let mut exprs: Vec<(String, Vec<Field>, CronExpr)> = vec![];
  let mut add = |t: String| {
    let f = parse(&t).unwrap();
    let e = expr(&f);
    exprs.push((t, f, e));
  };
  for d in 1..=7 {
    add(format!("* * * * {}", d));
  }
  add("* * * * L".into());
  add("* * * * 2-6/2".into());
  add("* * */5 * *".into());
  add(format!("* * {} * *", r.range(28, 31)));
  add(format!("* * * {} *", r.range(1, 12)));
  add("* * 1,15-28/3 */2 MON-FRI".into());
  // hand-built: the last day of the month cannot be written, only built
  let last = CronExpr::CronExpr {
    mins: Box::new(CronExpr::AnyValueExpr),
    hours: Box::new(CronExpr::AnyValueExpr),
    days: Box::new(CronExpr::LastValueExpr),
    months: Box::new(CronExpr::AnyValueExpr),
    day_of_weeks: Box::new(CronExpr::AnyValueExpr),
  };
  let lastf = vec![Field::Any, Field::Any, Field::List(vec![Item::Val(Val::Last)]), Field::Any, Field::Any];
  let off = offset(r);
  let fo = FixedOffset::east_opt(off).unwrap();
  let first = days_from_civil(y, 1, 1);
  for d in 0..if leap(y) { 366 } else { 365 } {
    let t = (first + d) * 86400 + r.range(0, 86399) - off as i64;
    let dt = fo.timestamp_opt(t, 0).unwrap();
    for (s, f, e) in &exprs {
      check_eval(ctx, s, f, e, &dt, off);
    }
    check_eval(ctx, "* * L * *", &lastf, &last, &dt, off);
    ctx.hit("days_visited");
  }
  ctx.judged(&format!("year {} off {}", y, off), true);
  // every minute of a day
  let m = r.range(0, 59);
  let text = format!("{},{} {} * * *", m, gen::field_text(r, Kind::Min, false).replace('*', "0-59"), gen::field_text(r, Kind::Hour, false));
  if let Some(f) = parse(&text) {
    let e = expr(&f);
    for k in 0..1440 {
      let t = first * 86400 + k * 60 + 17 - off as i64;
      check_eval(ctx, &text, &f, &e, &fo.timestamp_opt(t, 0).unwrap(), off);
      ctx.hit("minutes_visited");
    }
  }
}

fn any_tree(r: &mut Rng, depth: usize) -> CronExpr {
  if depth == 0 {
    return match r.below(4) {
      0 => CronExpr::NoOp,
      1 => CronExpr::LastValueExpr,
      2 => CronExpr::AnyValueExpr,
      _ => CronExpr::ValueExpr(if r.chance(1, 3) { *r.pick(&[0u8, 1, 255, 59, 60]) } else { r.below(256) as u8 }),
    };
  }
  let b = |r: &mut Rng| {
    let d = if r.chance(2, 3) { 0 } else { depth - 1 };
    Box::new(any_tree(r, d))
  };
  match r.below(6) {
    0 => any_tree(r, 0),
    1 | 2 => CronExpr::PerExpr { digit: if r.chance(2, 3) { Box::new(CronExpr::AnyValueExpr) } else { b(r) }, option: b(r) },
    3 => CronExpr::RangeExpr { from: b(r), to: b(r), per_option: b(r) },
    4 if r.chance(1, 200) => {
      let n = r.below(400);
      CronExpr::ListExpr((0..n).map(|_| any_tree(r, 0)).collect())
    }
    4 if r.chance(1, 200) => {
      let n = r.below(200);
      (0..n).fold(any_tree(r, 0), |e, _| CronExpr::ListExpr(vec![e]))
    }
    4 => CronExpr::ListExpr((0..r.below(4)).map(|_| any_tree(r, depth - 1)).collect()),
    _ => CronExpr::CronExpr { mins: b(r), hours: b(r), days: b(r), months: b(r), day_of_weeks: b(r) },
  }
}
/// What a hand-built tree means for one field value.
fn tree_matches(e: &CronExpr, now: i64, max: i64) -> bool {
  match e {
    CronExpr::AnyValueExpr => true,
    CronExpr::LastValueExpr => now == max,
    CronExpr::ValueExpr(n) => now == *n as i64,
    CronExpr::ListExpr(l) => l.iter().any(|x| tree_matches(x, now, max)),
    CronExpr::RangeExpr { from, to, per_option } => match (&**from, &**to, &**per_option) {
      (CronExpr::ValueExpr(a), CronExpr::ValueExpr(b), CronExpr::NoOp) => *a as i64 <= now && now <= *b as i64,
      (CronExpr::ValueExpr(a), CronExpr::ValueExpr(b), CronExpr::ValueExpr(s)) => {
        *s != 0 && *a as i64 <= now && now <= *b as i64 && (now - *a as i64) % *s as i64 == 0
      }
      _ => false,
    },
    CronExpr::PerExpr { digit, option } => match (&**digit, &**option) {
      (CronExpr::AnyValueExpr, CronExpr::ValueExpr(s)) => *s != 0 && now % *s as i64 == 0,
      _ => false,
    },
    _ => false,
  }
}
fn trees(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let f: Vec<CronExpr> = (0..5).map(|_| if r.chance(1, 2) { CronExpr::AnyValueExpr } else { any_tree(r, 3) }).collect();
  let t = instant(r);
  let off = offset(r);
  let d = FixedOffset::east_opt(off).unwrap().timestamp_opt(t, 0).unwrap();
  let c = civil(t + off as i64);
  let want = tree_matches(&f[0], c.min, 59)
    && tree_matches(&f[1], c.hour, 23)
    && tree_matches(&f[2], c.day, c.last_day)
    && tree_matches(&f[3], c.month, 12)
    && tree_matches(&f[4], c.dow, 7);
  let b = |i: usize| Box::new(f[i].clone());
  let e = CronExpr::CronExpr { mins: b(0), hours: b(1), days: b(2), months: b(3), day_of_weeks: b(4) };
  let key = format!("{:?}@{}+{}", e, t, off);
  match guard(|| CronEvaluator::new(&d).eval(&e)) {
    Err(st) => ctx.violation(format!("tree-panic:{}", key), format!("evaluating {} stopped: {}", vcommon::trunc(&key, 600), st.text())),
    Ok(g) if g != want => ctx.violation(format!("tree-eval:{}", key), format!("{} gave {}, expected {}", vcommon::trunc(&key, 600), g, want)),
    _ => {}
  }
  ctx.hit(if want { "tree_satisfied" } else { "tree_not_satisfied" });
  ctx.judged(&key, true);
  // a tree that is not a whole expression never matches
  let part = any_tree(r, 2);
  if !matches!(part, CronExpr::CronExpr { .. }) {
    match guard(|| CronEvaluator::new(&d).eval(&part)) {
      Ok(false) => {}
      x => ctx.violation(format!("part:{:?}", part), format!("a bare field expression {:?} evaluated to {:?}", part, x)),
    }
  }
}

// ------------------------------------------------------------------ C03 / C04: enumeration

/// Local fields of the yielded value itself must agree with the zone.
fn same_instant(d: &DateTime<Zone>, millis: i64, z: &Zone) -> Result<(), String> {
  if d.timestamp_millis() != millis {
    return Err(format!("instant {} expected {}", d.timestamp_millis(), millis));
  }
  let off = z.offset_at(millis.div_euclid(1000));
  if d.offset().fix().local_minus_utc() != off {
    return Err(format!("offset {} expected {}", d.offset().fix().local_minus_utc(), off));
  }
  let c = civil(millis.div_euclid(1000) + off as i64);
  if (d.hour() as i64, d.minute() as i64, d.day() as i64) != (c.hour, c.min, c.day) {
    return Err("local fields differ".into());
  }
  Ok(())
}

fn expected(f: &[Field], z: &Zone, start_ms: i64, end_ms: Option<i64>, max_steps: i64, want: usize) -> (Vec<i64>, i64) {
  let mut out = vec![];
  let mut k = 0;
  while k < max_steps && out.len() < want {
    let ms = start_ms + k * 60_000;
    if end_ms.map_or(false, |e| ms > e) {
      break;
    }
    let s = ms.div_euclid(1000);
    if satisfied(f, &civil(s + z.offset_at(s) as i64)) {
      out.push(ms);
    }
    k += 1;
  }
  (out, k)
}

fn compare(ctx: &mut Ctx, what: &str, text: &str, z: &Zone, start: i64, got: &[DateTime<Zone>], want: &[i64]) {
  let id = format!("{}@{}{:?}", text, start, z);
  for (i, w) in want.iter().enumerate() {
    match got.get(i) {
      None => {
        ctx.violation(format!("missing:{}:{}", what, id), format!("{} {} from {}: ended after {} of {} expected instants", what, show(text), start, got.len(), want.len()));
        return;
      }
      Some(d) => {
        if let Err(m) = same_instant(d, *w, z) {
          ctx.violation(format!("instant:{}:{}", what, id), format!("{} {} from {}: item {} {}", what, show(text), start, i, m));
          return;
        }
      }
    }
  }
  if got.len() > want.len() {
    ctx.violation(format!("extra:{}:{}", what, id), format!("{} {} from {}: yields {} after the last expected instant", what, show(text), start, got[want.len()].timestamp_millis()));
  }
}

/// An expression with matches near the start (so enumerations stay short), of varied density.
fn schedule_text(r: &mut Rng, c: &Civil) -> String {
  let time = match r.below(5) {
    0 => format!("{} *", gen::field_text(r, Kind::Min, false)),
    1 => format!("{} {}", gen::field_text(r, Kind::Min, false), gen::field_text(r, Kind::Hour, false)),
    2 => format!("{} {}", gen::value_text(r, Kind::Min), gen::value_text(r, Kind::Hour)),
    3 => format!("* {}", gen::field_text(r, Kind::Hour, false)),
    _ => format!("{} {}", c.min, c.hour),
  };
  let date = match r.below(6) {
    0 | 1 => "* * *".to_string(),
    2 => format!("* * {}", gen::field_text(r, Kind::Dow, false)),
    3 => format!("{} * *", near_field(r, Kind::Day, c.day, c.last_day)),
    4 => format!("* {} *", near_field(r, Kind::Month, c.month, 12)),
    _ => format!("{} {} {}", near_field(r, Kind::Day, c.day, c.last_day), near_field(r, Kind::Month, c.month, 12), near_field(r, Kind::Dow, c.dow, 7)),
  };
  format!("{} {}", time, date)
}

struct Plan {
  z: Zone,
  text: String,
  f: Vec<Field>,
  start: i64,
}
fn plan(r: &mut Rng) -> Plan {
  let t = instant(r);
  let z = zone(r, t);
  let ms = if r.chance(1, 3) { r.below(1000) as i64 } else { 0 };
  let t = if r.chance(1, 2) { t - t.rem_euclid(60) } else { t };
  let c = civil(t + z.offset_at(t) as i64);
  let text = schedule_text(r, &c);
  let f = parse(&text).unwrap();
  Plan { z, text, f, start: t * 1000 + ms }
}

fn upcoming(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let p = plan(r);
  let steps = if ctx.tier_thorough { 200_000 } else { 60_000 };
  let (want, k) = expected(&p.f, &p.z, p.start, None, steps, 1 + r.below(12));
  if want.is_empty() {
    ctx.discarded += 1;
    return;
  }
  // an enumeration may look at each minute a handful of times, not more
  let fuel = 1000 + 40 * k as u64;
  let start = p.z.timestamp_millis_opt(p.start).unwrap();
  let text = p.text.clone();
  ctx.judged(&format!("{}@{}{:?}", p.text, p.start, p.z), true);
  set_fuel(fuel);
  let got = guard(|| CronSchedule::<Zone>::new(&text).unwrap().upcoming(start.clone()).take(want.len()).collect::<Vec<_>>());
  match got {
    Err(st) => ctx.violation(format!("stop:{}@{}", p.text, p.start), format!("upcoming {} from {}: {} while {} instants were due", show(&p.text), p.start, st.text(), want.len())),
    Ok(g) => compare(ctx, "upcoming", &p.text, &p.z, p.start, &g, &want),
  }
  // a clone taken midway continues identically, and another iterator of the same interval starts over
  if r.chance(1, 4) {
    set_fuel(fuel * 8);
    let cut = r.below(want.len() + 1);
    let n = want.len();
    let got = guard(|| {
      let iv = CronSchedule::<Zone>::new(&text).unwrap().cron_interval(start.clone());
      let mut a = iv.iter(start.timezone());
      let mut x: Vec<_> = a.by_ref().take(cut).collect();
      let b: Vec<_> = a.clone().take(n - cut).collect();
      let c: Vec<_> = a.take(n - cut).collect();
      let again: Vec<_> = iv.iter(start.timezone()).take(n).collect();
      let mut y = x.clone();
      x.extend(b);
      y.extend(c);
      // one schedule asked twice, from another start first; and the k-th instant asked for directly
      let s = CronSchedule::<Zone>::new(&text).unwrap();
      let mut twice: Vec<_> = s.upcoming(again[n - 1].clone()).take(1).collect();
      if twice.pop().as_ref() == again.last() {
        let mut it = s.upcoming(start.clone());
        let (low, _) = it.size_hint();
        twice.extend((low <= n).then(|| it.next()).flatten());
        let at = it.cron_interval().iter(it.timezone().clone()).nth(cut.min(n - 1));
        twice.extend(if at.as_ref() == again.get(cut.min(n - 1)) { it.skip(0).take(n - 1).collect() } else { vec![] });
      }
      (x, y, again, twice)
    });
    match got {
      Err(st) => ctx.violation(format!("stop:clone:{}@{}", p.text, p.start), format!("cloned upcoming {}: {}", show(&p.text), st.text())),
      Ok((x, y, z, twice)) => {
        compare(ctx, "schedule used twice", &p.text, &p.z, p.start, &twice, &want);
        compare(ctx, "clone", &p.text, &p.z, p.start, &x, &want);
        compare(ctx, "original after clone", &p.text, &p.z, p.start, &y, &want);
        compare(ctx, "second iterator", &p.text, &p.z, p.start, &z, &want);
      }
    }
    ctx.hit("clones");
  }
  ctx.add("instants", want.len() as u64);
  ctx.add("minutes_covered", k as u64);
  if want[0] == p.start {
    ctx.hit("start_included");
  }
  if p.start % 60_000 != 0 {
    ctx.hit("start_off_minute");
  }
  if p.z.changes.iter().any(|c| c.0 * 1000 > p.start && c.0 * 1000 < *want.last().unwrap()) {
    ctx.hit("crosses_zone_change");
  }
  if want.windows(2).any(|w| w[1] - w[0] > 86_400_000) {
    ctx.hit("gaps_over_a_day");
  }
  ctx.sample(|| format!("{} from {} ms: {:?}", p.text, p.start, want));
}

/// Sparse expressions across months and years (leap days, fixed weekday-and-day).
fn sparse(ctx: &mut Ctx, r: &mut Rng, i: u64) {
  let y = r.range(1896, 2104);
  let off = offset(r);
  let z = Zone::fixed(off);
  let mut start = (days_from_civil(y, r.range(1, 12), 1) * 86400 - off as i64) * 1000;
  if i % 5 == 0 && r.chance(1, 3) {
    // across a century without a leap day
    start = (days_from_civil(*r.pick(&[1696, 1796, 1896, 2096, 2196]), r.range(2, 5), 1) * 86400 - off as i64) * 1000;
    ctx.hit("century_without_leap_day");
  }
  let text = match i % 5 {
    0 => "0 0 29 2 *".to_string(),
    1 => format!("59 23 31 {} *", r.range(1, 12)),
    2 => format!("{} {} 13 * FRI", r.range(0, 59), r.range(0, 23)),
    3 => "0 0 1 1 *".to_string(),
    _ => format!("{} 0 30,31 */2 SUN,L", r.range(0, 59)),
  };
  let f = parse(&text).unwrap();
  let (want, k) = expected(&f, &z, start, None, 60 * 24 * 366 * 9, 3);
  if want.is_empty() {
    ctx.discarded += 1;
    return;
  }
  ctx.judged(&format!("{}@{}", text, start), true);
  set_fuel(1000 + 40 * k as u64);
  let d = z.timestamp_millis_opt(start).unwrap();
  match guard(|| CronSchedule::<Zone>::new(&text).unwrap().upcoming(d).take(want.len()).collect::<Vec<_>>()) {
    Err(st) => ctx.violation(format!("stop:{}@{}", text, start), format!("upcoming {} from {}: {}", text, start, st.text())),
    Ok(g) => compare(ctx, "upcoming", &text, &z, start, &g, &want),
  }
  ctx.add("sparse_minutes", k as u64);
  ctx.hit("sparse");
}

fn bounded(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let p = plan(r);
  let span = match r.below(6) {
    0 => 0,
    1 => r.range(0, 59_999),
    2 => r.range(0, 3_600_000),
    3 => r.range(0, 20) * 60_000,
    4 => r.range(0, 86_400_000 * 2),
    _ => r.range(0, 5_000_000),
  };
  let end = p.start + span;
  let (want, k) = expected(&p.f, &p.z, p.start, Some(end), i64::MAX, usize::MAX);
  let cap = want.len() + 3;
  let (s, e) = (p.z.timestamp_millis_opt(p.start).unwrap(), p.z.timestamp_millis_opt(end).unwrap());
  let spec = CronSpecification::new(expr(&p.f));
  ctx.judged(&format!("{}@{}..{}{:?}", p.text, p.start, end, p.z), true);
  set_fuel(1000 + 40 * k as u64);
  let got = guard(|| {
    let iv = CronInterval::new(LimitValue::Limit(s.clone()), LimitValue::Limit(e.clone()), spec.clone());
    let mut it = iv.iter(p.z.clone());
    let mut out = vec![];
    while let Some(d) = it.next() {
      out.push(d);
      if out.len() >= cap {
        break;
      }
    }
    let mut after = vec![];
    for _ in 0..4 {
      after.push(it.next().map(|d| d.timestamp_millis()));
    }
    (out, after)
  });
  match got {
    Err(st) => ctx.violation(format!("stop:{}@{}..{}", p.text, p.start, end), format!("{} over [{}, {}]: {}", show(&p.text), p.start, end, st.text())),
    Ok((out, after)) => {
      compare(ctx, "interval", &p.text, &p.z, p.start, &out, &want);
      if out.len() == want.len() && after.iter().any(|x| x.is_some()) {
        ctx.violation(format!("after-end:{}@{}..{}", p.text, p.start, end), format!("{} over [{}, {}] yields again after its end: {:?}", show(&p.text), p.start, end, after));
      }
    }
  }
  ctx.add("instants", want.len() as u64);
  ctx.hit(if want.is_empty() { "empty_interval" } else { "non_empty_interval" });
  if want.last() == Some(&end) {
    ctx.hit("end_included");
  }
  if span == 0 {
    ctx.hit("single_point");
  }
  ctx.sample(|| format!("{} over [{}, {}] -> {}", p.text, p.start, end, want.len()));
}

/// A user-defined specification: an arbitrary predicate on instants that records what it is asked.
#[derive(Clone)]
struct Predicate {
  seed: u64,
  den: u64,
  asked: Rc<RefCell<Vec<i64>>>,
}
fn pred(seed: u64, den: u64, ms: i64) -> bool {
  let mut x = seed ^ (ms as u64);
  vcommon::splitmix(&mut x) % den == 0
}
impl Specification<DateTime<Zone>> for Predicate {
  fn is_satisfied_by(&self, d: &DateTime<Zone>) -> bool {
    vcommon::tick();
    self.asked.borrow_mut().push(d.timestamp_millis());
    pred(self.seed, self.den, d.timestamp_millis())
  }
}
fn custom(ctx: &mut Ctx, r: &mut Rng, _: u64) {
  let t = instant(r) * 1000 + r.below(1000) as i64;
  let z = zone(r, t / 1000);
  let p = Predicate { seed: r.next(), den: *r.pick(&[1, 2, 3, 7, 50, 1 << 60]), asked: Rc::new(RefCell::new(vec![])) };
  let n = r.range(0, 400);
  let end = t + n * 60_000 + if r.chance(1, 2) { r.range(0, 59_999) } else { 0 };
  let open = p.den < 100 && r.chance(1, 3);
  let mut want: Vec<i64> = (0..=n).map(|k| t + k * 60_000).filter(|m| pred(p.seed, p.den, *m)).collect();
  if open {
    want.truncate(40);
    if want.is_empty() {
      ctx.discarded += 1;
      return;
    }
  }
  let (s, e) = (z.timestamp_millis_opt(t).unwrap(), z.timestamp_millis_opt(end).unwrap());
  ctx.judged(&format!("{}..{} {} {}", t, end, p.seed, p.den), true);
  set_fuel(5000 + 40 * n as u64);
  let lim = if open { LimitValue::Limitless } else { LimitValue::Limit(e) };
  let w = want.len();
  let got = guard(|| {
    let iv = CronInterval::new(LimitValue::Limit(s), lim, p.clone());
    let it = iv.iter(z.clone());
    if open { it.take(w).collect::<Vec<_>>() } else { it.take(w + 2).collect() }
  });
  match got {
    Err(st) => ctx.violation(format!("custom-stop:{}..{}", t, end), format!("custom specification over [{}, {}]: {}", t, end, st.text())),
    Ok(g) => compare(ctx, "custom", &format!("pred {}/{}", p.seed, p.den), &z, t, &g, &want),
  }
  let asked = p.asked.borrow();
  if let Some(m) = asked.iter().find(|m| (**m - t) % 60_000 != 0 || **m < t) {
    ctx.violation(format!("custom-asked:{}..{}", t, end), format!("the specification was asked about {}, which is not a whole number of minutes after the start {}", m, t));
  }
  ctx.add("specification_questions", asked.len() as u64);
  ctx.hit(if open { "custom_open" } else { "custom_bounded" });
}

fn suite(name: &'static str, quick: u64, thorough: u64, run: vcommon::CaseFn) -> Suite {
  Suite { name, quick, thorough, run }
}

fn main() {
  let _ = Utc.timestamp_opt(0, 0).unwrap().year();
  const A: &[&str] = &["start instants have millisecond resolution", "years 1601 to 2600", "the civil-date arithmetic in harness/crond/src/oracle.rs is right"];
  vcommon::main(vec![
    Property {
      id: "C01",
      rule: "five-field texts generated field by field (values with and without leading zero, names, L, ranges, steps, lists, zero steps), half of them mutated; and every field text of up to three characters over a 17-character alphabet in every position; distinct by text",
      assumptions: &["single spaces between fields", "names are upper case"],
      required: &["accepted", "rejected", "steps", "lists", "ranges", "any", "last", "small_fields", "token_fields", "number_fields", "long_texts"],
      suites: vec![suite("small", 85, 85, small_fields), suite("tokens", 5 * TOKENS.len() as u64, 5 * TOKENS.len() as u64, tokens), suite("numbers", 5 * 1100, 5 * 1100, numbers), suite("long", 10_000, 300_000, long), suite("random", 600_000, 12_000_000, language)],
    },
    Property {
      id: "C02",
      rule: "expressions generated around a random instant (so that usually at most one field decides) in UTC, fixed-offset and changing zones; every day of 1890-2109 and every minute of a day against calendar and time fields; random hand-built trees; distinct by expression, instant and offset",
      assumptions: A,
      required: &[
        "satisfied", "not_satisfied", "utc", "zone_with_changes", "month_end", "leap_day", "only_min_decides", "only_hour_decides", "only_day_decides",
        "only_month_decides", "only_dow_decides", "days_visited", "minutes_visited", "tree_satisfied", "tree_not_satisfied",
        "one_place_of_a_long_list", "no_place_of_a_long_list",
      ],
      suites: vec![suite("calendar", 220, 2200, calendar), suite("instants", 6_000_000, 60_000_000, evaluation), suite("long", 20_000, 600_000, long_lists), suite("trees", 3_000_000, 30_000_000, trees)],
    },
    Property {
      id: "C03",
      rule: "schedules generated around a random start (off-minute, off-second, month ends, zone changes) and enumerated against a minute-by-minute reference walk; sparse yearly and leap-day schedules; arbitrary user specifications; distinct by expression, start and zone; discarded when nothing is due within the horizon",
      assumptions: A,
      required: &["instants", "start_included", "start_off_minute", "crosses_zone_change", "gaps_over_a_day", "clones", "sparse", "century_without_leap_day", "custom_open", "specification_questions"],
      suites: vec![suite("sparse", 250, 4000, sparse), suite("upcoming", 50_000, 600_000, upcoming), suite("custom", 300_000, 4_000_000, custom)],
    },
    Property {
      id: "C04",
      rule: "bounded intervals (single point to two days, end on and off the minute grid) around random starts, walked to exhaustion and four calls beyond, against a minute-by-minute reference; arbitrary user specifications; distinct by expression, bounds and zone",
      assumptions: A,
      required: &["instants", "empty_interval", "non_empty_interval", "end_included", "single_point", "custom_bounded"],
      suites: vec![suite("bounded", 1_200_000, 20_000_000, bounded), suite("custom", 500_000, 8_000_000, custom)],
    },
    Property {
      id: "C05",
      rule: "random Unicode and ASCII text, long lists, repeated tokens, truncated and repeatedly mutated expressions; accepted ones are evaluated at a random instant; distinct by text",
      assumptions: &[],
      required: &["accepted", "rejected", "evaluated", "long_texts"],
      suites: vec![suite("random", 1_500_000, 20_000_000, totality)],
    },
  ])
}
