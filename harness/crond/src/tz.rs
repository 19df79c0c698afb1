//! A time zone with a step clock: every offset lookup spends one unit of fuel, so an enumeration that never yields
//! is ended deterministically. Offsets may change at given instants (daylight saving).
use chrono::{FixedOffset, MappedLocalTime, NaiveDate, NaiveDateTime, Offset, TimeZone};
use std::fmt;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Zone {
  /// offset before the first transition, then (utc second, offset from then on), ascending
  pub base: i32,
  pub changes: Rc<Vec<(i64, i32)>>,
}
impl Zone {
  pub fn fixed(off: i32) -> Zone {
    Zone { base: off, changes: Rc::new(vec![]) }
  }
  pub fn offset_at(&self, utc: i64) -> i32 {
    let mut o = self.base;
    for (t, x) in self.changes.iter() {
      if utc >= *t {
        o = *x;
      }
    }
    o
  }
}
#[derive(Clone)]
pub struct Off {
  zone: Zone,
  off: FixedOffset,
}
impl fmt::Debug for Off {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    write!(f, "{:?}", self.off)
  }
}
impl fmt::Display for Off {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    write!(f, "{}", self.off)
  }
}
impl Offset for Off {
  fn fix(&self) -> FixedOffset {
    self.off
  }
}
impl Zone {
  fn mk(&self, off: i32) -> Off {
    Off { zone: self.clone(), off: FixedOffset::east_opt(off).unwrap() }
  }
}
impl TimeZone for Zone {
  type Offset = Off;
  fn from_offset(o: &Off) -> Zone {
    o.zone.clone()
  }
  fn offset_from_local_date(&self, local: &NaiveDate) -> MappedLocalTime<Off> {
    self.offset_from_local_datetime(&local.and_hms_opt(0, 0, 0).unwrap())
  }
  fn offset_from_local_datetime(&self, local: &NaiveDateTime) -> MappedLocalTime<Off> {
    vcommon::tick();
    let secs = local.and_utc().timestamp();
    let mut found: Vec<i32> = vec![];
    let mut offs = vec![self.base];
    offs.extend(self.changes.iter().map(|c| c.1));
    for o in offs {
      if self.offset_at(secs - o as i64) == o && !found.contains(&o) {
        found.push(o);
      }
    }
    match found.len() {
      0 => MappedLocalTime::None,
      1 => MappedLocalTime::Single(self.mk(found[0])),
      _ => MappedLocalTime::Ambiguous(self.mk(found[0]), self.mk(found[1])),
    }
  }
  fn offset_from_utc_date(&self, utc: &NaiveDate) -> Off {
    self.offset_from_utc_datetime(&utc.and_hms_opt(0, 0, 0).unwrap())
  }
  fn offset_from_utc_datetime(&self, utc: &NaiveDateTime) -> Off {
    vcommon::tick();
    self.mk(self.offset_at(utc.and_utc().timestamp()))
  }
}
