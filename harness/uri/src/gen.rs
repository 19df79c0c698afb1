use vcommon::Rng;

thread_local! {
  /// 0, or the length that components are drawn around
  pub static SCALE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// The small number, or now and then one at the scale.
pub fn many(r: &mut Rng, small: usize) -> usize {
  let k = SCALE.with(|c| c.get());
  if k > 0 && r.chance(1, 3) { (k + r.below(3)).saturating_sub(r.below(3)) } else { small }
}
const SCALES: &[usize] = &[
  8, 16, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 253, 255, 256, 257, 300, 500, 512, 1000, 1024, 1025, 2000, 2048, 4096, 8192, 10_000,
];
/// Runs a case with long components.
pub fn at_scale(r: &mut Rng, f: impl FnOnce(&mut Rng)) {
  let k = *r.pick(SCALES);
  SCALE.with(|c| c.set(k));
  f(r);
  SCALE.with(|c| c.set(0));
}

fn hex(r: &mut Rng) -> char {
  *r.pick(&['0', '1', '9', 'a', 'f', 'A', 'F', '7', 'c', 'E'])
}
/// Characters for a component; `extra` are the delimiters it may contain besides unreserved, sub-delims and %XX.
pub fn chars(r: &mut Rng, min: usize, max: usize, extra: &[char]) -> String {
  let n = min + r.below(max - min + 1);
  let n = many(r, n);
  let mut s = String::new();
  for _ in 0..n {
    match r.below(10) {
      0..=4 => s.push(*r.pick(&['a', 'b', 'z', 'A', 'Z', '0', '5', '9', 'v', 'x'])),
      5 => s.push(*r.pick(&['-', '.', '_', '~'])),
      6 => {
        s.push('%');
        s.push(hex(r));
        s.push(hex(r));
      }
      7 | 8 => s.push(*r.pick(&['!', '$', '&', '\'', '(', ')', '*', '+', ',', ';', '='])),
      _ if !extra.is_empty() => s.push(*r.pick(extra)),
      _ => s.push('q'),
    }
  }
  s
}
pub fn scheme(r: &mut Rng) -> String {
  if r.chance(1, 3) {
    return r.pick(&["http", "https", "ftp", "file", "urn", "mailto", "a", "X"]).to_string();
  }
  let mut s = r.pick(&["a", "z", "A", "h"]).to_string();
  let n = r.below(6);
  for _ in 0..many(r, n) {
    s.push(*r.pick(&['a', 'Z', '0', '9', '+', '-', '.']));
  }
  s
}
pub fn octet(r: &mut Rng) -> String {
  match r.below(9) {
    8 => {
      let z = many(r, 1);
      format!("{}{}", "0".repeat(z), r.below(256))
    }
    0 => r.pick(&["0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255"]).to_string(),
    1 => r.pick(&["256", "260", "300", "999", "00", "01", "010", "1000", "025"]).to_string(),
    _ => r.below(256).to_string(),
  }
}
pub fn good_octet(r: &mut Rng) -> String {
  if r.chance(1, 4) { r.pick(&["0", "9", "10", "99", "100", "199", "200", "249", "250", "255"]).to_string() } else { r.below(256).to_string() }
}
pub fn v4(r: &mut Rng, hostile: bool) -> String {
  let n = if hostile && r.chance(1, 6) { r.below(6) } else { 4 };
  (0..n).map(|_| if hostile && r.chance(1, 3) { octet(r) } else { good_octet(r) }).collect::<Vec<_>>().join(".")
}
fn h16(r: &mut Rng) -> String {
  let mut n = 1 + r.below(4);
  if r.chance(1, 40) {
    n = many(r, n);
  }
  if r.chance(1, 4) {
    return "0".repeat(n);
  }
  (0..n).map(|_| hex(r)).collect()
}
/// Eight groups' worth of address, in any of the permitted shapes, possibly one group too many or too few.
pub fn v6(r: &mut Rng, hostile: bool) -> String {
  let tail4 = r.chance(1, 4);
  let room = if tail4 { 6 } else { 8 };
  let mut s = if r.chance(1, 4) {
    let n = if hostile && r.chance(1, 4) { room + 1 - 2 * r.below(2) } else { room };
    (0..n).map(|_| h16(r)).collect::<Vec<_>>().join(":")
  } else {
    let most = room - 1 + if hostile && r.chance(1, 5) { 1 + r.below(2) } else { 0 };
    let total = if r.chance(1, 3) { most } else { r.below(most + 1) };
    let left = r.below(total + 1);
    let l: Vec<String> = (0..left).map(|_| h16(r)).collect();
    let rr: Vec<String> = (left..total).map(|_| h16(r)).collect();
    format!("{}::{}", l.join(":"), rr.join(":"))
  };
  if tail4 {
    if !s.ends_with(':') {
      s.push(':');
    }
    s.push_str(&v4(r, hostile));
  }
  s
}
pub fn future(r: &mut Rng) -> String {
  let mut s = r.pick(&["v", "V"]).to_string();
  let n = 1 + r.below(3);
  for _ in 0..many(r, n) {
    s.push(hex(r));
  }
  s.push('.');
  let n = 1 + r.below(5);
  for _ in 0..many(r, n) {
    s.push(*r.pick(&['a', '1', '.', '-', '~', '!', '=', ':', ';']));
  }
  s
}
pub fn host(r: &mut Rng, hostile: bool) -> String {
  let mut s = match r.below(8) {
    0 | 1 => chars(r, 0, 8, &[]),
    2 => v4(r, hostile),
    3 => format!("{}{}", v4(r, hostile), chars(r, 0, 3, &[])),
    4 | 5 => format!("[{}]", v6(r, hostile)),
    6 => format!("[{}]", future(r)),
    _ => r.pick(&["localhost", "example.com", "", "a", "1", "1.2.3", "1.2.3.4.5", "xn--9"]).to_string(),
  };
  if hostile && r.chance(1, 6) {
    s = super::mutate(r, &s);
  }
  s
}
pub fn port(r: &mut Rng, hostile: bool) -> String {
  match r.below(8) {
    0 => "".into(),
    1 => r.pick(&["0", "1", "65535", "80", "00080", "0000000000443"]).to_string(),
    2 if hostile => r.pick(&["65536", "99999", "100000", "4294967376", "-1", "8x", "x", " 80", "+80"]).to_string(),
    3 => {
      let z = many(r, 2);
      format!("{}{}", "0".repeat(z), r.below(if hostile { 70000 } else { 65536 }))
    }
    _ => r.below(65536).to_string(),
  }
}
pub fn authority(r: &mut Rng, hostile: bool) -> String {
  let mut s = String::new();
  match r.below(6) {
    0 => s = format!("{}@", chars(r, 0, 6, &[])),
    1 => s = format!("{}:{}@", chars(r, 0, 4, &[]), chars(r, 0, 6, &[])),
    2 => s = format!("{}@", chars(r, 0, 6, &[':'])),
    _ => {}
  }
  s.push_str(&host(r, hostile));
  if r.chance(1, 3) {
    s.push(':');
    s.push_str(&port(r, hostile));
  }
  s
}
pub fn path_abs(r: &mut Rng) -> String {
  let n = r.below(5);
  if SCALE.with(|c| c.get()) > 0 && r.chance(1, 3) {
    // many short segments
    let n = many(r, n);
    return (0..n).map(|_| format!("/{}", ["", "a", "b%20", ":", "..", "seg"][r.below(6)])).collect();
  }
  (0..n).map(|_| format!("/{}", chars(r, 0, 5, &[':', '@']))).collect()
}
pub fn query(r: &mut Rng) -> String {
  match r.below(4) {
    0 => chars(r, 0, 8, &[':', '@', '/', '?']),
    1 => {
      let keys = ["a", "b", "k", ""];
      let n = r.below(6);
      let scaled = SCALE.with(|c| c.get()) > 0 && r.chance(1, 2);
      let n = if scaled { many(r, n) } else { n };
      (0..n)
        .map(|_| {
          let k = r.pick(&keys).to_string();
          match r.below(4) {
            0 => k,
            1 => format!("{}=", k),
            _ if scaled => format!("{}={}", k, r.below(100)),
            _ => format!("{}={}", k, chars(r, 0, 4, &['/', '?', ':'])),
          }
        })
        .collect::<Vec<_>>()
        .join("&")
    }
    2 => r.pick(&["", "=", "&", "&&", "a=b=c", "==", "a=&b", "=v&=w", "a&a=1&a"]).to_string(),
    _ => chars(r, 0, 20, &['=', '&', '/', '?']),
  }
}
pub fn uri(r: &mut Rng, hostile: bool) -> String {
  let mut s = scheme(r);
  s.push(':');
  match r.below(6) {
    0..=3 => {
      s.push_str("//");
      s.push_str(&authority(r, hostile));
      s.push_str(&path_abs(r));
    }
    4 => {
      // absolute, but not beginning with two slashes
      let p = path_abs(r);
      s.push_str(&format!("/{}", p.trim_start_matches('/')));
    }
    _ => {
      if r.chance(4, 5) {
        s.push_str(&chars(r, 1, 6, &[':', '@']));
        s.push_str(&path_abs(r));
      }
    }
  }
  if r.chance(1, 2) {
    s.push('?');
    s.push_str(&query(r));
  }
  if r.chance(1, 3) {
    s.push('#');
    s.push_str(&chars(r, 0, 6, &[':', '@', '/', '?']));
  }
  s
}
