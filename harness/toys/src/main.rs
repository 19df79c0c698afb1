mod gen;
mod model;
use gen::{Focus, Gen};
use model::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use toys_under_test::parser_crate::prelude::*;
use toys_under_test::{interpreter::Interpreter, parsers::program};
use vcommon::{guard, trunc, Ctx, Property, Rng, Suite};

// ------------------------------------------------------------------ running a program: a process of its own

const MARK: char = '\u{1}';

/// Reads programs from the standard input, runs each and reports how it ended after what it printed.
fn interpreter_process() -> ! {
  std::panic::set_hook(Box::new(|_| {}));
  let h = std::thread::Builder::new()
    .stack_size(512 << 20)
    .spawn(|| {
      let mut inp = std::io::stdin().lock();
      let mut line = String::new();
      loop {
        line.clear();
        if inp.read_line(&mut line).unwrap_or(0) == 0 {
          return;
        }
        let n: usize = line.trim().parse().unwrap();
        let mut buf = vec![0u8; n];
        inp.read_exact(&mut buf).unwrap();
        let text = String::from_utf8(buf).unwrap();
        let r = std::panic::catch_unwind(|| session(&text));
        let r = r.unwrap_or_else(|e| {
          let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
          format!("P{}", m.unwrap_or_default())
        });
        let out = std::io::stdout();
        let mut out = out.lock();
        let body = r.into_bytes();
        let _ = write!(out, "{}{}\n", MARK, body.len());
        let _ = out.write_all(&body);
        let _ = out.flush();
      }
    })
    .unwrap();
  let _ = h.join();
  std::process::exit(0)
}

const NEXT: char = '\u{2}';

/// A program; or several for one interpreter (R: after a reset, K: without) and names to look up at the end (G).
fn session(text: &str) -> String {
  let mut it = Interpreter::new();
  let mut values = vec![];
  for piece in text.split(NEXT) {
    let (kind, piece) = match text.contains(NEXT) {
      true if piece.is_empty() => continue,
      true => piece.split_at(1),
      false => ("K", piece),
    };
    if kind == "G" {
      values.extend(piece.split(' ').map(|n| format!("{}={}", n, it.get_value(n))));
      continue;
    }
    if kind == "N" {
      // looking up what is not there stops
      let there = piece.split(' ').find(|n| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.get_value(n).to_string())).is_ok());
      values.push(format!("also: {:?}", there));
      continue;
    }
    if kind == "R" {
      it.reset();
    }
    let cs: Vec<char> = piece.chars().collect();
    let read = program().parse(&cs).to_result();
    match read {
      Ok(p) => values.push(it.call_main(p).to_string()),
      Err(e) => return format!("R{}", e),
    }
  }
  format!("V{}", values.join("\u{2}"))
}

struct Proc {
  c: Child,
  i: ChildStdin,
  o: BufReader<ChildStdout>,
  runs: u32,
}

impl Drop for Proc {
  fn drop(&mut self) {
    let _ = self.c.kill();
    let _ = self.c.wait();
  }
}

thread_local! {
  static PROC: RefCell<Option<Proc>> = RefCell::new(None);
}

#[derive(Debug, Clone, PartialEq)]
enum End {
  Value(String),
  Rejected(String),
  Panic(String),
  Died,
}

/// Runs the program text; gives what it printed and how it ended.
fn run(text: &str) -> (String, End) {
  let (r, alone) = run_once(text);
  // the limit is one program's: what the process had spent on others does not count
  if r.1 == End::Died && !alone {
    return run_once(text).0;
  }
  r
}

fn run_once(text: &str) -> ((String, End), bool) {
  PROC.with(|p| {
    let mut p = p.borrow_mut();
    if p.as_ref().map_or(true, |p| p.runs >= 200) {
      // the CPU limit ends a program that does not
      let mut c = Command::new("/bin/sh")
        .args(["-c", "ulimit -c 0; ulimit -t 60; exec \"$0\" --interpreter"])
        .arg(std::env::current_exe().unwrap())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("interpreter process");
      let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
      *p = Some(Proc { c, i, o, runs: 0 });
    }
    let q = p.as_mut().unwrap();
    q.runs += 1;
    let first = q.runs == 1;
    let r = exchange(q, text);
    if r.1 == End::Died {
      *p = None;
    }
    (r, first)
  })
}

fn exchange(q: &mut Proc, text: &str) -> (String, End) {
  let mut out = vec![];
  let ok = q.i.write_all(format!("{}\n{}", text.len(), text).as_bytes()).and_then(|_| q.i.flush());
  if ok.is_err() || q.o.read_until(MARK as u8, &mut out).is_err() || out.pop() != Some(MARK as u8) {
    return (String::from_utf8_lossy(&out).into(), End::Died);
  }
  let out = String::from_utf8_lossy(&out).to_string();
  let mut n = String::new();
  let mut body = vec![];
  let ok = q.o.read_line(&mut n).is_ok() && {
    body = vec![0u8; n.trim().parse().unwrap_or(0)];
    q.o.read_exact(&mut body).is_ok()
  };
  let body = String::from_utf8_lossy(&body).to_string();
  if !ok || body.is_empty() {
    return (out, End::Died);
  }
  let rest = body[1..].to_string();
  (
    out,
    match &body[..1] {
      "V" => End::Value(rest),
      "R" => End::Rejected(rest),
      _ => End::Panic(rest),
    },
  )
}

// ------------------------------------------------------------------ workloads

fn tokens(r: &mut Rng, p: &[Top]) -> Vec<String> {
  let extra = *r.pick(&[0usize, 0, 1, 2]);
  let mut w = Writer { toks: vec![] };
  let mut f = || extra > 0 && r.chance(extra, 12);
  w.program(p, &mut f);
  w.toks
}

fn layout(r: &mut Rng, toks: &[String]) -> String {
  let style = r.below(4);
  let mut f = || match style {
    0 => "",
    1 => " ",
    2 => *r.pick(&["", " ", "\n", "\t", "  ", "\r\n"]),
    _ => *r.pick(&["", "", " "]),
  };
  join(toks, &mut f)
}

fn show(text: &str) -> String {
  trunc(&format!("{:?}", text), 1600)
}

/// Every name but that of the function the run starts with made long, its beginning shared.
fn rename(r: &mut Rng, toks: &mut [String]) {
  let n = 1 + r.below(60);
  let stem: String = (0..n).map(|_| *r.pick(&['a', 'Z', '_', '0', 'q'])).collect();
  for t in toks.iter_mut() {
    let word = t.chars().next().map_or(false, |c| c.is_ascii_alphabetic() || c == '_');
    let kept = ["fn", "global", "println", "while", "for", "in", "to", "if", "else", "true", "false", "main"];
    if word && !kept.contains(&t.as_str()) {
      *t = match stem.starts_with(|c: char| c.is_ascii_digit()) {
        true => format!("{}_{}", t, stem),
        false => format!("{}{}", stem, t),
      };
    }
  }
}

fn long(ctx: &mut Ctx, r: &mut Rng, mut f: Focus) {
  f.scale = true;
  match r.below(3) {
    0 => f.stmts = 10 + r.below(30),
    1 => f.fns += r.below(12),
    _ => {}
  }
  if f.depth > 1 && f.stmts > 8 {
    f.depth = 1;
  }
  f.xdepth = f.xdepth.min(3);
  ctx.hit("long_cases");
  case(ctx, r, f)
}
fn long_evaluation(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  long(ctx, r, EVAL)
}
fn long_flow(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  long(ctx, r, FLOW)
}
fn long_calls(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  long(ctx, r, CALLS)
}

/// A program that is long in one way: statements, definitions, arguments, elements, operands, digits of a name, rounds, calls.
fn tall(ctx: &mut Ctx, r: &mut Rng, way: usize) {
  let most = if way >= 7 { 600 } else { 1500 };
  let n = *r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 700, 1023, 1024, 1025]);
  let n = if r.chance(1, 3) { 30 + r.below(most) } else { n };
  let n = match way {
    1 | 6 | 7 => n.min(100 + r.below(220)), // reading these takes quadratic time
    _ => n,
  };
  let var = |k: usize| X::Var(format!("v{}", k));
  let int = |r: &mut Rng| X::Int(r.range(-9, 99));
  let bin = |op, l, r| X::Bin(op, Box::new(l), Box::new(r));
  let start = |body| Top::Fn("main".into(), vec![], body);
  let pick = r.below(n);
  let p: Vec<Top> = match way {
    // statements of a block
    0 => {
      let mut b = vec![S::Assign("a".into(), X::Int(1))];
      for k in 0..n {
        b.push(match r.below(6) {
          0 => S::Assign("a".into(), bin(Op::Add, X::Var("a".into()), int(r))),
          1 if k % 7 == 0 => S::Print(X::Var("a".into())),
          2 => S::If(X::Bool(r.chance(1, 2)), Box::new(S::Assign("a".into(), X::Int(k as i64))), None),
          3 => S::Block(vec![]),
          _ => S::Expr(int(r)),
        });
      }
      b.push(S::Expr(X::Var("a".into())));
      vec![start(b)]
    }
    // globals
    1 => {
      let mut p: Vec<Top> = (0..n).map(|k| Top::Global(format!("v{}", k), if k > 0 && r.chance(1, 2) { bin(Op::Add, var(r.below(k)), X::Int(1)) } else { int(r) })).collect();
      p.push(start(vec![S::Print(var(pick)), S::Expr(var(n - 1))]));
      p
    }
    // elements of an array
    2 => vec![start(vec![S::Expr(X::Arr((0..n).map(|_| int(r)).collect()))])],
    // operands
    3 => {
      let mut x = int(r);
      for _ in 0..n.min(700) {
        x = bin(*r.pick(&[Op::Add, Op::Sub]), x, int(r));
      }
      vec![start(vec![S::Expr(x)])]
    }
    // characters of a text
    4 => {
      let t: String = (0..n).map(|_| *r.pick(&['a', ' ', '\n', '"', 'é', '\\', ';', '}'])).collect();
      vec![start(vec![S::Expr(X::Str(t))])]
    }
    // characters of a name
    5 => {
      let a: String = (0..n).map(|_| *r.pick(&['a', 'Z', '_', 'q'])).collect();
      let b = format!("{}b", a);
      vec![
        Top::Fn(b.clone(), vec![a.clone()], vec![S::Expr(X::Var(a.clone()))]),
        start(vec![S::Assign(a.clone(), int(r)), S::Expr(X::Call(b, vec![bin(Op::Sub, X::Var(a), int(r))]))]),
      ]
    }
    // functions
    6 => {
      let mut p: Vec<Top> = (0..n).map(|k| Top::Fn(format!("f{}", k), vec![], vec![S::Expr(if k > 0 && r.chance(1, 3) { X::Call(format!("f{}", r.below(k)), vec![]) } else { X::Int(k as i64) })])).collect();
      let at = r.below(n + 1);
      p.insert(at, start(vec![S::Print(X::Call(format!("f{}", pick), vec![])), S::Expr(X::Call(format!("f{}", n - 1), vec![]))]));
      p
    }
    // parameters and arguments
    7 => {
      let args: Vec<X> = (0..n).map(|_| int(r)).collect();
      let names: Vec<String> = (0..n).map(|k| format!("v{}", k)).collect();
      let call = match r.chance(1, 2) {
        true => X::Call("f".into(), args),
        false => {
          let mut l: Vec<(String, X)> = names.iter().cloned().zip(args).collect();
          if r.chance(1, 2) {
            l.reverse();
          }
          X::Labelled("f".into(), l)
        }
      };
      vec![Top::Fn("f".into(), names, vec![S::Print(var(pick)), S::Expr(bin(Op::Sub, var(0), var(n - 1)))]), start(vec![S::Expr(call)])]
    }
    // calls in progress
    8 => {
      let less = bin(Op::Sub, X::Var("n".into()), X::Int(1));
      let deeper = bin(Op::Add, X::Var("n".into()), X::Call("f".into(), vec![less]));
      let f = S::If(bin(Op::Gt, X::Var("n".into()), X::Int(0)), Box::new(S::Expr(deeper)), Some(Box::new(S::Expr(int(r)))));
      vec![Top::Fn("f".into(), vec!["n".into()], vec![f]), start(vec![S::Expr(X::Call("f".into(), vec![X::Int(n as i64)]))])]
    }
    // rounds
    _ => {
      let step = S::Assign("a".into(), bin(Op::Add, X::Var("a".into()), X::Var("i".into())));
      let lp = match r.chance(1, 2) {
        true => S::For("i".into(), X::Int(0), X::Int(n as i64), Box::new(step)),
        false => S::While(
          bin(Op::Lt, X::Var("i".into()), X::Int(n as i64)),
          Box::new(S::Block(vec![step, S::Assign("i".into(), bin(Op::Add, X::Var("i".into()), X::Int(1)))])),
        ),
      };
      vec![start(vec![S::Assign("a".into(), int(r)), S::Assign("i".into(), X::Int(0)), lp, S::Print(X::Var("i".into())), S::Expr(X::Var("a".into()))])]
    }
  };
  ctx.hit("tall_cases");
  judge_deep(ctx, r, p, false, 2000)
}
fn tall_reading(ctx: &mut Ctx, r: &mut Rng, i: u64) {
  tall(ctx, r, i as usize % 7)
}
fn tall_evaluation(ctx: &mut Ctx, r: &mut Rng, i: u64) {
  tall(ctx, r, 2 + i as usize % 3)
}
fn tall_flow(ctx: &mut Ctx, r: &mut Rng, i: u64) {
  tall(ctx, r, if i % 2 == 0 { 0 } else { 9 })
}
fn tall_calls(ctx: &mut Ctx, r: &mut Rng, i: u64) {
  tall(ctx, r, [1, 6, 7, 8][i as usize % 4])
}

fn case(ctx: &mut Ctx, r: &mut Rng, f: Focus) {
  let p = Gen::new(r, f).program();
  judge(ctx, r, p, f.scale)
}
/// Programs run one after another by one interpreter, and what it holds at the end.
fn sessions(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let mut ev = Eval::new();
  let mut text = String::new();
  let mut values = vec![];
  let mut words = std::collections::BTreeSet::new();
  for k in 0..1 + r.below(4) {
    let mut f = CALLS;
    f.fns = r.below(4);
    f.trace = *r.pick(&[0, 4]);
    let p = Gen::new(r, f).program();
    let again = r.chance(2, 3);
    if !again {
      ev.reset();
    } else if k > 0 {
      ctx.hit("run_after_another");
    }
    match ev.run(&p) {
      Ok(v) => values.push(v.show()),
      Err(_) => {
        ctx.discarded += 1;
        return;
      }
    }
    let toks = tokens(r, &p);
    text.push(NEXT);
    text.push(if again { 'K' } else { 'R' });
    words.extend(toks.iter().filter(|t| t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')).cloned());
    text.push_str(&layout(r, &toks));
  }
  let mut names: Vec<&String> = ev.bound().keys().collect();
  names.sort();
  if !names.is_empty() {
    text.push(NEXT);
    text.push('G');
    text.push_str(&names.iter().map(|n| n.as_str()).collect::<Vec<_>>().join(" "));
    values.extend(names.iter().map(|n| format!("{}={}", n, ev.bound()[*n].show())));
    ctx.add("values_held_after_a_run", names.len() as u64);
  }
  words.retain(|w: &String| !ev.bound().contains_key(w));
  text.push(NEXT);
  text.push('N');
  text.push_str(&words.into_iter().collect::<Vec<_>>().join(" "));
  values.push("also: None".to_string());
  let want = values.join("\u{2}");
  let (out, end) = run(&text);
  if out != ev.out || end != End::Value(want.clone()) {
    ctx.violation(
      format!("session:{}", text),
      format!("{} in one interpreter prints {} and ends with {:?}; expected {} and {:?}", show(&text), show(&out), end, show(&ev.out), want),
    );
  }
  ctx.judged(&text, true);
  ctx.sample(|| show(&text));
}

fn judge(ctx: &mut Ctx, r: &mut Rng, p: Vec<Top>, renamed: bool) {
  judge_deep(ctx, r, p, renamed, 60)
}
fn judge_deep(ctx: &mut Ctx, r: &mut Rng, p: Vec<Top>, renamed: bool, deepest: usize) {
  let (want, ev) = Eval::deep(&p, deepest);
  let want = match want {
    Ok(v) => v.show(),
    Err(_) => {
      ctx.discarded += 1;
      return;
    }
  };
  let mut toks = tokens(r, &p);
  if renamed {
    rename(r, &mut toks);
  }
  let text = layout(r, &toks);
  count(ctx, &p);
  ctx.add("calls", ev.calls as u64);
  ctx.add("assigned_outside_the_call", ev.outer_writes as u64);
  ctx.add("rounds", ev.rounds as u64);
  ctx.add("lines_printed", ev.out.lines().count() as u64);
  if ev.max_depth > 4 {
    ctx.hit("deep_calls");
  }
  if ev.max_depth > 100 {
    ctx.hit("hundred_calls_in_progress");
  }
  let (out, end) = run(&text);
  if out != ev.out || end != End::Value(want.clone()) {
    ctx.violation(
      format!("meaning:{}", text),
      format!("{} prints {} and ends with {:?}; expected {} and the value {:?}", show(&text), show(&out), end, show(&ev.out), want),
    );
  }
  ctx.judged(&text, p.len() > 1 || toks.len() > 8);
  ctx.sample(|| show(&text));
}

fn count(ctx: &mut Ctx, p: &[Top]) {
  fn x(c: &mut Ctx, e: &X) {
    match e {
      X::Int(i) if *i < 0 => c.hit("negative_literal"),
      X::Int(_) | X::Var(_) => {}
      X::Bool(_) => c.hit("boolean"),
      X::Str(_) => c.hit("text"),
      X::Arr(a) => {
        c.hit("array");
        a.iter().for_each(|e| x(c, e))
      }
      X::Bin(op, l, r) => {
        c.hit(op.text());
        x(c, l);
        x(c, r)
      }
      X::Call(_, a) => {
        c.hit("call");
        a.iter().for_each(|e| x(c, e))
      }
      X::Labelled(_, a) => {
        c.hit("labelled_call");
        a.iter().for_each(|e| x(c, &e.1))
      }
    }
  }
  fn s(c: &mut Ctx, t: &S) {
    match t {
      S::Expr(e) => x(c, e),
      S::Assign(_, e) => {
        c.hit("assignment");
        x(c, e)
      }
      S::Print(e) => x(c, e),
      S::While(e, b) => {
        c.hit("while");
        x(c, e);
        s(c, b)
      }
      S::For(_, f, t, b) => {
        c.hit("for");
        x(c, f);
        x(c, t);
        s(c, b)
      }
      S::If(e, t, f) => {
        c.hit("if");
        x(c, e);
        s(c, t);
        if let Some(f) = f {
          c.hit("else");
          s(c, f)
        }
      }
      S::Block(b) => {
        c.hit("block");
        if b.is_empty() {
          c.hit("empty_block");
        }
        b.iter().for_each(|t| s(c, t))
      }
    }
  }
  for t in p {
    match t {
      Top::Global(_, e) => {
        c_hit(ctx, "global");
        x(ctx, e)
      }
      Top::Fn(_, _, b) => b.iter().for_each(|t| s(ctx, t)),
    }
  }
}
fn c_hit(c: &mut Ctx, n: &str) {
  c.hit(n)
}

const READ: Focus = Focus { fns: 1, depth: 2, stmts: 3, xdepth: 4, w: [6, 2, 1, 2, 1, 1, 1], wild: false, trace: 0, scale: false };
const EVAL: Focus = Focus { fns: 0, depth: 0, stmts: 6, xdepth: 5, w: [6, 3, 1, 0, 0, 0, 0], wild: false, trace: 0, scale: false };
const FLOW: Focus = Focus { fns: 0, depth: 3, stmts: 3, xdepth: 2, w: [4, 5, 1, 4, 3, 3, 1], wild: false, trace: 0, scale: false };
const CALLS: Focus = Focus { fns: 5, depth: 2, stmts: 3, xdepth: 3, w: [4, 5, 3, 2, 1, 1, 1], wild: true, trace: 0, scale: false };

fn reading(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  case(ctx, r, READ)
}
fn evaluation(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  case(ctx, r, EVAL)
}
fn flow(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  case(ctx, r, FLOW)
}
fn calls(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  case(ctx, r, CALLS)
}
/// The same with most of what is evaluated printed on the way.
fn traced(mut f: Focus, k: usize) -> Focus {
  f.trace = k;
  f
}
fn evaluation_traced(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let k = 2 + r.below(4);
  case(ctx, r, traced(EVAL, k))
}
fn flow_traced(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let k = 2 + r.below(4);
  case(ctx, r, traced(FLOW, k))
}
fn calls_traced(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let k = 2 + r.below(4);
  case(ctx, r, traced(CALLS, k))
}

/// One flat expression without any parentheses: the tree follows from the levels alone.
fn flat(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let n = match r.chance(1, 40) {
    true => 2 + r.below(60),
    false => 2 + r.below(5),
  };
  let small: Vec<i64> = (0..n).map(|_| r.range(-6, 12)).collect();
  let mut ops: Vec<Op> = (1..n).map(|_| *r.pick(&[Op::Mul, Op::Div, Op::Mod, Op::Add, Op::Sub])).collect();
  if r.chance(1, 3) {
    let k = r.below(n - 1);
    ops[k] = *r.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne]);
  }
  // precedence climbing, every level to the left
  fn climb(v: &[i64], o: &[Op], at: &mut usize, min: u8) -> X {
    let mut l = X::Int(v[*at]);
    while *at < o.len() && o[*at].level() >= min {
      let op = o[*at];
      *at += 1;
      let r = climb(v, o, at, op.level() + 1);
      l = X::Bin(op, Box::new(l), Box::new(r));
    }
    l
  }
  let x = climb(&small, &ops, &mut 0, 0);
  let p = vec![Top::Fn("main".into(), vec![], vec![S::Expr(x)])];
  let want = match Eval::program(&p).0 {
    Ok(v) => v.show(),
    Err(_) => {
      ctx.discarded += 1;
      return;
    }
  };
  let mut toks: Vec<String> = ["fn", "main", "(", ")", "{"].iter().map(|s| s.to_string()).collect();
  for (i, v) in small.iter().enumerate() {
    if i > 0 {
      toks.push(ops[i - 1].text().into());
    }
    toks.push(v.to_string());
  }
  toks.push(";".into());
  toks.push("}".into());
  let text = layout(r, &toks);
  let (out, end) = run(&text);
  ctx.hit("flat_expressions");
  if !out.is_empty() || end != End::Value(want.clone()) {
    ctx.violation(format!("meaning:{}", text), format!("{} ends with {:?} after printing {:?}; expected the value {}", show(&text), end, out, want));
  }
  ctx.judged(&text, true);
}

/// Texts that are no programs: an unbalanced bracket, a missing semicolon, something left over.
fn broken(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let p = Gen::new(r, READ).program();
  let mut toks = tokens(r, &p);
  let br = |t: &String| ["(", ")", "{", "}", "[", "]"].contains(&t.as_str());
  let what = match r.below(4) {
    0 => {
      let at: Vec<usize> = (0..toks.len()).filter(|i| br(&toks[*i])).collect();
      toks.remove(*r.pick(&at));
      "bracket_removed"
    }
    1 => {
      let at = r.below(toks.len() + 1);
      toks.insert(at, r.pick(&["(", ")", "{", "}", "[", "]"]).to_string());
      "bracket_added"
    }
    2 => {
      let at: Vec<usize> = (0..toks.len() - 1).filter(|i| toks[*i] == ";" && toks[*i + 1] == "}").collect();
      if at.is_empty() {
        ctx.discarded += 1;
        return;
      }
      toks.remove(*r.pick(&at));
      "semicolon_removed"
    }
    _ => {
      toks.push(r.pick(&[";", "x", "@", "1", "fn", "fn f", "fn f()", "global x = 1", "println(1);", "\"s\"", "."]).to_string());
      "left_over"
    }
  };
  let text = layout(r, &toks);
  let chars: Vec<char> = text.chars().collect();
  ctx.hit(what);
  match guard(|| program().parse(&chars).to_result().map(|_| ()).map_err(|e| e.to_string())) {
    Ok(Err(_)) => {}
    Ok(Ok(())) => ctx.violation(format!("accepted:{}", text), format!("{} ({}) is accepted", show(&text), what)),
    Err(s) => ctx.violation(format!("stop:{}", text), format!("{} ({}): {}", show(&text), what, s.text())),
  }
  ctx.judged(&text, true);
}

/// Any text is a program or an error.
fn totality(ctx: &mut Ctx, r: &mut Rng, _i: u64) {
  let text = match r.below(4) {
    0 => {
      let n = r.below(40);
      (0..n)
        .map(|_| *r.pick(&["fn ", "main", "(", ")", "{", "}", "[", "]", ";", "=", "==", "1", "-", "x", "\"", "\\u00", "if", "else", "for", "in", "to", "while", "println", "global", ",", " ", "\n", "é", "99999999999999999999", "<", "&&", "|", "%", "true", "\u{0}"]))
        .collect::<String>()
    }
    1 => {
      let n = r.below(60);
      (0..n).map(|_| char::from_u32(r.below(0x250) as u32).unwrap_or('x')).collect()
    }
    _ => {
      let p = Gen::new(r, READ).program();
      let toks = tokens(r, &p);
      let mut cs: Vec<char> = layout(r, &toks).chars().collect();
      for _ in 0..1 + r.below(4) {
        if cs.is_empty() {
          break;
        }
        let at = r.below(cs.len());
        match r.below(4) {
          0 => {
            cs.remove(at);
          }
          1 => cs.insert(at, *r.pick(&['(', '}', '"', '\\', ';', '=', 'x', '9', '-', '\u{7f}', '日'])),
          2 => cs.truncate(at),
          _ => {
            let b = r.below(cs.len());
            cs.swap(at, b)
          }
        }
      }
      cs.into_iter().collect()
    }
  };
  let chars: Vec<char> = text.chars().collect();
  match guard(|| program().parse(&chars).to_result().map(|p| format!("{:?}", p)).map_err(|e| e.to_string())) {
    Ok(Ok(_)) => ctx.hit("accepted"),
    Ok(Err(m)) => {
      ctx.hit("rejected");
      if m.is_empty() {
        ctx.violation(format!("silent:{}", text), format!("{} is rejected without a message", show(&text)));
      }
    }
    Err(s) => ctx.violation(format!("stop:{}", text), format!("{}: {}", show(&text), s.text())),
  }
  ctx.judged(&text, !text.is_empty());
  ctx.sample(|| show(&text));
}

fn suite(name: &'static str, quick: u64, thorough: u64, run: vcommon::CaseFn) -> Suite {
  Suite { name, quick, thorough, run }
}

const A: &[&str] = &[
  "programs that overflow, divide by zero, use an unknown name, a missing argument or a value of the wrong kind stop by an explicit panic and are outside",
  "a name is looked up through the calls in progress, innermost first (as the language's environments are chained)",
];

fn main() {
  if std::env::args().nth(1).as_deref() == Some("--interpreter") {
    interpreter_process();
  }
  vcommon::main(vec![
    Property {
      id: "T01",
      rule: "typed random programs written with random layout and as few parentheses as the levels allow, and flat expressions; what the run prints and returns against the model; damaged programs against rejection; distinct by text",
      assumptions: A,
      required: &["tall_cases", "long_cases", "flat_expressions", "bracket_removed", "bracket_added", "semicolon_removed", "left_over", "if", "else", "for", "while", "call", "labelled_call", "array", "text", "global", "negative_literal"],
      suites: vec![suite("programs", 4_000, 60_000, reading), suite("flat", 20_000, 200_000, flat), suite("broken", 6_000, 60_000, broken), suite("long", 200, 4_000, long_flow), suite("tall", 150, 3_000, tall_reading)],
    },
    Property {
      id: "T02",
      rule: "straight-line programs of random typed expressions, printed and assigned; printed lines and result against the model; distinct by text",
      assumptions: A,
      required: &["tall_cases", "long_cases", "*", "/", "%", "+", "-", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "negative_literal", "array", "text", "boolean", "lines_printed"],
      suites: vec![suite("random", 12_000, 200_000, evaluation), suite("traced", 6_000, 150_000, evaluation_traced), suite("long", 300, 6_000, long_evaluation), suite("tall", 120, 3_000, tall_evaluation)],
    },
    Property {
      id: "T03",
      rule: "programs of nested conditions, loops and blocks over shared variables; printed lines and result against the model; distinct by text",
      assumptions: A,
      required: &["tall_cases", "long_cases", "if", "else", "for", "while", "block", "empty_block", "rounds", "assignment", "lines_printed"],
      suites: vec![suite("random", 6_000, 120_000, flow), suite("traced", 3_000, 80_000, flow_traced), suite("long", 300, 6_000, long_flow), suite("tall", 120, 3_000, tall_flow)],
    },
    Property {
      id: "T04",
      rule: "programs of several functions (positional and labelled calls, recursion, globals, assignments to variables of callers); printed lines and result against the model; distinct by text",
      assumptions: A,
      required: &["tall_cases", "long_cases", "call", "labelled_call", "calls", "assigned_outside_the_call", "global", "deep_calls", "hundred_calls_in_progress", "run_after_another", "values_held_after_a_run", "lines_printed"],
      suites: vec![suite("random", 7_000, 120_000, calls), suite("traced", 5_000, 100_000, calls_traced), suite("long", 300, 6_000, long_calls), suite("tall", 120, 4_000, tall_calls), suite("sessions", 1_500, 60_000, sessions)],
    },
    Property {
      id: "T05",
      rule: "random token and character sequences and mutated programs; distinct by text",
      assumptions: &["nesting within the stack"],
      required: &["accepted", "rejected"],
      suites: vec![suite("random", 15_000, 300_000, totality)],
    },
  ])
}
