//! Running the implementation with what it prints captured.

use crate::lang::*;
use mc_core::guarded;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::rc::Rc;
use toys_under_test::expr::Expr;
use toys_under_test::interpreter::Interpreter;
use toys_under_test::parsers;
use toys_under_test::values::Value;

extern "C" {
  fn dup(fd: i32) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
  fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
}

pub struct Capture {
  file: File,
  saved: i32,
}

thread_local! {
  static CAPTURE: std::cell::OnceCell<Capture> = const { std::cell::OnceCell::new() };
}

/// What `f` writes to standard output, however it does so.
pub fn captured<R>(f: impl FnOnce() -> R) -> (Result<R, String>, String) {
  CAPTURE.with(|c| {
    let c = c.get_or_init(|| unsafe { Capture { file: File::from_raw_fd(memfd_create(c"out".as_ptr(), 0)), saved: dup(1) } });
    let mut file = &c.file;
    std::io::stdout().flush().unwrap();
    unsafe { dup2(file.as_raw_fd(), 1) };
    let r = guarded(f);
    let _ = std::io::stdout().flush();
    unsafe { dup2(c.saved, 1) };
    let mut text = String::new();
    if file.stream_position().unwrap() > 0 {
      file.seek(SeekFrom::Start(0)).unwrap();
      file.read_to_string(&mut text).unwrap();
      file.set_len(0).unwrap();
      file.seek(SeekFrom::Start(0)).unwrap();
    }
    (r, text)
  })
}

/// Runs what never prints (no system call per case).
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  guarded(f)
}

pub fn parse(t: &str) -> Result<Result<Rc<Expr>, String>, String> {
  let input: Vec<char> = t.chars().collect();
  guarded(|| {
    use oni_comb_parser_rs::prelude::*;
    parsers::program().parse(&input).to_result().map_err(|e| format!("{:?}", e))
  })
}

pub fn same(want: &Val, got: &Value) -> bool {
  match (want, got) {
    (Val::Any, _) => true,
    (Val::Int(a), Value::Int(b)) => a == b,
    (Val::Bool(a), Value::Bool(b)) => a == b,
    (Val::Str(a), Value::String(b)) => a == b,
    (Val::Arr(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
    _ => false,
  }
}

pub struct Expected {
  pub value: Val,
  pub printed: Vec<String>,
}

pub fn expected(p: &[D]) -> Option<Expected> {
  meaning(p, Machine::new())
}

/// Without a limit on how long it may run.
pub fn expected_long(p: &[D]) -> Option<Expected> {
  meaning(p, Machine::within(1_000_000, 2000))
}

fn meaning<'a>(p: &'a [D], mut m: Machine<'a>) -> Option<Expected> {
  let value = m.run(p).ok()?;
  Some(Expected { value, printed: m.printed })
}

/// One run of a program tree on the interpreter against what it means.
pub fn compare(want: &Expected, tree: Rc<Expr>) -> Result<u64, String> {
  let (got, out) = captured(|| Interpreter::new().call_main(tree));
  let got = got?;
  let lines: Vec<&str> = out.lines().collect();
  if lines != want.printed {
    return Err(format!("expected the output {:?}, got {:?}", want.printed, lines));
  }
  if !same(&want.value, &got) {
    return Err(format!("expected the value {:?}, got {:?}", want.value, got));
  }
  Ok(mc_core::h64(&format!("{:?}{:?}", want.value, want.printed)))
}
