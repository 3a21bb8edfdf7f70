//! Runs the real nrbf reader over a corpus and records what it did, one JSON line per input.
//!
//!   nrbf-harness IN OUT [SKIP]
//!
//! IN holds one case per line, `<mode> <hex bytes>`. Mode `parse` records the projection of
//! `RemotingMessage::parse`; any other mode names a target type for `from_slice`. OUT is appended
//! to, one line per case and flushed, so that the caller can tell which case killed the process.
//! The first SKIP cases are skipped. Only the public API of nrbf is used.
//!
//!   nrbf-harness IN OUT session THREADS ROUNDS
//!
//! records a session instead: several threads make all the calls, in different orders, on copies of
//! the bytes at different addresses. OUT gets one event per call.
//!
//! A long run of one byte in the input is written `<hex>:<byte>:<count>:<hex>`.

use std::{
  fs::OpenOptions,
  io::{BufRead, BufReader, Write},
  panic::{catch_unwind, AssertUnwindSafe},
};

use nrbf::RemotingMessage;

mod cost;
mod project;
#[cfg(feature = "serde")]
mod targets;
#[cfg(feature = "serde")]
mod why;

use project::message_json;

fn input_bytes(s: &str) -> Vec<u8> {
  match s.split(':').collect::<Vec<_>>()[..] {
    [a, byte, count, b] => {
      let mut v = unhex(a);
      v.resize(v.len() + count.parse::<usize>().unwrap(), byte.parse().unwrap());
      v.extend(unhex(b));
      v
    },
    _ => unhex(s),
  }
}

fn unhex(s: &str) -> Vec<u8> {
  let d = |c: u8| match c {
    b'0'..=b'9' => c - b'0',
    b'a'..=b'f' => c - b'a' + 10,
    _ => panic!("bad hex"),
  };
  s.as_bytes().chunks(2).map(|p| (d(p[0]) << 4) | d(p[1])).collect()
}

fn run_case(mode: &str, input: &[u8]) -> String {
  match mode {
    "parse" => match RemotingMessage::parse(input) {
      Ok(m) => {
        // Values must compare equal to themselves unless they hold a NaN; cloning must not change them.
        format!("{{\"r\":\"ok\",\"v\":{}}}", message_json(&m.clone()))
      },
      Err(e) => format!("{{\"r\":\"err\",\"e\":{}}}", project::str_json(&e.to_string())),
    },
    // What the errors of both functions say.
    "error" => match RemotingMessage::parse(input) {
      Ok(_) => "{\"r\":\"ok\",\"v\":[]}".to_string(),
      Err(e) => {
        #[allow(unused_mut)]
        let mut texts = vec![project::str_json(&e.to_string())];
        #[cfg(feature = "serde")]
        texts.push(match nrbf::from_slice::<serde::de::IgnoredAny>(input) {
          Ok(_) => "\"\"".to_string(),
          Err(e) => project::str_json(&e.to_string()),
        });
        format!("{{\"r\":\"err\",\"v\":[{}]}}", texts.join(","))
      },
    },
    // What the call took, and how many values it gave.
    "cost" => {
      let (r, us, kib) = cost::measure(|| RemotingMessage::parse(input));
      match r {
        Ok(m) => format!("{{\"r\":\"ok\",\"v\":[{},{us},{kib}]}}", project::count(&m)),
        Err(_) => format!("{{\"r\":\"err\",\"v\":[0,{us},{kib}]}}"),
      }
    },
    #[cfg(feature = "serde")]
    "cost_ignored" => {
      let (r, us, kib) = cost::measure(|| nrbf::from_slice::<serde::de::IgnoredAny>(input));
      format!("{{\"r\":\"{}\",\"v\":[0,{us},{kib}]}}", if r.is_ok() { "ok" } else { "err" })
    },
    "prefixes" => {
      let accepted: Vec<_> = (0..input.len()).filter(|&n| RemotingMessage::parse(&input[..n]).is_ok()).collect();
      format!("{{\"r\":\"ok\",\"v\":{:?}}}", accepted)
    },
    "extensions" => {
      let mut accepted = vec![];
      let mut longer = input.to_vec();
      for b in 0..=255u8 {
        longer.push(b);
        if RemotingMessage::parse(&longer).is_ok() {
          accepted.push(b as usize);
        }
        longer.pop();
      }
      for (i, tail) in [&[11u8, 11][..], &[10, 11], &[13, 0, 11], &[9, 1, 0, 0, 0, 11], &[6, 255, 255, 255, 127, 0, 11], &[2, 255, 255, 255, 127, 0, 0, 0, 0, 0, 11], input, &input[..17], &[0; 64], &[0; 4096]]
        .iter()
        .enumerate()
      {
        longer.extend_from_slice(tail);
        if RemotingMessage::parse(&longer).is_ok() {
          accepted.push(1000 + i);
        }
        longer.truncate(input.len());
      }
      format!("{{\"r\":\"ok\",\"v\":{:?}}}", accepted)
    },
    _ => {
      #[cfg(feature = "serde")]
      {
        targets::run(mode, input)
      }
      #[cfg(not(feature = "serde"))]
      {
        "{\"r\":\"unsupported\"}".to_string()
      }
    },
  }
}

fn guarded(mode: &str, bytes: &[u8]) -> String {
  match catch_unwind(AssertUnwindSafe(|| run_case(mode, bytes))) {
    Ok(s) => s,
    Err(p) => {
      let msg =
        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
      format!("{{\"r\":\"panic\",\"e\":{}}}", project::str_json(&msg))
    },
  }
}

/// Calls of several threads, each on its own copies of the bytes. An event is recorded when its call returns.
fn session(cases: &[(String, Vec<u8>)], out: &mut std::fs::File, threads: usize, rounds: usize) {
  let events = std::sync::Mutex::new(Vec::new());
  let step = |n: usize| [1, 7, 11, 13, 17, 19, 23, 29].into_iter().cycle().skip(n).find(|s| cases.len() % s != 0 || *s == 1).unwrap();
  std::thread::scope(|scope| {
    for t in 0..threads {
      let events = &events;
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn_scoped(scope, move || {
          for r in 0..rounds {
            let s = step(t + r);
            for n in 0..cases.len() {
              let i = if (t + r) % 2 == 0 { (n * s + t) % cases.len() } else { cases.len() - 1 - (n * s + t) % cases.len() };
              let (mode, bytes) = &cases[i];
              // Different addresses, different neighbours.
              let shift = (t * 5 + r * 3 + n) % 16;
              let mut buf = vec![[0u8, 255, 11, 10][(t + r) % 4]; bytes.len() + 32];
              buf[shift..shift + bytes.len()].copy_from_slice(bytes);
              let o = guarded(mode, &buf[shift..shift + bytes.len()]);
              events.lock().unwrap().push((t, i, o));
            }
          }
        })
        .expect("thread");
    }
  });
  for (t, i, o) in events.into_inner().unwrap() {
    writeln!(out, "{t} {i} {o}").expect("write OUT");
  }
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let input = BufReader::new(std::fs::File::open(&args[1]).expect("open IN"));
  let mut out = OpenOptions::new().create(true).append(true).open(&args[2]).expect("open OUT");

  std::panic::set_hook(Box::new(|_| {}));

  let cases = input.lines().map(|line| {
    let line = line.expect("read IN");
    let (mode, hex) = line.split_once(' ').unwrap_or((line.as_str(), ""));
    (mode.to_string(), input_bytes(hex))
  });

  if args.get(3).map(|s| s == "session").unwrap_or(false) {
    let cases: Vec<_> = cases.collect();
    session(&cases, &mut out, args[4].parse().unwrap(), args[5].parse().unwrap());
    return
  }

  let skip: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
  for (mode, bytes) in cases.skip(skip) {
    let res = guarded(&mode, &bytes);
    out.write_all(res.as_bytes()).and_then(|_| out.write_all(b"\n")).expect("write OUT");
  }
}
