//! Projection of the public result types onto JSON.
//!
//! Scalars are shown as the little-endian bytes of the value the API returned, strings as their UTF-8
//! bytes; long byte strings are run-length encoded. The members of an object are sorted by name.

use std::fmt::Write;

use nrbf::{
  value::{DateTimeKind, Object},
  MethodCall, MethodReturn, RemotingMessage, Value,
};

fn kind_name(k: Option<DateTimeKind>) -> &'static str {
  match k {
    None => "none",
    Some(DateTimeKind::Utc) => "utc",
    Some(DateTimeKind::Local) => "local",
  }
}

pub fn str_json(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      c if (c as u32) < 0x20 || c as u32 > 0x7e => {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
          write!(o, "\\u{:04x}", u).unwrap();
        }
      },
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

pub fn bytes_json(b: &[u8]) -> String {
  let mut o = String::with_capacity(b.len() * 4 + 2);
  o.push('[');
  for (i, x) in b.iter().enumerate() {
    if i > 0 {
      o.push(',');
    }
    write!(o, "{}", x).unwrap();
  }
  o.push(']');
  o
}

/// The canonical form of a text: its bytes, or `[-1, length, byte, count, ...]` (runs) beyond 96 bytes.
pub fn flat(s: &str) -> Vec<i64> {
  let b = s.as_bytes();
  if b.len() <= 96 {
    return b.iter().map(|&x| x as i64).collect()
  }
  let mut o = vec![-1, b.len() as i64];
  let mut i = 0;
  while i < b.len() {
    let mut j = i;
    while j < b.len() && b[j] == b[i] {
      j += 1;
    }
    o.push(b[i] as i64);
    o.push((j - i) as i64);
    i = j;
  }
  o
}

pub fn string_json(s: &str) -> String {
  let mut o = String::from("[");
  for (i, x) in flat(s).into_iter().enumerate() {
    if i > 0 {
      o.push(',');
    }
    write!(o, "{}", x).unwrap();
  }
  o.push(']');
  o
}

/// The text of a decimal. The only public accessor needs serde; to compare builds with and without it, both show
/// the debug format.
fn decimal_text(d: &nrbf::value::Decimal) -> String {
  #[cfg(feature = "serde")]
  {
    use serde::Deserialize;
    if std::env::var_os("NRBF_DEBUG_DECIMALS").is_none() {
      return String::deserialize(RemotingMessage::Value(Value::Decimal(d.clone()))).unwrap_or_else(|e| format!("error: {e}"))
    }
  }
  format!("{:?}", d)
}

fn prim(o: &mut String, k: &str, b: &[u8]) {
  write!(o, "{{\"k\":\"{}\",\"b\":{}}}", k, bytes_json(b)).unwrap();
}

pub fn value_json(o: &mut String, v: &Value<'_>) {
  match v {
    Value::Object(Object { class, library, members }) => {
      write!(o, "{{\"k\":\"Object\",\"c\":{},\"l\":[", string_json(class)).unwrap();
      if let Some(l) = library {
        o.push_str(&string_json(l));
      }
      o.push_str("],\"m\":[");
      let mut names: Vec<_> = members.iter().collect();
      names.sort_by_key(|(n, _)| flat(n));
      for (i, (n, v)) in names.into_iter().enumerate() {
        if i > 0 {
          o.push(',');
        }
        write!(o, "[{},", string_json(n)).unwrap();
        value_json(o, v);
        o.push(']');
      }
      o.push_str("]}");
    },
    Value::Array(vs) => {
      o.push_str("{\"k\":\"Array\",\"v\":");
      values_json(o, vs);
      o.push('}');
    },
    Value::Boolean(v) => prim(o, "Boolean", &[*v as u8]),
    Value::Byte(v) => prim(o, "Byte", &[*v]),
    Value::Char(v) => prim(o, "Char", &(*v as u32).to_le_bytes()),
    Value::Decimal(d) => {
      write!(o, "{{\"k\":\"Decimal\",\"d\":{}}}", bytes_json(decimal_text(d).as_bytes())).unwrap();
    },
    Value::Double(v) => prim(o, "Double", &v.to_bits().to_le_bytes()),
    Value::Int16(v) => prim(o, "Int16", &v.to_le_bytes()),
    Value::Int32(v) => prim(o, "Int32", &v.to_le_bytes()),
    Value::Int64(v) => prim(o, "Int64", &v.to_le_bytes()),
    Value::SByte(v) => prim(o, "SByte", &v.to_le_bytes()),
    Value::Single(v) => prim(o, "Single", &v.to_bits().to_le_bytes()),
    Value::TimeSpan(v) => prim(o, "TimeSpan", &v.value().to_le_bytes()),
    Value::DateTime(v) => {
      write!(
        o,
        "{{\"k\":\"DateTime\",\"b\":{},\"z\":\"{}\"}}",
        bytes_json(&v.ticks().to_le_bytes()),
        kind_name(v.kind())
      )
      .unwrap();
    },
    Value::UInt16(v) => prim(o, "UInt16", &v.to_le_bytes()),
    Value::UInt32(v) => prim(o, "UInt32", &v.to_le_bytes()),
    Value::UInt64(v) => prim(o, "UInt64", &v.to_le_bytes()),
    Value::String(s) => {
      write!(o, "{{\"k\":\"String\",\"s\":{}}}", string_json(s)).unwrap();
    },
    Value::Null => o.push_str("{\"k\":\"Null\"}"),
  }
}

fn values_json(o: &mut String, vs: &[Value<'_>]) {
  o.push('[');
  for (i, v) in vs.iter().enumerate() {
    if i > 0 {
      o.push(',');
    }
    value_json(o, v);
  }
  o.push(']');
}

fn opt_str(s: &Option<&str>) -> String {
  match s {
    Some(s) => format!("[{}]", string_json(s)),
    None => "[]".to_string(),
  }
}

fn opt_args(o: &mut String, a: &Option<Vec<Value<'_>>>) {
  o.push('[');
  if let Some(a) = a {
    values_json(o, a);
  }
  o.push(']');
}

pub fn message_json(m: &RemotingMessage<'_>) -> String {
  let mut o = String::new();
  match m {
    RemotingMessage::MethodCall(MethodCall { method_name, type_name, call_context, args }) => {
      write!(
        o,
        "{{\"k\":\"MethodCall\",\"n\":{},\"t\":{},\"x\":{},\"a\":",
        string_json(method_name),
        string_json(type_name),
        opt_str(call_context)
      )
      .unwrap();
      opt_args(&mut o, args);
      o.push('}');
    },
    RemotingMessage::MethodReturn(MethodReturn { return_value, call_context, args }) => {
      o.push_str("{\"k\":\"MethodReturn\",\"ret\":[");
      if let Some(v) = return_value {
        value_json(&mut o, v);
      }
      write!(o, "],\"x\":{},\"a\":", opt_str(call_context)).unwrap();
      opt_args(&mut o, args);
      o.push('}');
    },
    RemotingMessage::Value(v) => {
      o.push_str("{\"k\":\"Value\",\"val\":");
      value_json(&mut o, v);
      o.push('}');
    },
  }
  o
}

fn count_value(v: &Value<'_>) -> usize {
  1 + match v {
    Value::Array(vs) => count_values(vs),
    Value::Object(o) => o.members.values().map(count_value).sum(),
    _ => 0,
  }
}

fn count_values(vs: &[Value<'_>]) -> usize {
  vs.iter().map(count_value).sum()
}

/// How many values a message is made of.
pub fn count(m: &RemotingMessage<'_>) -> usize {
  match m {
    RemotingMessage::MethodCall(c) => c.args.as_deref().map_or(0, count_values),
    RemotingMessage::MethodReturn(r) => r.return_value.as_ref().map_or(0, count_value) + r.args.as_deref().map_or(0, count_values),
    RemotingMessage::Value(v) => count_value(v),
  }
}
