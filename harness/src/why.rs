//! What the text of a deserialization error claims.

use std::fmt::Write;

use crate::project::{bytes_json, string_json};

fn small(n: u128) -> u128 {
  n.min(i32::MAX as u128)
}

fn int16(v: i128) -> String {
  bytes_json(&v.to_le_bytes())
}

/// A text in the notation of `Debug`, and what follows it.
fn unquote(s: &str) -> Option<(String, &str)> {
  let mut o = String::new();
  let mut rest = s.strip_prefix('"')?.chars();
  loop {
    match rest.next()? {
      '"' => return Some((o, rest.as_str())),
      '\\' => match rest.next()? {
        'n' => o.push('\n'),
        'r' => o.push('\r'),
        't' => o.push('\t'),
        '0' => o.push('\0'),
        'u' => {
          let (hex, tail) = rest.as_str().strip_prefix('{')?.split_once('}')?;
          o.push(char::from_u32(u32::from_str_radix(hex, 16).ok()?)?);
          rest = tail.chars();
        },
        c => o.push(c),
      },
      c => o.push(c),
    }
  }
}

/// What is called unexpected.
fn unexpected(s: &str) -> Option<String> {
  if let Some(s) = s.strip_prefix("string ") {
    let (text, rest) = unquote(s)?;
    rest.starts_with(", expected ").then_some(())?;
    return Some(format!("{{\"k\":\"str\",\"s\":{}}}", string_json(&text)));
  }
  if let Some(s) = s.strip_prefix("character `") {
    let c = s.chars().next()?;
    s[c.len_utf8()..].starts_with("`, expected ").then_some(())?;
    return Some(format!("{{\"k\":\"char\",\"b\":{}}}", bytes_json(&(c as u32).to_le_bytes())));
  }
  let (what, _) = s.split_once(", expected ")?;
  if let Some(v) = what.strip_prefix("boolean `") {
    return Some(format!("{{\"k\":\"bool\",\"b\":[{}]}}", (v == "true`") as u8));
  }
  if let Some(v) = what.strip_prefix("integer `") {
    return Some(format!("{{\"k\":\"int\",\"b\":{}}}", int16(v.split_once('`')?.0.parse().ok()?)));
  }
  if let Some(v) = what.strip_prefix("floating point `") {
    let v: f64 = v.strip_suffix('`')?.parse().ok()?;
    let mut o = format!("{{\"k\":\"float\",\"nan\":{},\"b8\":{},\"b4\":", v.is_nan(), bytes_json(&v.to_bits().to_le_bytes()));
    let f = v as f32;
    if (f as f64).to_bits() == v.to_bits() {
      write!(o, "{}}}", bytes_json(&f.to_bits().to_le_bytes())).unwrap();
    } else {
      o.push_str("[]}");
    }
    return Some(o);
  }
  let k = match what {
    "unit value" | "Option value" => "unit",
    "sequence" => "seq",
    "map" => "map",
    "method call" => "call",
    "method return" => "return",
    // A value of this reader is never any of these.
    "byte array" | "newtype struct" | "enum" | "unit variant" | "newtype variant" | "tuple variant" | "struct variant" => "never",
    _ => return None,
  };
  Some(format!("{{\"k\":\"{k}\"}}"))
}

fn name(kind: &str, s: &str) -> Option<String> {
  let s = match kind {
    "unknown" => s.rsplit_once("`, expected ").or(s.rsplit_once("`, there are no fields"))?.0,
    _ => s.strip_suffix('`')?,
  };
  Some(format!("{{\"k\":\"{kind}\",\"s\":{}}}", string_json(s)))
}

fn length(s: &str) -> Option<String> {
  let (n, expected) = s.split_once(", expected ")?;
  let n = bytes_json(&n.parse::<u64>().ok()?.to_le_bytes());
  for place in ["array", "list", "map"] {
    for word in [" elements in ", " element in "] {
      if let Some(k) = expected.strip_suffix(place).and_then(|s| s.strip_suffix(word)) {
        return Some(format!("{{\"k\":\"length\",\"n\":{n},\"x\":{},\"in\":\"{place}\"}}", small(k.parse().ok()?)));
      }
    }
  }
  Some(format!("{{\"k\":\"length\",\"n\":{n},\"x\":0,\"in\":\"target\"}}"))
}

/// The claim of a text, `parsing` is the text of the error of `RemotingMessage::parse`, if there is one.
pub fn claim(text: &str, parsing: Option<&str>) -> String {
  let found = if let Some(e) = text.strip_prefix("parsing error: ") {
    Some(format!("{{\"k\":\"parsing\",\"same\":{}}}", parsing == Some(e)))
  } else if let Some(s) = text.strip_prefix("invalid type: ").or(text.strip_prefix("invalid value: ")) {
    unexpected(s).map(|u| format!("{{\"k\":\"unexpected\",\"u\":{u}}}"))
  } else if let Some(s) = text.strip_prefix("invalid length ") {
    length(s)
  } else if let Some(s) = text.strip_prefix("missing field `") {
    name("missing", s)
  } else if let Some(s) = text.strip_prefix("unknown field `") {
    name("unknown", s)
  } else if let Some(s) = text.strip_prefix("duplicate field `") {
    name("duplicate", s)
  } else {
    text.strip_prefix("invalid system class: ").map(|s| format!("{{\"k\":\"system class\",\"s\":{}}}", string_json(s)))
  };
  found.unwrap_or_else(|| "{\"k\":\"other\"}".to_string())
}
