//! The menu of target types for `from_slice`, and the projection of what they end up holding.

use std::{borrow::Cow, collections::HashMap, fmt, fmt::Write};

use nrbf::RemotingMessage;
use serde::{
  de::{self, DeserializeOwned, IgnoredAny, MapAccess, SeqAccess, Visitor},
  Deserialize, Deserializer,
};

use crate::project::{bytes_json, flat, str_json, string_json};

pub trait Proj {
  fn proj(&self) -> String;
}

fn int16(v: i128) -> String {
  format!("{{\"k\":\"int\",\"b\":{}}}", bytes_json(&v.to_le_bytes()))
}

macro_rules! proj_int { ($($t:ty),*) => { $(impl Proj for $t { fn proj(&self) -> String { int16(*self as i128) } })* } }
proj_int!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128);

impl Proj for bool {
  fn proj(&self) -> String {
    format!("{{\"k\":\"bool\",\"b\":[{}]}}", *self as u8)
  }
}
impl Proj for f32 {
  fn proj(&self) -> String {
    format!("{{\"k\":\"f32\",\"b\":{}}}", bytes_json(&self.to_bits().to_le_bytes()))
  }
}
impl Proj for f64 {
  fn proj(&self) -> String {
    format!("{{\"k\":\"f64\",\"b\":{}}}", bytes_json(&self.to_bits().to_le_bytes()))
  }
}
impl Proj for char {
  fn proj(&self) -> String {
    format!("{{\"k\":\"char\",\"b\":{}}}", bytes_json(&(*self as u32).to_le_bytes()))
  }
}
fn text(s: &str) -> String {
  format!("{{\"k\":\"str\",\"s\":{}}}", string_json(s))
}
impl Proj for String {
  fn proj(&self) -> String {
    text(self)
  }
}
impl Proj for &str {
  fn proj(&self) -> String {
    text(self)
  }
}
impl Proj for () {
  fn proj(&self) -> String {
    "{\"k\":\"unit\"}".into()
  }
}
impl Proj for IgnoredAny {
  fn proj(&self) -> String {
    ().proj()
  }
}
impl<T: Proj> Proj for Option<T> {
  fn proj(&self) -> String {
    match self {
      None => "{\"k\":\"none\"}".into(),
      Some(v) => format!("{{\"k\":\"some\",\"e\":{}}}", v.proj()),
    }
  }
}
fn seq(items: Vec<String>) -> String {
  format!("{{\"k\":\"seq\",\"v\":[{}]}}", items.join(","))
}
impl<T: Proj> Proj for Vec<T> {
  fn proj(&self) -> String {
    seq(self.iter().map(|v| v.proj()).collect())
  }
}
impl<T: Proj, const N: usize> Proj for [T; N] {
  fn proj(&self) -> String {
    seq(self.iter().map(|v| v.proj()).collect())
  }
}
impl<A: Proj, B: Proj> Proj for (A, B) {
  fn proj(&self) -> String {
    seq(vec![self.0.proj(), self.1.proj()])
  }
}
impl<A: Proj, B: Proj, C: Proj> Proj for (A, B, C) {
  fn proj(&self) -> String {
    seq(vec![self.0.proj(), self.1.proj(), self.2.proj()])
  }
}
impl<A: Proj> Proj for (A,) {
  fn proj(&self) -> String {
    seq(vec![self.0.proj()])
  }
}
impl Proj for &[u8] {
  fn proj(&self) -> String {
    match std::str::from_utf8(self) {
      Ok(s) => format!("{{\"k\":\"bytes\",\"s\":{}}}", string_json(s)),
      Err(_) => "{\"k\":\"no text\"}".into(),
    }
  }
}
impl Proj for Cow<'_, str> {
  fn proj(&self) -> String {
    text(self)
  }
}
impl<T: Proj> Proj for Box<T> {
  fn proj(&self) -> String {
    (**self).proj()
  }
}
fn map(mut entries: Vec<(Vec<i64>, String, String)>) -> String {
  entries.sort();
  let mut o = String::from("{\"k\":\"map\",\"m\":[");
  for (i, (_, n, v)) in entries.iter().enumerate() {
    if i > 0 {
      o.push(',');
    }
    write!(o, "[{},{}]", n, v).unwrap();
  }
  o.push_str("]}");
  o
}
fn entry(n: &str, v: String) -> (Vec<i64>, String, String) {
  (flat(n), string_json(n), v)
}
impl<T: Proj> Proj for HashMap<String, T> {
  fn proj(&self) -> String {
    map(self.iter().map(|(n, v)| entry(n, v.proj())).collect())
  }
}
impl<T: Proj> Proj for HashMap<&str, T> {
  fn proj(&self) -> String {
    map(self.iter().map(|(n, v)| entry(n, v.proj())).collect())
  }
}

impl<T: Proj> Proj for HashMap<char, T> {
  fn proj(&self) -> String {
    map(self.iter().map(|(n, v)| entry(&n.to_string(), v.proj())).collect())
  }
}

/// Keeps whatever the deserializer shows to a visitor.
pub struct Any(String);

impl Proj for Any {
  fn proj(&self) -> String {
    self.0.clone()
  }
}

impl<'de> Deserialize<'de> for Any {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V;
    macro_rules! visit { ($($f:ident: $t:ty),*) => { $(fn $f<E: de::Error>(self, v: $t) -> Result<Any, E> { Ok(Any(v.proj())) })* } }
    impl<'de> Visitor<'de> for V {
      type Value = Any;
      fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
      }
      visit!(visit_bool: bool, visit_i8: i8, visit_i16: i16, visit_i32: i32, visit_i64: i64, visit_i128: i128,
        visit_u8: u8, visit_u16: u16, visit_u32: u32, visit_u64: u64, visit_u128: u128, visit_f32: f32, visit_f64: f64,
        visit_char: char, visit_str: &str, visit_string: String);
      fn visit_unit<E>(self) -> Result<Any, E> {
        Ok(Any(().proj()))
      }
      fn visit_none<E>(self) -> Result<Any, E> {
        Ok(Any(None::<()>.proj()))
      }
      fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        Ok(Any(Some(Any::deserialize(d)?).proj()))
      }
      fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        Any::deserialize(d)
      }
      fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut items = vec![];
        while let Some(v) = a.next_element::<Any>()? {
          items.push(v.0);
        }
        Ok(Any(seq(items)))
      }
      fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut entries = vec![];
        while let Some((n, v)) = a.next_entry::<String, Any>()? {
          entries.push(entry(&n, v.0));
        }
        Ok(Any(map(entries)))
      }
    }
    d.deserialize_any(V)
  }
}

// Fields are declared in the order of their names.
macro_rules! proj_struct {
  ($name:ident { $($f:ident : $t:ty),* }) => {
    #[derive(Deserialize)]
    struct $name { $($f: $t),* }
    impl Proj for $name {
      fn proj(&self) -> String { map(vec![$(entry(stringify!($f), self.$f.proj())),*]) }
    }
  };
}
proj_struct!(AB { a: i32, b: String });
proj_struct!(OptAB { a: Option<i32>, b: Option<Any> });
proj_struct!(Nest { inner: AB, z: Vec<i64> });
proj_struct!(Anys { a: Any, b: Any, c: Any });
proj_struct!(ListRaw { _items: Any, _size: i32, _version: i32 });
proj_struct!(BoxRaw { m_value: Any });
proj_struct!(OptNest { a: Option<AB>, n: Option<Box<OptNest>> });
proj_struct!(Empty {});

proj_struct!(Wide {
  bo: Option<bool>, by: Option<u8>, ch: Option<char>, da: Option<i64>, de: Option<String>, dou: Option<f64>, i1: Option<i16>, i3: Option<i32>, i6: Option<i64>,
  nu: Option<()>, sb: Option<i8>, si: Option<f32>, st: Option<String>, ti: Option<i64>, u1: Option<u16>, u3: Option<u32>, u6: Option<u64>
});

#[derive(Deserialize)]
struct Unit;
impl Proj for Unit {
  fn proj(&self) -> String {
    ().proj()
  }
}

#[derive(Deserialize)]
struct Pair(Any, Any);
impl Proj for Pair {
  fn proj(&self) -> String {
    seq(vec![self.0.proj(), self.1.proj()])
  }
}

#[derive(Deserialize)]
struct Strs<'a> {
  a: &'a str,
  #[serde(borrow)]
  b: Option<&'a str>,
}
impl Proj for Strs<'_> {
  fn proj(&self) -> String {
    map(vec![entry("a", self.a.proj()), entry("b", self.b.proj())])
  }
}

#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
struct StrictAB {
  a: i32,
  b: String,
}
impl Proj for StrictAB {
  fn proj(&self) -> String {
    map(vec![entry("a", self.a.proj()), entry("b", self.b.proj())])
  }
}

#[derive(Deserialize)]
struct DefaultAB {
  #[serde(default)]
  a: i32,
  #[serde(default)]
  b: String,
}
impl Proj for DefaultAB {
  fn proj(&self) -> String {
    map(vec![entry("a", self.a.proj()), entry("b", self.b.proj())])
  }
}

#[derive(Deserialize)]
struct FlatA {
  a: i32,
  #[serde(flatten)]
  others: HashMap<String, Any>,
}
impl Proj for FlatA {
  fn proj(&self) -> String {
    format!("{{\"k\":\"flat\",\"a\":{},\"o\":{}}}", self.a.proj(), self.others.proj())
  }
}

#[derive(Deserialize)]
#[serde(untagged)]
enum Untagged {
  I(i64),
  S(String),
  L(Vec<Any>),
  M(HashMap<String, Any>),
  U,
}
impl Proj for Untagged {
  fn proj(&self) -> String {
    match self {
      Self::I(v) => v.proj(),
      Self::S(v) => v.proj(),
      Self::L(v) => v.proj(),
      Self::M(v) => v.proj(),
      Self::U => ().proj(),
    }
  }
}

/// Takes the first element, and does not ask for another.
struct SeqHead(String);
impl Proj for SeqHead {
  fn proj(&self) -> String {
    self.0.clone()
  }
}
impl<'de> Deserialize<'de> for SeqHead {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V;
    impl<'de> Visitor<'de> for V {
      type Value = SeqHead;
      fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
      }
      fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<SeqHead, A::Error> {
        Ok(SeqHead(seq(a.next_element::<Any>()?.into_iter().map(|v| v.0).collect())))
      }
    }
    d.deserialize_seq(V)
  }
}

/// Takes the first entry, and does not ask for another.
struct MapHead(String);
impl Proj for MapHead {
  fn proj(&self) -> String {
    self.0.clone()
  }
}
impl<'de> Deserialize<'de> for MapHead {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V;
    impl<'de> Visitor<'de> for V {
      type Value = MapHead;
      fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
      }
      fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<MapHead, A::Error> {
        Ok(MapHead(map(a.next_entry::<String, Any>()?.into_iter().map(|(n, v)| entry(&n, v.0)).collect())))
      }
    }
    d.deserialize_map(V)
  }
}

/// Asks again after the end of a sequence.
struct SeqPast(String);
impl Proj for SeqPast {
  fn proj(&self) -> String {
    self.0.clone()
  }
}
impl<'de> Deserialize<'de> for SeqPast {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V;
    impl<'de> Visitor<'de> for V {
      type Value = SeqPast;
      fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
      }
      fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<SeqPast, A::Error> {
        let mut items = vec![];
        let mut ends = 0;
        while ends < 3 {
          match a.next_element::<Any>()? {
            Some(v) => items.push(v.0),
            None => ends += 1,
          }
        }
        Ok(SeqPast(seq(items)))
      }
    }
    d.deserialize_any(V)
  }
}

fn result<T: Proj>(r: Result<T, de::value::Error>) -> String {
  match r {
    Ok(v) => format!("{{\"r\":\"ok\",\"v\":{}}}", v.proj()),
    Err(e) => format!("{{\"r\":\"err\",\"e\":{}}}", str_json(&e.to_string())),
  }
}

fn both<'i, T: Deserialize<'i> + Proj>(input: &'i [u8], why: bool) -> String {
  if why {
    return match nrbf::from_slice::<T>(input) {
      Ok(_) => "{\"r\":\"ok\",\"v\":[]}".to_string(),
      Err(e) => {
        let parsing = RemotingMessage::parse(input).err().map(|e| e.to_string());
        let e = e.to_string();
        format!("{{\"r\":\"err\",\"v\":{},\"e\":{}}}", crate::why::claim(&e, parsing.as_deref()), str_json(&e))
      },
    }
  }
  let a = result(nrbf::from_slice::<T>(input));
  // The message itself is a deserializer, too.
  if let Ok(message) = RemotingMessage::parse(input) {
    let b = result(T::deserialize(message));
    if a.starts_with("{\"r\":\"ok\"") != b.starts_with("{\"r\":\"ok\"") || (a.starts_with("{\"r\":\"ok\"") && a != b) {
      return format!("{{\"r\":\"disagree\",\"e\":{}}}", str_json(&format!("from_slice {a} but deserialize {b}")))
    }
  }
  a
}

#[allow(dead_code)]
fn owned<T: DeserializeOwned>() {}

macro_rules! menu {
  ($mode:expr, $input:expr, $why:expr; $($name:literal => $t:ty),* $(,)?) => {
    match $mode {
      $($name => both::<$t>($input, $why),)*
      m => panic!("unknown mode {m}"),
    }
  };
}

pub fn run(mode: &str, input: &[u8]) -> String {
  // `why_<target>`: what the error says.
  let (why, mode) = match mode.strip_prefix("why_") {
    Some(mode) => (true, mode),
    None => (false, mode),
  };
  menu!(mode, input, why;
    "bool" => bool, "i8" => i8, "i16" => i16, "i32" => i32, "i64" => i64, "i128" => i128,
    "u8" => u8, "u16" => u16, "u32" => u32, "u64" => u64, "u128" => u128, "f32" => f32, "f64" => f64,
    "char" => char, "string" => String, "str" => &str, "unit" => (), "any" => Any, "ignored" => IgnoredAny,
    "opt_i32" => Option<i32>, "opt_any" => Option<Any>, "opt_string" => Option<String>, "opt_opt_any" => Option<Option<Any>>,
    "opt_bool" => Option<bool>, "opt_unit" => Option<()>, "opt_vec_any" => Option<Vec<Any>>, "opt_map_any" => Option<HashMap<String, Any>>,
    "vec_any" => Vec<Any>, "vec_i32" => Vec<i32>, "vec_u8" => Vec<u8>, "vec_i64" => Vec<i64>, "vec_str" => Vec<&str>,
    "vec_string" => Vec<String>, "vec_opt_i32" => Vec<Option<i32>>, "vec_opt_string" => Vec<Option<String>>, "vec_opt_any" => Vec<Option<Any>>,
    "vec_vec_any" => Vec<Vec<Any>>, "vec_vec_i32" => Vec<Vec<i32>>, "vec_ab" => Vec<AB>, "vec_optab" => Vec<OptAB>, "vec_ignored" => Vec<IgnoredAny>,
    "arr1_any" => [Any; 1], "arr2_any" => [Any; 2], "arr3_any" => [Any; 3], "arr2_i32" => [i32; 2], "arr3_i32" => [i32; 3],
    "tup_i32_string" => (i32, String), "tup_any_opt_any" => (Any, Option<Any>), "tup3" => (Any, Option<i32>, Any),
    "map_any" => HashMap<String, Any>, "map_i32" => HashMap<String, i32>, "map_opt_i32" => HashMap<String, Option<i32>>,
    "map_str_any" => HashMap<&str, Any>, "map_vec_any" => HashMap<String, Vec<Any>>, "map_ignored" => HashMap<String, IgnoredAny>,
    "ab" => AB, "optab" => OptAB, "nest" => Nest, "anys" => Anys, "listraw" => ListRaw, "boxraw" => BoxRaw, "optnest" => OptNest,
    "wide" => Wide, "vec_wide" => Vec<Wide>, "unit_struct" => Unit, "pair" => Pair, "strs" => Strs<'_>, "strict" => StrictAB, "default" => DefaultAB, "flat" => FlatA,
    "untagged" => Untagged, "vec_untagged" => Vec<Untagged>, "seqhead" => SeqHead, "maphead" => MapHead, "seqpast" => SeqPast, "vec_seqhead" => Vec<SeqHead>, "map_maphead" => HashMap<String, MapHead>,
    "bytes" => &[u8], "vec_bytes" => Vec<&[u8]>, "cow" => Cow<'_, str>, "arr0_any" => [Any; 0], "tup1" => (Any,), "vec_bool" => Vec<bool>, "vec_char" => Vec<char>, "vec_f64" => Vec<f64>,
    "vec_f32" => Vec<f32>, "vec_u64" => Vec<u64>, "vec_unit" => Vec<()>, "map_string" => HashMap<String, String>, "map_char" => HashMap<char, Any>, "vec_map_any" => Vec<HashMap<String, Any>>,
    "map_map_any" => HashMap<String, HashMap<String, Any>>, "opt_vec_opt_i32" => Option<Vec<Option<i32>>>, "vec_opt_ab" => Vec<Option<AB>>, "map_untagged" => HashMap<String, Untagged>,
    "vec_strict" => Vec<StrictAB>, "vec_default" => Vec<DefaultAB>, "opt_seqpast" => Option<SeqPast>, "map_ab" => HashMap<String, AB>,
    "opt_ab" => Option<AB>, "opt_optab" => Option<OptAB>, "empty" => Empty, "box_i64" => Box<i64>,
  )
}
