//! What a configuration is, seen only through the public accessors.

use mc_core::guarded;
use oni_comb_hocon_rs::model::{Config, ConfigFactory, ConfigValue};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
  Null,
  Bool(bool),
  Str(String),
  /// mantissa and number of decimal places, without trailing zeros
  Num(i128, u32),
  /// nanoseconds
  Dur(u128),
  Arr(Vec<V>),
  Obj(BTreeMap<String, V>),
}

pub fn num(mut m: i128, mut scale: u32) -> V {
  while scale > 0 && m % 10 == 0 {
    m /= 10;
    scale -= 1;
  }
  V::Num(m, scale)
}

pub fn int(n: i128) -> V {
  V::Num(n, 0)
}

pub fn s(t: &str) -> V {
  V::Str(t.to_string())
}

pub fn obj(members: &[(&str, V)]) -> V {
  V::Obj(members.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

/// Exactly one accessor answers; its answer is the value.
pub fn view(cv: &ConfigValue) -> Result<V, String> {
  if cv.latest() as *const _ != cv as *const _ {
    return Err(format!("what was read is not the value in force: {:?}", cv));
  }
  let mut found = vec![];
  if cv.is_null() {
    found.push(V::Null);
  }
  if let Some(b) = cv.as_bool() {
    found.push(V::Bool(b));
  }
  if let Some(t) = cv.as_string() {
    found.push(s(t));
  }
  if let Some(d) = cv.as_number() {
    found.push(num(d.mantissa(), d.scale()));
  }
  if let Some(d) = cv.as_config_duration_value() {
    let d = d.to_std_duration().map_err(|e| format!("no span: {}", e))?;
    found.push(V::Dur(d.as_nanos()));
  }
  if let Some(a) = cv.as_array() {
    found.push(V::Arr(a.iter().map(view).collect::<Result<_, _>>()?));
  }
  if let Some(o) = cv.as_object() {
    let mut m = BTreeMap::new();
    if cv.contains("no such key") && !o.contains_key("no such key") {
      return Err("contains a key that it does not have".into());
    }
    for (k, v) in o {
      if !cv.contains(k) {
        return Err(format!("does not contain its own key {:?}", k));
      }
      m.insert(k.clone(), view(v)?);
    }
    found.push(V::Obj(m));
  }
  let same_array = cv.as_config_array_value().map(|a| a.as_array().as_ptr()) == cv.as_array().map(|a| a.as_ptr());
  if !same_array || cv.as_config_object_value().map(|o| o.as_map() as *const _) != cv.as_object().map(|o| o as *const _) {
    return Err(format!("two ways to read the array or object differ: {:?}", cv));
  }
  match found.len() {
    1 => Ok(found.pop().unwrap()),
    0 => Err(format!("no accessor reads {:?}", cv)),
    _ => Err(format!("several accessors read {:?}: {:?}", cv, found)),
  }
}

pub fn load(text: &str) -> Result<Config, String> {
  ConfigFactory::new().parse_from_string(text).map_err(|e| format!("rejected: {:?}", e))
}

/// The whole configuration, cross-checked against reading it path by path.
pub fn load_view(text: &str) -> Result<V, String> {
  let c = load(text)?;
  let v = view(c.to_config_value())?;
  paths_agree(&c, &v, "")?;
  Ok(v)
}

fn is_plain(k: &str) -> bool {
  !k.is_empty() && k.chars().all(|c| c.is_ascii_alphabetic() || c == '-' || c == '_')
}

fn paths_agree(c: &Config, v: &V, prefix: &str) -> Result<(), String> {
  if let V::Obj(m) = v {
    for (k, w) in m {
      if !is_plain(k) {
        continue;
      }
      let p = format!("{}{}", prefix, k);
      let got = c.get_value(&p).map(view).transpose()?;
      if got.as_ref() != Some(w) {
        return Err(format!("get_value({:?}) is {:?}, the object holds {:?}", p, got, w));
      }
      if !c.has_path(&p) {
        return Err(format!("has_path({:?}) is false although it reads {:?}", p, w));
      }
      paths_agree(c, w, &format!("{}.", p))?;
    }
  }
  Ok(())
}

pub fn at<'a>(v: &'a V, path: &str) -> Option<&'a V> {
  path.split('.').try_fold(v, |v, k| match v {
    V::Obj(m) => m.get(k),
    _ => None,
  })
}

/// Every path over the letters, up to three elements, reads and is present as in the reference.
pub fn check_paths(c: &Config, v: &V, paths: &[String]) -> Result<(), String> {
  for p in paths {
    let want = at(v, p);
    let got = c.get_value(p).map(view).transpose()?;
    if got.as_ref() != want {
      return Err(format!("get_value({:?}): expected {:?}, got {:?}", p, want, got));
    }
    if c.has_path(p) != want.is_some() {
      return Err(format!("has_path({:?}) is {}", p, c.has_path(p)));
    }
  }
  Ok(())
}

pub fn expect(text: &str, want: &V) -> Result<u64, String> {
  let got = load_view(text)?;
  if got == *want {
    Ok(mc_core::h64(&got))
  } else {
    Err(format!("expected {:?}, got {:?}", want, got))
  }
}

/// Loading gave an error or a configuration; a panic is a disagreement.
pub fn no_crash(text: &str) -> Result<Option<V>, String> {
  match guarded(|| ConfigFactory::new().parse_from_string(text)) {
    Err(p) => Err(format!("panicked: {}", p)),
    Ok(Err(e)) => {
      guarded(|| format!("{:?}", e)).map_err(|p| format!("the error cannot be shown: {}", p))?;
      Ok(None)
    }
    Ok(Ok(c)) => {
      guarded(|| format!("{} {:?}", c, c)).map_err(|p| format!("the configuration cannot be shown: {}", p))?;
      Ok(guarded(|| view(c.to_config_value())).map_err(|p| format!("cannot be read: {}", p))?.ok())
    }
  }
}
