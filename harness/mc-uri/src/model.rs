//! Reference reading of RFC 3986 by string splitting, written from the property statements.
//! Deliberate points: the scheme may be missing in front of ':', an empty port is malformed.

use oni_comb_uri_rs::models::host_name::{HostName, IpLiteral};
use oni_comb_uri_rs::models::uri::Uri;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Host {
  Name(String),
  V4([u8; 4]),
  V6([u16; 8]),
  Future(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Auth {
  pub user: Option<(String, Option<String>)>,
  pub host: Host,
  pub port: Option<u16>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Parts {
  pub scheme: Option<String>,
  pub auth: Option<Auth>,
  pub path: Vec<String>,
  pub query: Option<Vec<(String, Option<String>)>>,
  pub fragment: Option<String>,
}

fn unreserved(c: u8) -> bool {
  c.is_ascii_alphanumeric() || matches!(c, b'-' | b'.' | b'_' | b'~')
}
fn sub_delim(c: u8) -> bool {
  matches!(c, b'!' | b'$' | b'&' | b'\'' | b'(' | b')' | b'*' | b'+' | b',' | b';' | b'=')
}
/// every byte is allowed, percent escapes are complete
fn all(s: &str, extra: &[u8]) -> bool {
  let b = s.as_bytes();
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'%' {
      if i + 2 >= b.len() || !b[i + 1].is_ascii_hexdigit() || !b[i + 2].is_ascii_hexdigit() {
        return false;
      }
      i += 3;
    } else if unreserved(b[i]) || sub_delim(b[i]) || extra.contains(&b[i]) {
      i += 1;
    } else {
      return false;
    }
  }
  true
}

fn octet(s: &str) -> Option<u8> {
  if s.is_empty() || s.len() > 3 || !s.bytes().all(|c| c.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) {
    return None;
  }
  let n = s.bytes().fold(0u32, |a, c| a * 10 + (c - b'0') as u32);
  if n < 256 {
    Some(n as u8)
  } else {
    None
  }
}

pub fn ipv4(s: &str) -> Option<[u8; 4]> {
  let v: Option<Vec<u8>> = s.split('.').map(octet).collect();
  v.and_then(|v| v.try_into().ok())
}

/// groups of one side of "::" (or of a whole address); the last may be a dotted quad
fn groups(s: &str, tail: bool) -> Option<Vec<u16>> {
  if s.is_empty() {
    return Some(vec![]);
  }
  let items: Vec<&str> = s.split(':').collect();
  let mut out = vec![];
  for (i, g) in items.iter().enumerate() {
    if tail && i + 1 == items.len() && g.contains('.') {
      let [a, b, c, d] = ipv4(g)?;
      out.push((a as u16) * 256 + b as u16);
      out.push((c as u16) * 256 + d as u16);
    } else {
      if g.is_empty() || g.len() > 4 || !g.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
      }
      out.push(g.bytes().fold(0, |a, c| a * 16 + (c as char).to_digit(16).unwrap() as u16));
    }
  }
  Some(out)
}

pub fn ipv6(s: &str) -> Option<[u16; 8]> {
  match s.find("::") {
    None => groups(s, true)?.try_into().ok(),
    Some(i) => {
      let head = groups(&s[..i], false)?;
      let tail = groups(&s[i + 2..], true)?;
      // the elision stands for at least one group
      if head.len() + tail.len() > 7 {
        return None;
      }
      let mut out = [0u16; 8];
      out[..head.len()].copy_from_slice(&head);
      out[8 - tail.len()..].copy_from_slice(&tail);
      Some(out)
    }
  }
}

fn future(s: &str) -> bool {
  if !(s.starts_with('v') || s.starts_with('V')) {
    return false;
  }
  match s[1..].split_once('.') {
    Some((a, b)) => {
      !a.is_empty() && a.bytes().all(|c| c.is_ascii_hexdigit()) && !b.is_empty() && b.bytes().all(|c| unreserved(c) || sub_delim(c) || c == b':')
    }
    None => false,
  }
}

fn authority(s: &str) -> Option<Auth> {
  let (user, rest) = match s.split_once('@') {
    Some((u, r)) => {
      if !all(u, b":") {
        return None;
      }
      let user = match u.split_once(':') {
        Some((n, p)) => (n.to_string(), Some(p.to_string())),
        None => (u.to_string(), None),
      };
      (Some(user), r)
    }
    None => (None, s),
  };
  let (host, rest) = if let Some(r) = rest.strip_prefix('[') {
    let (lit, rest) = r.split_once(']')?;
    let h = match ipv6(lit) {
      Some(v) => Host::V6(v),
      None if future(lit) => Host::Future(lit.to_string()),
      None => return None,
    };
    (h, rest)
  } else {
    let end = rest.find(':').unwrap_or(rest.len());
    let name = &rest[..end];
    if !all(name, b"") {
      return None;
    }
    (ipv4(name).map_or_else(|| Host::Name(name.to_string()), Host::V4), &rest[end..])
  };
  let port = if rest.is_empty() {
    None
  } else {
    let d = rest.strip_prefix(':')?;
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
      return None;
    }
    let mut n = 0u64;
    for c in d.bytes() {
      n = n * 10 + (c - b'0') as u64;
      if n > 65535 {
        return None;
      }
    }
    Some(n as u16)
  };
  Some(Auth { user, host, port })
}

pub fn query_items(s: &str) -> Vec<(String, Option<String>)> {
  s.split('&')
    .map(|i| match i.split_once('=') {
      Some((k, v)) => (k.to_string(), Some(v.to_string())),
      None => (i.to_string(), None),
    })
    .collect()
}

pub fn path_parts(s: &str) -> Vec<String> {
  let mut out: Vec<String> = vec![];
  for (i, seg) in s.split('/').enumerate() {
    if i == 0 {
      if !seg.is_empty() {
        out.push(seg.to_string());
      }
    } else {
      out.push(format!("/{}", seg));
    }
  }
  out
}

/// The components of `s`, or None when `s` is not a URI.
pub fn uri(s: &str) -> Option<Parts> {
  let (scheme, rest) = s.split_once(':')?;
  let scheme = if scheme.is_empty() {
    None
  } else {
    let b = scheme.as_bytes();
    if !b[0].is_ascii_alphabetic() || !b.iter().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'+' | b'-' | b'.')) {
      return None;
    }
    Some(scheme.to_string())
  };
  let (rest, fragment) = match rest.split_once('#') {
    Some((r, f)) => (r, Some(f)),
    None => (rest, None),
  };
  let (rest, query) = match rest.split_once('?') {
    Some((r, q)) => (r, Some(q)),
    None => (rest, None),
  };
  if !fragment.map_or(true, |f| all(f, b":@/?")) || !query.map_or(true, |q| all(q, b":@/?")) {
    return None;
  }
  let (auth, path) = match rest.strip_prefix("//") {
    Some(r) => {
      let end = r.find('/').unwrap_or(r.len());
      (Some(authority(&r[..end])?), &r[end..])
    }
    None => (None, rest),
  };
  if !all(path, b":@/") {
    return None;
  }
  Some(Parts { scheme, auth, path: path_parts(path), query: query.map(query_items), fragment: fragment.map(String::from) })
}

/// What the real value says through its accessors (query items as printed and split again).
pub fn observe(u: &Uri) -> Result<Parts, String> {
  let auth = u.authority().map(|a| Auth {
    user: a.user_info().map(|i| (i.user_name().to_string(), i.password().map(String::from))),
    host: match a.host_name() {
      HostName::RegName(n) => Host::Name(n.clone()),
      HostName::Ipv4Address(v) => Host::V4(v.octets()),
      HostName::IpLiteral(IpLiteral::Ipv6Address(v)) => Host::V6(v.segments()),
      HostName::IpLiteral(IpLiteral::IpvFuture(f)) => Host::Future(f.clone()),
    },
    port: a.port(),
  });
  if u.host_name() != u.authority().map(|a| a.host_name())
    || u.port() != u.authority().and_then(|a| a.port())
    || u.user_info() != u.authority().and_then(|a| a.user_info())
  {
    return Err("the accessors of the URI and of its authority disagree".into());
  }
  if u.is_absolute() != u.fragment().is_none() {
    return Err(format!("is_absolute() is {} with the fragment {:?}", u.is_absolute(), u.fragment()));
  }
  if let Some(p) = u.path() {
    if p.is_empty() == p.non_empty() || p.is_empty() != p.parts().is_empty() || p.to_string() != p.parts().concat() {
      return Err(format!("the path accessors disagree: {:?}", p));
    }
  }
  Ok(Parts {
    scheme: u.schema().map(|s| s.to_string()),
    auth,
    path: u.path().map(|p| p.parts().clone()).unwrap_or_default(),
    query: u.query().map(|q| query_items(&q.to_string())),
    fragment: u.fragment().cloned(),
  })
}

/// The text a value prints as: the original with a canonical IPv6 spelling and a port without
/// leading zeros.
pub fn printed(p: &Parts, ipv6_text: &dyn Fn(&[u16; 8]) -> String) -> String {
  let mut s = String::new();
  if let Some(x) = &p.scheme {
    s.push_str(x);
  }
  s.push(':');
  if let Some(a) = &p.auth {
    s.push_str("//");
    if let Some((n, pw)) = &a.user {
      s.push_str(n);
      if let Some(pw) = pw {
        s.push(':');
        s.push_str(pw);
      }
      s.push('@');
    }
    match &a.host {
      Host::Name(n) => s.push_str(n),
      Host::V4([a, b, c, d]) => s.push_str(&format!("{}.{}.{}.{}", a, b, c, d)),
      Host::V6(v) => s.push_str(&format!("[{}]", ipv6_text(v))),
      Host::Future(f) => s.push_str(&format!("[{}]", f)),
    }
    if let Some(n) = a.port {
      s.push_str(&format!(":{}", n));
    }
  }
  s.push_str(&p.path.concat());
  if let Some(q) = &p.query {
    s.push('?');
    let items: Vec<String> = q.iter().map(|(k, v)| v.as_ref().map_or(k.clone(), |v| format!("{}={}", k, v))).collect();
    s.push_str(&items.join("&"));
  }
  if let Some(f) = &p.fragment {
    s.push('#');
    s.push_str(f);
  }
  s
}
