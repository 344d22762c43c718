//! Tiny JSON writer.
pub fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
pub fn arr<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String {
  format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}
pub fn nums<T: std::fmt::Display>(v: &[T]) -> String {
  arr(v, |x| x.to_string())
}
pub fn log(v: &[(String, i64)]) -> String {
  arr(v, |(s, x)| format!("[{},{}]", esc(s), x))
}
