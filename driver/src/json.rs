//! Minimal JSON writer.
use std::fmt::Write;
pub enum J { Null, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl From<&str> for J { fn from(s: &str) -> J { J::S(s.to_owned()) } }
impl From<String> for J { fn from(s: String) -> J { J::S(s) } }
impl From<bool> for J { fn from(b: bool) -> J { J::B(b) } }
impl From<usize> for J { fn from(i: usize) -> J { J::I(i as i128) } }
impl<T: Into<J>> From<Option<T>> for J { fn from(o: Option<T>) -> J { o.map_or(J::Null, Into::into) } }
impl<T: Into<J>> From<Vec<T>> for J { fn from(v: Vec<T>) -> J { J::A(v.into_iter().map(Into::into).collect()) } }
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
