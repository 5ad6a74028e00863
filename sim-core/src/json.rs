//! Just enough JSON writing for the evidence files.

use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    N(u64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn s(v: impl Into<String>) -> J {
        J::S(v.into())
    }
    pub fn o(v: Vec<(&str, J)>) -> J {
        J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn strs<T: AsRef<str>>(v: &[T]) -> J {
        J::A(v.iter().map(|s| J::s(s.as_ref())).collect())
    }

    pub fn render(&self, indent: usize, out: &mut String) {
        let pad = " ".repeat(indent + 1);
        match self {
            J::N(n) => write!(out, "{n}").unwrap(),
            J::F(f) => write!(out, "{f:.3}").unwrap(),
            J::S(s) => quote(s, out),
            J::A(v) if v.is_empty() => out.push_str("[]"),
            J::A(v) => {
                out.push('[');
                for (i, e) in v.iter().enumerate() {
                    out.push_str(if i == 0 { "\n" } else { ",\n" });
                    out.push_str(&pad);
                    e.render(indent + 1, out);
                }
                out.push('\n');
                out.push_str(&" ".repeat(indent));
                out.push(']');
            }
            J::O(v) if v.is_empty() => out.push_str("{}"),
            J::O(v) => {
                out.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    out.push_str(if i == 0 { "\n" } else { ",\n" });
                    out.push_str(&pad);
                    quote(k, out);
                    out.push_str(": ");
                    e.render(indent + 1, out);
                }
                out.push('\n');
                out.push_str(&" ".repeat(indent));
                out.push('}');
            }
        }
    }
}

fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(out, "\\u{:04x}", c as u32).unwrap(),
            c => out.push(c),
        }
    }
    out.push('"');
}
