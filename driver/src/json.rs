pub enum J { Null, B(bool), N(i128), S(String), A(Vec<J>), O(Vec<(String, J)>) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(&n.to_string()),
            J::S(s) => ws(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o) } o.push(']') }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } ws(k, o); o.push(':'); x.w(o) } o.push('}') }
        }
    }
    pub fn to_string(&self) -> String { let mut o = String::new(); self.w(&mut o); o }
}
fn ws(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
