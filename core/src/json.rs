pub fn quote(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[derive(Default)]
pub struct Obj(Vec<String>);
impl Obj {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn raw(&mut self, k: &str, v: &str) {
        self.0.push(format!("{}: {}", quote(k), v));
    }
    pub fn str(&mut self, k: &str, v: &str) {
        self.raw(k, &quote(v));
    }
    pub fn list(&mut self, k: &str, v: &[String]) {
        let s = v.iter().map(|x| quote(x)).collect::<Vec<_>>().join(", ");
        self.raw(k, &format!("[{s}]"));
    }
    pub fn done(&self) -> String {
        format!("{{{}}}", self.0.join(", "))
    }
}
