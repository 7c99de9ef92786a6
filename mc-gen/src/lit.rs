//! Reads the generated Rust text back: an independent scanner for
//! `/// doc` `const NAME: TYPE = &["...", ...];`
#[derive(Debug, Clone, PartialEq)]
pub struct Table {
    pub name: String,
    pub entries: Vec<String>,
    /// The documentation comment, blanks squeezed.
    pub doc: String,
}

struct P<'a> {
    s: &'a [char],
    i: usize,
    doc: String,
}
impl P<'_> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_whitespace() {
                self.i += 1;
            }
            if self.i + 1 < self.s.len() && self.s[self.i] == '/' && self.s[self.i + 1] == '/' {
                let st = self.i;
                while self.i < self.s.len() && self.s[self.i] != '\n' {
                    self.i += 1;
                }
                let line: String = self.s[st..self.i].iter().collect();
                if let Some(d) = line.strip_prefix("///") {
                    self.doc.push('\n');
                    self.doc += d;
                }
            } else {
                return;
            }
        }
    }
    fn end(&mut self) -> bool {
        self.ws();
        self.i >= self.s.len()
    }
    fn eat(&mut self, t: &str) -> Result<(), String> {
        self.ws();
        for c in t.chars() {
            if self.s.get(self.i) != Some(&c) {
                let rest: String = self.s[self.i.min(self.s.len())..].iter().take(40).collect();
                return Err(format!("expected {t:?} before {rest:?}"));
            }
            self.i += 1;
        }
        Ok(())
    }
    fn peek(&mut self) -> Option<char> {
        self.ws();
        self.s.get(self.i).copied()
    }
    fn ident(&mut self) -> Result<String, String> {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || self.s[self.i] == '_') {
            self.i += 1;
        }
        if st == self.i {
            return Err("identifier expected".into());
        }
        Ok(self.s[st..self.i].iter().collect())
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat("\"")?;
        let mut o = String::new();
        loop {
            let c = *self.s.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = *self.s.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    o.push(match e {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        '0' => '\0',
                        '\\' => '\\',
                        '"' => '"',
                        '\'' => '\'',
                        'x' => {
                            let h: String = self.s[self.i..self.i + 2].iter().collect();
                            self.i += 2;
                            u8::from_str_radix(&h, 16).map_err(|e| e.to_string())? as char
                        }
                        'u' => {
                            self.eat("{")?;
                            let st = self.i;
                            while *self.s.get(self.i).ok_or("bad \\u")? != '}' {
                                self.i += 1;
                            }
                            let h: String = self.s[st..self.i].iter().collect();
                            self.i += 1;
                            char::from_u32(u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?)
                                .ok_or("bad \\u")?
                        }
                        x => return Err(format!("unknown escape {x:?}")),
                    });
                }
                // a bare CR is not allowed in a Rust string literal
                '\r' if self.s.get(self.i) != Some(&'\n') => return Err("bare CR in a literal".into()),
                c => o.push(c),
            }
        }
    }
}

pub fn parse(text: &str) -> Result<Vec<Table>, String> {
    let chars: Vec<char> = text.chars().collect();
    let mut p = P { s: &chars, i: 0, doc: String::new() };
    let mut out = vec![];
    while !p.end() {
        if p.peek() == Some('p') {
            p.eat("pub")?;
            if p.peek() == Some('(') {
                while p.peek() != Some(')') {
                    p.i += 1;
                }
                p.i += 1;
            }
        }
        p.eat("const")?;
        let name = p.ident()?;
        p.eat(":")?;
        while p.peek().ok_or("'=' expected")? != '=' {
            p.i += 1;
        }
        p.eat("=")?;
        p.eat("&")?;
        p.eat("[")?;
        let mut entries = vec![];
        while p.peek() != Some(']') {
            entries.push(p.string()?);
            if p.peek() == Some(',') {
                p.eat(",")?;
            } else {
                break;
            }
        }
        p.eat("]")?;
        p.eat(";")?;
        // a bare CR is not allowed in a documentation comment
        if p.doc.trim_end_matches('\r').contains('\r') {
            return Err("CR in a documentation comment".into());
        }
        let doc = squeeze(&std::mem::take(&mut p.doc));
        out.push(Table { name, entries, doc });
    }
    Ok(out)
}

pub fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
