//! Just enough JSON to write evidence.
pub enum J {
    Int(i64),
    Num(f64),
    Str(String),
    Bool(bool),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

impl J {
    fn put(&self, o: &mut String, ind: usize) {
        let nl = |o: &mut String, n: usize| {
            o.push('\n');
            o.push_str(&" ".repeat(n));
        };
        match self {
            J::Int(i) => o.push_str(&i.to_string()),
            J::Num(f) => o.push_str(&f.to_string()),
            J::Bool(b) => o.push_str(&b.to_string()),
            J::Str(s) => quote(s, o),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, ind + 1);
                    x.put(o, ind + 1);
                }
                o.push(']');
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, ind + 1);
                    quote(k, o);
                    o.push_str(": ");
                    x.put(o, ind + 1);
                }
                o.push('}');
            }
        }
    }
}

impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let mut o = String::new();
        self.put(&mut o, 0);
        f.write_str(&o)
    }
}
