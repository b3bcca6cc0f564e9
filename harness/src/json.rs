//! A JSON reader that keeps numbers exact, duplicates and order.

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl PartialEq for J {
    fn eq(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bool(a), J::Bool(b)) => a == b,
            (J::Num(a), J::Num(b)) => same_number(a, b),
            (J::Str(a), J::Str(b)) => a == b,
            (J::Arr(a), J::Arr(b)) => a == b,
            (J::Obj(a), J::Obj(b)) => a == b,
            _ => false,
        }
    }
}

/// The same integer, or the same double.
fn same_number(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    let int = |s: &str| !s.contains(['.', 'e', 'E']);
    if int(a) && int(b) {
        return false;
    }
    match (a.parse::<f64>(), b.parse::<f64>()) {
        (Ok(a), Ok(b)) => a == b || a as f32 == b as f32 && (a as f32) as f64 == a.max(b),
        _ => false,
    }
}

pub fn parse(s: &str) -> Result<J, String> {
    let b = s.as_bytes();
    let mut at = 0;
    let v = value(s, b, &mut at)?;
    space(b, &mut at);
    if at != b.len() {
        return Err(format!("{} bytes after the document", b.len() - at));
    }
    Ok(v)
}

fn space(b: &[u8], at: &mut usize) {
    while *at < b.len() && b[*at].is_ascii_whitespace() {
        *at += 1;
    }
}

fn expect(b: &[u8], at: &mut usize, what: &str) -> Result<(), String> {
    if b[*at..].starts_with(what.as_bytes()) {
        *at += what.len();
        Ok(())
    } else {
        Err(format!("expected {what:?} at byte {at}"))
    }
}

fn value(s: &str, b: &[u8], at: &mut usize) -> Result<J, String> {
    space(b, at);
    match b.get(*at) {
        Some(b'n') => expect(b, at, "null").map(|_| J::Null),
        Some(b't') => expect(b, at, "true").map(|_| J::Bool(true)),
        Some(b'f') => expect(b, at, "false").map(|_| J::Bool(false)),
        Some(b'"') => string(s, b, at).map(J::Str),
        Some(b'[') => {
            *at += 1;
            let mut v = Vec::new();
            loop {
                space(b, at);
                if b.get(*at) == Some(&b']') {
                    *at += 1;
                    return Ok(J::Arr(v));
                }
                if !v.is_empty() {
                    expect(b, at, ",")?;
                }
                v.push(value(s, b, at)?);
            }
        }
        Some(b'{') => {
            *at += 1;
            let mut v = Vec::new();
            loop {
                space(b, at);
                if b.get(*at) == Some(&b'}') {
                    *at += 1;
                    return Ok(J::Obj(v));
                }
                if !v.is_empty() {
                    expect(b, at, ",")?;
                    space(b, at);
                }
                let k = string(s, b, at)?;
                space(b, at);
                expect(b, at, ":")?;
                v.push((k, value(s, b, at)?));
            }
        }
        Some(b'-' | b'0'..=b'9') => {
            let start = *at;
            while *at < b.len() && matches!(b[*at], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *at += 1;
            }
            Ok(J::Num(s[start..*at].to_owned()))
        }
        c => Err(format!("unexpected {c:?} at byte {at}")),
    }
}

fn string(s: &str, b: &[u8], at: &mut usize) -> Result<String, String> {
    expect(b, at, "\"")?;
    let mut out = String::new();
    loop {
        let start = *at;
        while *at < b.len() && b[*at] != b'"' && b[*at] != b'\\' {
            if b[*at] < 0x20 {
                return Err(format!("control character at byte {at}"));
            }
            *at += 1;
        }
        out.push_str(&s[start..*at]);
        match b.get(*at) {
            Some(b'"') => {
                *at += 1;
                return Ok(out);
            }
            Some(b'\\') => {
                *at += 1;
                let c = *b.get(*at).ok_or("end of text in an escape")?;
                *at += 1;
                match c {
                    b'"' | b'\\' | b'/' => out.push(c as char),
                    b'b' => out.push('\u{8}'),
                    b'f' => out.push('\u{c}'),
                    b'n' => out.push('\n'),
                    b'r' => out.push('\r'),
                    b't' => out.push('\t'),
                    b'u' => {
                        let mut hex = || -> Result<u32, String> {
                            let h = s.get(*at..*at + 4).ok_or("a short escape")?;
                            *at += 4;
                            u32::from_str_radix(h, 16).map_err(|e| e.to_string())
                        };
                        let mut c = hex()?;
                        if (0xd800..0xdc00).contains(&c) {
                            expect(b, at, "\\u")?;
                            let mut hex = || -> Result<u32, String> {
                                let h = s.get(*at..*at + 4).ok_or("a short escape")?;
                                *at += 4;
                                u32::from_str_radix(h, 16).map_err(|e| e.to_string())
                            };
                            c = 0x10000 + ((c - 0xd800) << 10) + (hex()?.wrapping_sub(0xdc00) & 0x3ff);
                        }
                        out.push(char::from_u32(c).ok_or("not a char")?);
                    }
                    c => return Err(format!("unknown escape {:?}", c as char)),
                }
            }
            _ => return Err("end of text in a string".into()),
        }
    }
}
