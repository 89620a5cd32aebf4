//! A small JSON value: enough for replay files, the worker protocol and evidence.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Int(i128), Num(f64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
    pub fn s(x: &str) -> J { J::Str(x.to_string()) }
    pub fn i<T: Into<i128>>(x: T) -> J { J::Int(x.into()) }
    pub fn u(x: usize) -> J { J::Int(x as i128) }
    pub fn obj() -> J { J::Obj(vec![]) }
    pub fn with(mut self, k: &str, v: J) -> J { if let J::Obj(o) = &mut self { o.push((k.to_string(), v)); } self }
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        if let J::Obj(o) = self { for (a, b) in o { if a == k { return b; } } }
        &NULL
    }
    pub fn str(&self) -> &str { if let J::Str(s) = self { s } else { "" } }
    pub fn int(&self) -> i128 { match self { J::Int(i) => *i, J::Num(f) => *f as i128, _ => 0 } }
    pub fn arr(&self) -> &[J] { if let J::Arr(a) = self { a } else { &[] } }
    pub fn from_map(m: &BTreeMap<String, u64>) -> J { J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int(*v as i128))).collect()) }

    pub fn dump(&self) -> String { let mut o = String::new(); self.w(&mut o, None, 0); o }
    pub fn pretty(&self) -> String { let mut o = String::new(); self.w(&mut o, Some(1), 0); o.push('\n'); o }
    fn w(&self, o: &mut String, ind: Option<usize>, lvl: usize) {
        let nl = |o: &mut String, l: usize| if let Some(n) = ind { o.push('\n'); for _ in 0..l * n { o.push(' '); } };
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => { let _ = write!(o, "{}", i); }
            J::Num(f) => { if f.is_finite() { let _ = write!(o, "{:.3}", f); } else { o.push_str("0"); } }
            J::Str(s) => ws(o, s),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() { if i > 0 { o.push(','); } nl(o, lvl + 1); x.w(o, ind, lvl + 1); }
                if !a.is_empty() { nl(o, lvl); }
                o.push(']');
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() { if i > 0 { o.push(','); } nl(o, lvl + 1); ws(o, k); o.push(':'); x.w(o, ind, lvl + 1); }
                if !a.is_empty() { nl(o, lvl); }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let b: Vec<char> = s.chars().collect();
        let mut p = 0;
        let v = pv(&b, &mut p)?;
        Some(v)
    }
}
fn ws(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn sp(b: &[char], p: &mut usize) { while *p < b.len() && b[*p].is_whitespace() { *p += 1; } }
fn pv(b: &[char], p: &mut usize) -> Option<J> {
    sp(b, p);
    match *b.get(*p)? {
        '{' => {
            *p += 1; let mut o = vec![];
            loop {
                sp(b, p);
                if *b.get(*p)? == '}' { *p += 1; return Some(J::Obj(o)); }
                if *b.get(*p)? == ',' { *p += 1; continue; }
                let k = if let J::Str(s) = pv(b, p)? { s } else { return None };
                sp(b, p); if *b.get(*p)? != ':' { return None; } *p += 1;
                let v = pv(b, p)?; o.push((k, v));
            }
        }
        '[' => {
            *p += 1; let mut a = vec![];
            loop {
                sp(b, p);
                if *b.get(*p)? == ']' { *p += 1; return Some(J::Arr(a)); }
                if *b.get(*p)? == ',' { *p += 1; continue; }
                a.push(pv(b, p)?);
            }
        }
        '"' => {
            *p += 1; let mut s = String::new();
            loop {
                let c = *b.get(*p)?; *p += 1;
                match c {
                    '"' => return Some(J::Str(s)),
                    '\\' => {
                        let c = *b.get(*p)?; *p += 1;
                        match c {
                            'n' => s.push('\n'), 'r' => s.push('\r'), 't' => s.push('\t'), 'b' => s.push('\u{8}'), 'f' => s.push('\u{c}'),
                            'u' => { let h: String = b.get(*p..*p + 4)?.iter().collect(); *p += 4; s.push(std::char::from_u32(u32::from_str_radix(&h, 16).ok()?).unwrap_or('?')); }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        't' => { *p += 4; Some(J::Bool(true)) }
        'f' => { *p += 5; Some(J::Bool(false)) }
        'n' => { *p += 4; Some(J::Null) }
        _ => {
            let st = *p;
            while *p < b.len() && "+-0123456789.eE".contains(b[*p]) { *p += 1; }
            let t: String = b[st..*p].iter().collect();
            if let Ok(i) = t.parse::<i128>() { Some(J::Int(i)) } else { t.parse::<f64>().ok().map(J::Num) }
        }
    }
}

#[cfg(test)]
mod tests { use super::*; #[test] fn rt() { let j = J::obj().with("a", J::Arr(vec![J::Int(1), J::s("x\"\n\u{1}é"), J::Null])); assert_eq!(J::parse(&j.pretty()).unwrap(), j); } }
