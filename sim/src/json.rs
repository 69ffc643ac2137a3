//! A minimal JSON value: plans, replay files and evidence are written and read with it.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<V>),
    Obj(BTreeMap<String, V>),
}

impl From<bool> for V { fn from(x: bool) -> V { V::Bool(x) } }
impl From<i64> for V { fn from(x: i64) -> V { V::Int(x) } }
impl From<i32> for V { fn from(x: i32) -> V { V::Int(x as i64) } }
impl From<u32> for V { fn from(x: u32) -> V { V::Int(x as i64) } }
impl From<u64> for V { fn from(x: u64) -> V { if x <= i64::MAX as u64 { V::Int(x as i64) } else { V::Str(format!("{x}")) } } }
impl From<usize> for V { fn from(x: usize) -> V { V::from(x as u64) } }
impl From<f64> for V {
    fn from(x: f64) -> V {
        if x.is_finite() { V::Num(x) } else if x.is_nan() { V::Str("nan".into()) } else if x > 0.0 { V::Str("inf".into()) } else { V::Str("-inf".into()) }
    }
}
impl From<&str> for V { fn from(x: &str) -> V { V::Str(x.to_string()) } }
impl From<String> for V { fn from(x: String) -> V { V::Str(x) } }
impl<T: Into<V>> From<Vec<T>> for V { fn from(x: Vec<T>) -> V { V::Arr(x.into_iter().map(Into::into).collect()) } }
impl From<BTreeMap<String, V>> for V { fn from(x: BTreeMap<String, V>) -> V { V::Obj(x) } }

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut m = std::collections::BTreeMap::<String, $crate::json::V>::new();
        $( m.insert($k.to_string(), $crate::json::V::from($v)); )*
        $crate::json::V::Obj(m)
    }};
}

impl V {
    pub fn get(&self, k: &str) -> &V {
        static N: V = V::Null;
        match self { V::Obj(m) => m.get(k).unwrap_or(&N), _ => &N }
    }
    pub fn has(&self, k: &str) -> bool { !matches!(self.get(k), V::Null) }
    pub fn set<T: Into<V>>(&mut self, k: &str, v: T) {
        if let V::Obj(m) = self { m.insert(k.to_string(), v.into()); }
    }
    pub fn i(&self) -> i64 {
        match self {
            V::Int(x) => *x,
            V::Num(x) => *x as i64,
            V::Bool(b) => *b as i64,
            V::Str(s) => s.parse::<u64>().map(|x| x as i64).unwrap_or(0),
            _ => 0,
        }
    }
    pub fn u(&self) -> usize { self.i().max(0) as usize }
    pub fn u64(&self) -> u64 {
        match self { V::Str(s) => s.parse::<u64>().unwrap_or(0), _ => self.i() as u64 }
    }
    pub fn f(&self) -> f64 {
        match self {
            V::Int(x) => *x as f64,
            V::Num(x) => *x,
            V::Str(s) => match s.as_str() { "nan" => f64::NAN, "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, _ => s.parse().unwrap_or(0.0) },
            _ => 0.0,
        }
    }
    pub fn b(&self) -> bool { matches!(self, V::Bool(true)) || matches!(self, V::Int(x) if *x != 0) }
    pub fn s(&self) -> &str { match self { V::Str(s) => s, _ => "" } }
    pub fn a(&self) -> &[V] { match self { V::Arr(a) => a, _ => &[] } }

    pub fn dump(&self) -> String { let mut s = String::new(); self.write(&mut s, None, 0); s }
    pub fn pretty(&self) -> String { let mut s = String::new(); self.write(&mut s, Some(1), 0); s.push('\n'); s }

    fn write(&self, o: &mut String, ind: Option<usize>, depth: usize) {
        match self {
            V::Null => o.push_str("null"),
            V::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            V::Int(x) => { let _ = write!(o, "{x}"); }
            V::Num(x) => {
                let s = format!("{x:?}");
                o.push_str(&s);
            }
            V::Str(s) => esc(s, o),
            V::Arr(a) => {
                o.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 { o.push(','); if ind.is_some() { o.push(' '); } }
                    v.write(o, None, depth + 1);
                }
                o.push(']');
            }
            V::Obj(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    if let Some(n) = ind { if depth < 3 { o.push('\n'); for _ in 0..(depth + 1) * n { o.push(' '); } } }
                    esc(k, o);
                    o.push(':');
                    v.write(o, if depth < 2 { ind } else { None }, depth + 1);
                }
                if ind.is_some() && depth < 3 { o.push('\n'); for _ in 0..depth { o.push(' '); } }
                o.push('}');
            }
        }
    }

    pub fn parse(s: &str) -> Result<V, String> {
        let b = s.as_bytes();
        let mut p = P { b, i: 0 };
        let v = p.val()?;
        p.ws();
        if p.i != b.len() { return Err(format!("trailing text at {}", p.i)); }
        Ok(v)
    }
}

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct P<'a> { b: &'a [u8], i: usize }
impl P<'_> {
    fn ws(&mut self) { while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() { self.i += 1; } }
    fn lit(&mut self, w: &str, v: V) -> Result<V, String> {
        if self.b[self.i..].starts_with(w.as_bytes()) { self.i += w.len(); Ok(v) } else { Err(format!("bad literal at {}", self.i)) }
    }
    fn val(&mut self) -> Result<V, String> {
        self.ws();
        match self.b.get(self.i) {
            None => Err("end of text".into()),
            Some(b'n') => self.lit("null", V::Null),
            Some(b't') => self.lit("true", V::Bool(true)),
            Some(b'f') => self.lit("false", V::Bool(false)),
            Some(b'"') => Ok(V::Str(self.str()?)),
            Some(b'[') => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') { self.i += 1; return Ok(V::Arr(a)); }
                loop {
                    a.push(self.val()?);
                    self.ws();
                    match self.b.get(self.i) { Some(b',') => self.i += 1, Some(b']') => { self.i += 1; return Ok(V::Arr(a)); } _ => return Err(format!("array at {}", self.i)) }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut m = BTreeMap::new();
                self.ws();
                if self.b.get(self.i) == Some(&b'}') { self.i += 1; return Ok(V::Obj(m)); }
                loop {
                    self.ws();
                    let k = self.str()?;
                    self.ws();
                    if self.b.get(self.i) != Some(&b':') { return Err(format!("colon at {}", self.i)); }
                    self.i += 1;
                    let v = self.val()?;
                    m.insert(k, v);
                    self.ws();
                    match self.b.get(self.i) { Some(b',') => self.i += 1, Some(b'}') => { self.i += 1; return Ok(V::Obj(m)); } _ => return Err(format!("object at {}", self.i)) }
                }
            }
            Some(_) => {
                let st = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') { self.i += 1; }
                let t = std::str::from_utf8(&self.b[st..self.i]).unwrap();
                if t.is_empty() { return Err(format!("value at {st}")); }
                if let Ok(x) = t.parse::<i64>() { return Ok(V::Int(x)); }
                t.parse::<f64>().map(V::Num).map_err(|e| format!("number {t}: {e}"))
            }
        }
    }
    fn str(&mut self) -> Result<String, String> {
        if self.b.get(self.i) != Some(&b'"') { return Err(format!("string at {}", self.i)); }
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            match self.b.get(self.i) {
                None => return Err("unterminated".into()),
                Some(b'"') => { self.i += 1; return String::from_utf8(o).map_err(|e| e.to_string()); }
                Some(b'\\') => {
                    self.i += 1;
                    let c = *self.b.get(self.i).ok_or("eof")?;
                    self.i += 1;
                    match c {
                        b'n' => o.push(b'\n'), b't' => o.push(b'\t'), b'r' => o.push(b'\r'),
                        b'u' => {
                            let h = std::str::from_utf8(&self.b[self.i..self.i + 4]).map_err(|e| e.to_string())?;
                            let u = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            self.i += 4;
                            let mut buf = [0; 4];
                            o.extend_from_slice(char::from_u32(u).unwrap_or('?').encode_utf8(&mut buf).as_bytes());
                        }
                        c => o.push(c),
                    }
                }
                Some(&c) => { o.push(c); self.i += 1; }
            }
        }
    }
}

/// Bits in plans: "0110…" or {"n":…, "seed":…, "bias":…}.
pub fn bits_of(v: &V) -> Vec<bool> {
    match v {
        V::Str(s) => s.bytes().filter(|c| *c == b'0' || *c == b'1').map(|c| c == b'1').collect(),
        V::Obj(_) => {
            let n = v.get("n").u();
            let mut r = crate::rng::Rng::new(v.get("seed").u64());
            (0..n).map(|_| r.bit()).collect()
        }
        _ => vec![],
    }
}
pub fn bits_v(b: &[bool]) -> V { V::Str(b.iter().map(|&b| if b { '1' } else { '0' }).collect()) }
/// Plan entry for a random message of n bits.
pub fn gen_bits(r: &mut crate::rng::Rng, n: usize) -> V {
    if n <= 600 {
        let mode = r.below(8);
        let b: Vec<bool> = match mode {
            0 => vec![r.bit(); n],
            1 => { let p = r.f(); (0..n).map(|_| r.chance(p)).collect() }
            _ => r.bits(n),
        };
        bits_v(&b)
    } else {
        obj! {"n" => n, "seed" => r.below(1 << 52)}
    }
}
