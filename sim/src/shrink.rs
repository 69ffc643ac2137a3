//! Generic plan minimiser: tries simpler plans while the same violation class persists.
use crate::json::V;

/// All simplifications of `v`, roughly from the boldest to the finest.
pub fn candidates(v: &V) -> Vec<V> {
    let mut out = vec![];
    rec(v, &mut |n| out.push(n), "");
    out
}

fn rec(v: &V, emit: &mut dyn FnMut(V), key: &str) {
    if key.starts_with('_') {
        return;
    }
    match v {
        V::Arr(a) => {
            let mut size = a.len();
            while size >= 1 {
                let mut st = 0;
                let mut tries = 0;
                while st < a.len() && tries < 24 {
                    let mut b = a.clone();
                    b.drain(st..(st + size).min(a.len()));
                    emit(V::Arr(b));
                    st += size;
                    tries += 1;
                }
                size /= 2;
            }
            for (i, x) in a.iter().enumerate().take(40) {
                rec(x, &mut |n| { let mut b = a.clone(); b[i] = n; emit(V::Arr(b)) }, "");
            }
        }
        V::Obj(m) => {
            if m.len() == 2 && m.contains_key("n") && m.contains_key("seed") {
                // generated bits: try an explicit short prefix
                let n = m["n"].u();
                if n <= 4096 {
                    emit(crate::json::bits_v(&crate::json::bits_of(v)));
                }
            }
            // arrays and strings first
            let mut keys: Vec<&String> = m.keys().collect();
            keys.sort_by_key(|k| match &m[*k] { V::Arr(_) => 0, V::Str(_) => 1, V::Obj(_) => 2, _ => 3 });
            for k in keys {
                rec(&m[k], &mut |n| { let mut b = m.clone(); b.insert(k.clone(), n); emit(V::Obj(b)) }, k);
            }
        }
        V::Str(s) if !s.is_empty() && s.bytes().all(|c| c == b'0' || c == b'1') && s.len() > 1 => {
            let mut size = s.len() / 2;
            while size >= 1 {
                let mut st = 0;
                let mut tries = 0;
                while st < s.len() && tries < 16 {
                    let e = (st + size).min(s.len());
                    emit(V::Str(format!("{}{}", &s[..st], &s[e..])));
                    st += size;
                    tries += 1;
                }
                size /= 2;
            }
            if s.contains('1') && s.contains('0') {
                emit(V::Str("0".repeat(s.len())));
                emit(V::Str("1".repeat(s.len())));
            }
        }
        V::Int(x) if !key.contains("seed") => {
            let mut c = vec![0, 1, 2, x / 2, x - x / 4, x - 1];
            c.retain(|y| *y != *x && y.abs() <= x.abs());
            c.dedup();
            for y in c {
                emit(V::Int(y));
            }
        }
        V::Num(x) => {
            for y in [0.0, 1.0, x.round(), (x * 8.0).round() / 8.0, x / 2.0] {
                if y != *x && y.is_finite() && y.abs() <= x.abs().max(1.0) && !(y == 1.0 && *x == 0.0) {
                    emit(V::Num(y));
                }
            }
        }
        V::Bool(true) => emit(V::Bool(false)),
        _ => {}
    }
}

/// Size measure: the shrinker only accepts plans that are smaller.
pub fn size(v: &V) -> f64 {
    match v {
        V::Arr(a) => 2.0 + a.iter().map(size).sum::<f64>(),
        V::Obj(m) => {
            if m.len() == 2 && m.contains_key("n") && m.contains_key("seed") { return 10.0 + m["n"].u() as f64 * 1.2; }
            2.0 + m.iter().filter(|(k, _)| !k.starts_with('_')).map(|(_, v)| size(v)).sum::<f64>()
        }
        V::Str(s) => 1.0 + s.len() as f64 + s.bytes().filter(|c| *c == b'1').count() as f64 * 0.01,
        V::Int(x) => 1.0 + ((x.unsigned_abs() + 1) as f64).log2() * 0.5,
        V::Num(x) => 1.0 + ((x.abs() + 1.0).log2() * 0.5).min(40.0) + if x.fract() != 0.0 { 3.0 } else { 0.0 } + if *x != 0.0 { 0.3 } else { 0.0 },
        V::Bool(b) => *b as u8 as f64,
        V::Null => 0.0,
    }
}
