//! Hand-written encoding and strict decoding of the remote-storage messages (independent of the
//! code under test).
use crate::plan::LSet;

pub type Series = Vec<(LSet, Vec<(i64, u64)>)>;
#[derive(Clone, Debug, PartialEq)]
pub struct Query { pub lo: i64, pub hi: i64, pub m: Vec<(u64, String, String)> }
#[derive(Clone, Debug, PartialEq)]
pub enum Dec<T> { Valid(T), Invalid, /// unusual encodings whose reading is not agreed upon
    Odd }

fn varint(o: &mut Vec<u8>, mut v: u64) { while v >= 0x80 { o.push(v as u8 | 0x80); v >>= 7; } o.push(v as u8); }
fn tag(o: &mut Vec<u8>, f: u64, w: u64) { varint(o, f << 3 | w) }
fn bytes(o: &mut Vec<u8>, f: u64, b: &[u8]) { tag(o, f, 2); varint(o, b.len() as u64); o.extend_from_slice(b); }

pub fn enc_series(labels: &LSet, pts: &[(i64, u64)]) -> Vec<u8> {
    let mut t = vec![];
    for (k, v) in labels { let mut l = vec![]; bytes(&mut l, 1, k.as_bytes()); bytes(&mut l, 2, v.as_bytes()); bytes(&mut t, 1, &l); }
    for (ts, bits) in pts { let mut s = vec![]; tag(&mut s, 1, 1); s.extend_from_slice(&bits.to_le_bytes()); tag(&mut s, 2, 0); varint(&mut s, *ts as u64); bytes(&mut t, 2, &s); }
    t
}
pub fn enc_write(v: &Series) -> Vec<u8> { let mut o = vec![]; for (l, p) in v { bytes(&mut o, 1, &enc_series(l, p)); } o }
pub fn enc_read(v: &[Query], extras: bool) -> Vec<u8> {
    let mut o = vec![];
    for q in v {
        let mut b = vec![];
        tag(&mut b, 1, 0); varint(&mut b, q.lo as u64);
        tag(&mut b, 2, 0); varint(&mut b, q.hi as u64);
        for (t, n, x) in &q.m { let mut m = vec![]; if *t != 0 { tag(&mut m, 1, 0); varint(&mut m, *t); } bytes(&mut m, 2, n.as_bytes()); bytes(&mut m, 3, x.as_bytes()); bytes(&mut b, 3, &m); }
        if extras { let mut h = vec![]; tag(&mut h, 1, 0); varint(&mut h, 15000); bytes(&mut h, 2, b"rate"); tag(&mut h, 3, 0); varint(&mut h, q.lo as u64 + 1); bytes(&mut b, 4, &h); }
        bytes(&mut o, 1, &b);
    }
    if extras { bytes(&mut o, 2, &[0, 1]); }
    o
}

pub enum F<'a> { Var(u64), F64(u64), F32, Len(&'a [u8]) }
/// split a message into fields
fn fields(mut b: &[u8]) -> Dec<Vec<(u64, F<'_>)>> {
    fn var(b: &mut &[u8]) -> Option<(u64, usize)> {
        let mut v = 0u64;
        for i in 0..10 { let x = *b.get(i)?; v |= ((x & 0x7f) as u64).checked_shl(7 * i as u32).unwrap_or(0); if x & 0x80 == 0 { *b = &b[i + 1..]; return Some((v, i + 1)); } }
        None
    }
    let mut o = vec![];
    while !b.is_empty() {
        let (t, n) = match var(&mut b) { Some(t) => t, None => return Dec::Invalid };
        if n > 5 || t > u32::MAX as u64 || t >> 3 == 0 { return Dec::Odd; }
        let f = match t & 7 {
            0 => match var(&mut b) { Some((v, n)) => { if n == 10 { if v >> 63 == 0 { return Dec::Odd; } } F::Var(v) } None => return Dec::Invalid },
            1 => { if b.len() < 8 { return Dec::Invalid; } let v = u64::from_le_bytes(b[..8].try_into().unwrap()); b = &b[8..]; F::F64(v) }
            5 => { if b.len() < 4 { return Dec::Invalid; } b = &b[4..]; F::F32 }
            2 => { let (n, k) = match var(&mut b) { Some(n) => n, None => return Dec::Invalid }; if k > 5 || n > u32::MAX as u64 { return Dec::Odd; } if n > b.len() as u64 { return Dec::Invalid; } let (x, r) = b.split_at(n as usize); b = r; F::Len(x) }
            3 | 4 => return Dec::Odd,
            _ => return Dec::Invalid,
        };
        o.push((t >> 3, f));
    }
    Dec::Valid(o)
}
macro_rules! get { ($e:expr) => { match $e { Dec::Valid(v) => v, Dec::Invalid => return Dec::Invalid, Dec::Odd => return Dec::Odd } } }
fn text(b: &[u8]) -> Dec<String> { match std::str::from_utf8(b) { Ok(s) => Dec::Valid(s.to_string()), Err(_) => Dec::Invalid } }
fn dec_label(b: &[u8]) -> Dec<(String, String)> {
    let mut r = (String::new(), String::new());
    for (n, f) in get!(fields(b)) { match (n, f) { (1, F::Len(x)) => r.0 = get!(text(x)), (2, F::Len(x)) => r.1 = get!(text(x)), (1, _) | (2, _) => return Dec::Invalid, _ => {} } }
    Dec::Valid(r)
}
fn dec_series(b: &[u8]) -> Dec<(LSet, Vec<(i64, u64)>)> {
    let mut r = (vec![], vec![]);
    for (n, f) in get!(fields(b)) {
        match (n, f) {
            (1, F::Len(x)) => r.0.push(get!(dec_label(x))),
            (2, F::Len(x)) => {
                let mut s = (0i64, 0u64);
                for (n, f) in get!(fields(x)) { match (n, f) { (1, F::F64(v)) => s.1 = v, (2, F::Var(v)) => s.0 = v as i64, (1, _) | (2, _) => return Dec::Invalid, _ => {} } }
                r.1.push(s);
            }
            (1, _) | (2, _) => return Dec::Invalid,
            _ => {}
        }
    }
    Dec::Valid(r)
}
pub fn dec_write(b: &[u8]) -> Dec<Series> {
    let mut v = vec![];
    for (n, f) in get!(fields(b)) { match (n, f) { (1, F::Len(x)) => v.push(get!(dec_series(x))), (1, _) => return Dec::Invalid, _ => {} } }
    Dec::Valid(v)
}
pub fn dec_read(b: &[u8]) -> Dec<Vec<Query>> {
    let mut v = vec![];
    for (n, f) in get!(fields(b)) {
        match (n, f) {
            (1, F::Len(x)) => {
                let mut q = Query { lo: 0, hi: 0, m: vec![] };
                for (n, f) in get!(fields(x)) {
                    match (n, f) {
                        (1, F::Var(v)) => q.lo = v as i64,
                        (2, F::Var(v)) => q.hi = v as i64,
                        (3, F::Len(x)) => {
                            let mut m = (0u64, String::new(), String::new());
                            for (n, f) in get!(fields(x)) { match (n, f) { (1, F::Var(v)) => { if v > 3 { return Dec::Odd; } m.0 = v } (2, F::Len(x)) => m.1 = get!(text(x)), (3, F::Len(x)) => m.2 = get!(text(x)), (1, _) | (2, _) | (3, _) => return Dec::Invalid, _ => {} } }
                            q.m.push(m);
                        }
                        (4, _) => return Dec::Odd,
                        (1, _) | (2, _) | (3, _) => return Dec::Invalid,
                        _ => {}
                    }
                }
                v.push(q);
            }
            (2, _) => return Dec::Odd,
            (1, _) => return Dec::Invalid,
            _ => {}
        }
    }
    Dec::Valid(v)
}
/// a read response: one list of series per query
pub fn dec_response(b: &[u8]) -> Result<Vec<Series>, String> {
    let mut r = vec![];
    let fs = match fields(b) { Dec::Valid(v) => v, _ => return Err("not a protobuf message".into()) };
    for (n, f) in fs {
        match (n, f) {
            (1, F::Len(x)) => {
                let mut s = vec![];
                let fs = match fields(x) { Dec::Valid(v) => v, _ => return Err("broken query result".into()) };
                for (n, f) in fs { match (n, f) { (1, F::Len(y)) => match dec_series(y) { Dec::Valid(v) => s.push(v), _ => return Err("broken time series".into()) }, _ => return Err("unexpected field in a query result".into()) } }
                r.push(s);
            }
            _ => return Err("unexpected field in the response".into()),
        }
    }
    Ok(r)
}
