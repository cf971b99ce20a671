//! C43: values on the wire.
use crate::val::{self, *};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use vmon::{Case, Mon, Rng};
use witnet_data_structures::radon_error::{ErrorLike, RadonError};
use witnet_data_structures::radon_report::{RadonReport, ReportContext, TypeLike};
use witnet_rad::error::RadError;
use witnet_rad::types::{serial_iter_decode, RadonTypes};
use V::*;

fn head(m: u8, n: u64, width: usize, o: &mut Vec<u8>) {
    let need = match n {
        0..=23 => 0,
        24..=0xff => 1,
        0x100..=0xffff => 2,
        0x10000..=0xffff_ffff => 4,
        _ => 8,
    };
    let w = need.max(width);
    let m = m << 5;
    match w {
        0 => o.push(m | n as u8),
        1 => o.extend([m | 24, n as u8]),
        2 => {
            o.push(m | 25);
            o.extend((n as u16).to_be_bytes())
        }
        4 => {
            o.push(m | 26);
            o.extend((n as u32).to_be_bytes())
        }
        _ => {
            o.push(m | 27);
            o.extend(n.to_be_bytes())
        }
    }
}
fn f16(f: f32) -> Option<u16> {
    if f.is_nan() {
        return Some(0x7e00);
    }
    // try every exponent: a half is s * m * 2^e with m < 2048
    let s = if f.is_sign_negative() { 0x8000 } else { 0 };
    let a = f.abs();
    if a == 0.0 {
        return Some(s);
    }
    if a.is_infinite() {
        return Some(s | 0x7c00);
    }
    for e in 0..31u16 {
        let unit = 2f32.powi(i32::from(e.max(1)) - 25);
        let m = a / unit;
        if m.fract() == 0.0 && m < 2048.0 && ((e == 0 && m < 1024.0) || (e > 0 && m >= 1024.0)) {
            return Some(s | e << 10 | (m as u16 & 0x3ff));
        }
    }
    None
}
/// The one encoding of a value. None if it has none.
pub fn encode(v: &V) -> Option<Vec<u8>> {
    let mut o = vec![];
    put(v, &mut o)?;
    Some(o)
}
fn put(v: &V, o: &mut Vec<u8>) -> Option<()> {
    match v {
        Bool(b) => o.push(0xf4 | u8::from(*b)),
        Int(i) => match u64::try_from(*i) {
            Ok(n) => head(0, n, 0, o),
            _ => head(1, u64::try_from(-1 - *i).ok()?, 0, o),
        },
        Bytes(b) => {
            head(2, b.len() as u64, 0, o);
            o.extend(b)
        }
        Str(s) => {
            head(3, s.len() as u64, 0, o);
            o.extend(s.as_bytes())
        }
        Float(f) => {
            let g = *f as f32;
            if f.is_nan() || f64::from(g) == *f {
                match f16(g) {
                    Some(h) => {
                        o.push(0xf9);
                        o.extend(h.to_be_bytes())
                    }
                    None => {
                        o.push(0xfa);
                        o.extend(g.to_be_bytes())
                    }
                }
            } else {
                o.push(0xfb);
                o.extend(f.to_be_bytes())
            }
        }
        Arr(a) => {
            head(4, a.len() as u64, 0, o);
            for x in a {
                put(x, o)?
            }
        }
        Map(m) => {
            head(5, m.len() as u64, 0, o);
            let mut e: Vec<(&String, &V)> = m.iter().collect();
            // shorter keys first
            e.sort_by_key(|(k, _)| (k.len(), k.as_bytes().to_vec()));
            for (k, v) in e {
                put(&Str(k.clone()), o)?;
                put(v, o)?
            }
        }
        Fault(_) => return None,
    }
    Some(())
}

pub fn wire(m: &mut Mon) {
    m.rule("shape of the value or of the bytes");
    for e in ["round-trip", "no-encoding", "equal", "different", "error", "error-of-bytes", "understood", "refused", "nested-error", "below-i64", "reveals", "reveal-replaced"] {
        m.require(e, 5);
    }
    let n = m.n(320_000, 5_000_000);
    m.run_par("values", n, values);
    m.run_par("bytes", n * 2, bytes);
    m.run_par("errors", m.n(80_000, 1_000_000), errors);
    m.run_par("reveals", m.n(64_000, 1_000_000), reveals);
}
fn h(r: &RadonTypes) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    Hash::hash(r, &mut s);
    s.finish()
}
fn tweak(r: &mut Rng, v: &V) -> V {
    match v {
        Arr(a) if !a.is_empty() => {
            let i = r.idx(a.len());
            let mut b = a.clone();
            b[i] = tweak(r, &a[i]);
            Arr(b)
        }
        Map(m) if !m.is_empty() => {
            let i = r.idx(m.len());
            let mut m = m.clone();
            let k = m.keys().nth(i).unwrap().clone();
            let x = tweak(r, &m[&k]);
            m.insert(k, x);
            Map(m)
        }
        Int(i) => match r.below(3) {
            0 => Int(i ^ 1),
            1 => Float(*i as f64),
            _ => Int(-1 - i),
        },
        Float(f) if !f.is_nan() => match r.below(3) {
            0 => Float(-f),
            1 => Float(f64::from_bits(f.to_bits() ^ 1)),
            _ => Int(*f as i128),
        },
        Str(s) => {
            if r.bool() {
                Bytes(s.clone().into_bytes())
            } else {
                Str(format!("{s} "))
            }
        }
        Bool(b) => Bool(!b),
        Bytes(b) => {
            let mut b = b.clone();
            b.push(0);
            Bytes(b)
        }
        x => {
            let _ = x;
            Arr(vec![v.clone()])
        }
    }
}
fn values(k: &mut Case) {
    let r = &mut k.rng;
    let d = r.below(5) as usize;
    let v = if r.chance(1, 8) {
        let i = Int(val::big(r));
        if r.bool() { Arr(vec![i]) } else { i }
    } else if r.chance(1, 8) {
        Float(val::float(r))
    } else {
        val::value(r, d, None)
    };
    let x = v.rad();
    let want = encode(&v);
    k.eval(1);
    let Some(got) = k.nopanic("encode", || format!("{v:?}"), || x.encode()) else { return };
    k.nontrivial(&(v.kind(), want.as_ref().map(|w| w.iter().take(12).copied().collect::<Vec<_>>())));
    match (&want, &got) {
        (None, Result::Err(_)) => k.event("no-encoding"),
        (Some(w), Ok(g)) => {
            k.check(w == g, "encoding", || format!("{v:?}\n expected {}\n got {}", hex::encode(w), hex::encode(g)));
            let Some(back) = k.nopanic("decode", || hex::encode(g), || RadonTypes::try_from(g.as_slice())) else { return };
            match back {
                Ok(b) => {
                    k.event("round-trip");
                    if let Some(l) = lost(&v) {
                        // A known finding, exactly so and no other way.
                        k.event("below-i64");
                        let u = V::of(&b);
                        if u.same(&l) {
                            k.violate(LOST, format!("{v:?} came back as {u:?}"));
                        } else {
                            k.check(u.same(&v), "round-trip", || format!("{v:?} came back as {u:?}"));
                        }
                    } else {
                        k.check(V::of(&b).same(&v), "round-trip", || format!("{v:?} came back as {:?}", V::of(&b)));
                        k.check(b == x && h(&b) == h(&x), "equality", || format!("{v:?} and what came back"));
                    }
                    // the hash of a value is that of its encoding
                    let hash = x.clone().hash().ok().map(|h| h.as_ref().to_vec());
                    k.check(hash == Some(vref::hash::sha256(w).to_vec()), "hash", || format!("{v:?}"));
                }
                Result::Err(e) => k.violate("round-trip", format!("{v:?}: {e:?}")),
            }
        }
        (w, g) => k.violate("encoding", format!("{v:?}\n expected {w:?}\n got {g:?}")),
    }
    // equality and hashes follow the value
    let u = if k.rng.bool() { v.clone() } else { tweak(&mut k.rng, &v) };
    let y = u.rad();
    let same = u.same(&v);
    k.event(if same { "equal" } else { "different" });
    k.check((x == y) == same && (y == x) == same, "equality", || format!("{v:?} == {u:?} is {}", x == y));
    if same {
        k.check(h(&x) == h(&y), "equality", || format!("hashes of {v:?}"));
    }
}
const LOST: &str = "sign-lost-below-minus-2-to-the-63";
/// What becomes of a value if integers below -2^63 lose their sign; None if there are none.
fn lost(v: &V) -> Option<V> {
    match v {
        Int(i) if *i < i128::from(i64::MIN) => Some(Int(-1 - i)),
        Arr(a) => {
            let b: Vec<_> = a.iter().map(|x| lost(x)).collect();
            b.iter().any(|x| x.is_some()).then(|| Arr(b.into_iter().zip(a).map(|(l, x)| l.unwrap_or_else(|| x.clone())).collect()))
        }
        Map(m) => {
            let b: BTreeMap<_, _> = m.iter().map(|(k, x)| (k.clone(), lost(x))).collect();
            b.values().any(|x| x.is_some()).then(|| Map(b.into_iter().map(|(k, l)| { let x = l.unwrap_or_else(|| m[&k].clone()); (k, x) }).collect()))
        }
        _ => None,
    }
}
/// Bytes that are well formed, and what they mean: Err if they mean nothing.
fn item(r: &mut Rng, d: usize, top: bool, o: &mut Vec<u8>) -> Result<V, ()> {
    let w = *r.pick(&[0, 0, 0, 1, 2, 4, 8]);
    if r.chance(1, 10) {
        // a tag that means nothing here
        let t = *r.pick(&[0, 1, 2, 24, 38, 40, 258, 55799]);
        head(6, t, 0, o);
        return item(r, d, top, o);
    }
    match r.below(if d == 0 { 7 } else { 11 }) {
        0 => {
            let n = r.edgy_u64();
            head(0, n, w, o);
            Ok(Int(n.into()))
        }
        1 => {
            let n = r.edgy_u64();
            head(1, n, w, o);
            Ok(Int(-1 - i128::from(n)))
        }
        2 => {
            let n = r.below(30) as usize;
            let b = r.bytes(n);
            head(2, n as u64, w, o);
            o.extend(&b);
            Ok(Bytes(b))
        }
        3 => {
            let s = val::text(r);
            head(3, s.len() as u64, w, o);
            o.extend(s.as_bytes());
            Ok(Str(s))
        }
        4 => {
            let b = r.bool();
            o.push(0xf4 | u8::from(b));
            Ok(Bool(b))
        }
        5 => {
            let f = val::float(r);
            match r.below(3) {
                0 => {
                    let g = f as f32;
                    o.push(0xfa);
                    o.extend(g.to_be_bytes());
                    Ok(Float(g.into()))
                }
                1 => {
                    let m = r.u64() as u16;
                    o.push(0xf9);
                    o.extend(m.to_be_bytes());
                    Ok(Float(half(m)))
                }
                _ => {
                    o.push(0xfb);
                    o.extend(f.to_be_bytes());
                    Ok(Float(f))
                }
            }
        }
        6 => {
            // null, undefined, a simple value
            match r.below(3) {
                0 => o.push(0xf6),
                1 => o.push(0xf7),
                _ => o.extend([0xf8, 32 + (r.u8() & 0x7f)]),
            }
            Result::Err(())
        }
        7 | 8 => {
            let n = r.below(5);
            head(4, n, w, o);
            let x: Vec<_> = (0..n).map(|_| item(r, d - 1, false, o)).collect();
            x.into_iter().collect::<Result<Vec<_>, _>>().map(Arr)
        }
        9 => {
            let n = r.below(4);
            head(5, n, w, o);
            let mut m = BTreeMap::new();
            for i in 0..n {
                let text = r.chance(4, 5);
                let key = format!("{}{i}", val::key(r));
                if text {
                    head(3, key.len() as u64, 0, o);
                    o.extend(key.as_bytes());
                } else {
                    head(0, i, 0, o);
                }
                let x = item(r, d - 1, false, o);
                if let (true, Ok(x)) = (text, x) {
                    m.insert(key, x);
                }
            }
            Ok(Map(m))
        }
        _ => {
            // an error: not within other values
            let (b, ok) = error_bytes(r);
            o.extend(&b);
            if top && ok { Ok(Fault(vec![])) } else { Result::Err(()) }
        }
    }
}
fn half(m: u16) -> f64 {
    let s = if m & 0x8000 != 0 { -1.0 } else { 1.0 };
    let (e, f) = (i32::from(m >> 10 & 31), f64::from(m & 0x3ff));
    s * match e {
        0 => f * 2f64.powi(-24),
        31 if f == 0.0 => f64::INFINITY,
        31 => f64::NAN,
        e => (1024.0 + f) * 2f64.powi(e - 25),
    }
}


fn error_bytes(r: &mut Rng) -> (Vec<u8>, bool) {
    let mut o = vec![];
    head(6, 39, 0, &mut o);
    match r.below(4) {
        0 => {
            head(4, 1, 0, &mut o);
            head(0, 0, 0, &mut o);
            (o, true)
        }
        1 => {
            head(4, 0, 0, &mut o);
            (o, false)
        }
        2 => {
            head(0, 0, 0, &mut o);
            (o, false)
        }
        _ => {
            head(4, 2, 0, &mut o);
            head(0, 0x70, 0, &mut o);
            let i = r.below(1000);
            head(0, i, 0, &mut o);
            (o, true)
        }
    }
}
fn bytes(k: &mut Case) {
    let r = &mut k.rng;
    let mut o = vec![];
    let d = r.below(5) as usize;
    let mut want = Some(item(r, d, true, &mut o));
    match r.below(6) {
        0 => {
            for _ in 0..r.range(1, 3) {
                let i = r.idx(o.len());
                o[i] = r.u8();
            }
            want = None;
        }
        1 => {
            let i = r.idx(o.len());
            o.truncate(i);
            want = if i == 0 { Some(Result::Err(())) } else { None };
        }
        2 => {
            // errors around anything
            let mut p = vec![0xd8, 39, 0x83, 0x18, *r.pick(&[0x30, 0x70, 0x71, 0xff, 0x10, 0x51, 0x05])];
            p.extend(&o);
            item(r, d, false, &mut p).ok();
            o = p;
            want = None;
        }
        3 => {
            let n = r.below(20) as usize;
            o = r.bytes(n);
            want = None;
        }
        _ => {}
    }
    k.eval(1);
    k.nontrivial(&(o.iter().take(6).copied().collect::<Vec<_>>(), o.len()));
    // what arrives in a reveal goes through here
    let mut list = vec![(o.as_slice(), &())].into_iter();
    let wips = crate::val::Rules { wips: Some([true; 3]), v21: true }.active().unwrap();
    fn replace(_: RadError, _: &[u8], _: &()) -> Option<RadonReport<RadonTypes>> {
        None
    }
    let Some(got) = k.nopanic("decode", || hex::encode(&o), || serial_iter_decode(&mut list, replace, &wips)) else { return };
    k.check(got.len() <= 1, "decode", || hex::encode(&o));
    let got = got.into_iter().next().map(|g| g.result);
    match (&want, &got) {
        (Some(Ok(Fault(_))), Some(RadonTypes::RadonError(_))) => k.event("error-of-bytes"),
        (Some(Ok(w)), Some(g)) => {
            let u = V::of(g);
            if lost(w).map(|l| l.same(&u)).unwrap_or(false) {
                k.violate(LOST, format!("{}\n expected {w:?}\n got {u:?}", hex::encode(&o)));
                return;
            }
            k.check(w.same(&u), "decode", || format!("{}\n expected {w:?}\n got {:?}", hex::encode(&o), V::of(g)));
            k.event("understood");
        }
        (Some(Result::Err(())), None) => k.event("refused"),
        (None, Some(_)) => k.event("understood"),
        (None, None) => k.event("refused"),
        (w, g) => k.violate("decode", format!("{}\n expected {w:?}\n got {g:?}", hex::encode(&o))),
    }
    // and whatever it is can be used
    if let Some(g) = got {
        let used = k.nopanic("use-of-decoded", || format!("{} is {g:?}", hex::encode(&o)), || {
            let a = witnet_rad::types::array::RadonArray::from(vec![g.clone(), g.clone()]);
            let _ = h(&g);
            let same = g == g.clone();
            let _ = witnet_rad::reducers::mode::mode(&a);
            (same, g.encode(), g.to_string().len())
        });
        if let Some((same, enc, _)) = used {
            k.check(same, "use-of-decoded", || format!("{g:?} differs from itself"));
            k.check(enc.is_ok(), "use-of-decoded", || format!("{} is {g:?} and cannot be encoded: {enc:?}", hex::encode(&o)));
            if let Ok(e) = enc {
                let again = RadonTypes::try_from(e.as_slice());
                k.check(again.as_ref().is_ok_and(|a| *a == g), "decoded-again", || format!("{g:?} became {again:?}"));
            }
        }
    }
    if o.windows(2).skip(1).any(|w| w == [0xd8, 39]) {
        k.event("nested-error");
    }
}
fn error(r: &mut Rng) -> RadError {
    let s = r.ascii(6);
    match r.below(20) {
        0 => RadError::Unknown,
        1 => RadError::SourceScriptNotCBOR,
        2 => RadError::SourceScriptNotArray,
        3 => RadError::SourceScriptNotRADON,
        4 => RadError::RequestTooManySources,
        5 => RadError::ScriptTooManyCalls,
        6 => RadError::UnsupportedOperator { input_type: s.clone(), operator: s, args: r.bool().then(|| { let n = r.below(3); (0..n).map(|_| val::scalar(r).cbor()).collect() }) },
        7 => RadError::HttpStatus { status_code: r.u32() as u16 },
        8 => RadError::Underflow,
        9 => RadError::Overflow,
        10 => RadError::DivisionByZero,
        11 => RadError::InsufficientCommits,
        12 => RadError::TooManyWitnesses,
        13 => RadError::NoReveals,
        14 => RadError::RetrieveTimeout,
        15 => RadError::InsufficientConsensus { achieved: r.below(100) as f64 / 100.0, required: 0.51 },
        16 => match r.below(3) {
            0 => RadError::TallyExecution { inner: None, message: Some(s) },
            1 => RadError::UnhandledIntercept { inner: None, message: Some(s) },
            _ => RadError::UnhandledInterceptV2 { inner: None },
        },
        17 => RadError::MalformedReveal,
        18 => RadError::ArrayIndexOutOfBounds { index: r.u32() as i32 },
        _ => RadError::MapKeyNotFound { key: r.unicode(4) },
    }
}
fn errors(k: &mut Case) {
    let r = &mut k.rng;
    let e = error(r);
    let f = if r.chance(1, 3) { e.clone() } else { error(r) };
    let x = RadonTypes::RadonError(RadonError::new(e.clone()));
    let y = RadonTypes::RadonError(RadonError::new(f.clone()));
    k.eval(1);
    let Some(b) = k.nopanic("encode-error", || format!("{e:?}"), || x.encode()) else { return };
    match &b {
        Ok(b) => {
            k.nontrivial(b);
            k.event("error");
            k.check(b.starts_with(&[0xd8, 39]), "error-tag", || format!("{e:?}: {}", hex::encode(b)));
            let back = k.nopanic("decode-error", || hex::encode(b), || RadonTypes::try_from(b.as_slice()));
            match back {
                Some(Ok(z)) => {
                    let again = z.encode();
                    k.check(again.as_ref().ok() == Some(b), "error-round-trip", || format!("{e:?}: {} came back as {z:?}", hex::encode(b)));
                    k.check(x == z && h(&x) == h(&z), "error-round-trip", || format!("{e:?} and {z:?}"));
                    let code = |r: &RadonTypes| match r {
                        RadonTypes::RadonError(e) => e.inner().try_into_error_code().ok().map(u8::from),
                        _ => None,
                    };
                    k.check(code(&x).is_some() && code(&x) == code(&z), "error-code", || format!("{e:?} and {z:?}"));
                    if matches!(z, RadonTypes::RadonError(ref w) if *w.inner() != e) {
                        k.violate("error-round-trip", format!("{e:?} came back as {z:?}"));
                    }
                }
                Some(Result::Err(er)) => k.violate("error-round-trip", format!("{e:?}: {} cannot be read: {er:?}", hex::encode(b))),
                None => {}
            }
        }
        Result::Err(er) => k.violate("encode-error", format!("{e:?}: {er:?}")),
    }
    let same = e == f;
    k.check((x == y) == same, "equality-of-errors", || format!("{e:?} and {f:?}"));
    // an error raised by a script becomes an error value that can be encoded
    let any = match k.rng.below(4) {
        0 => RadError::ModeTie { values: vec![].into(), max_count: 1 },
        1 => RadError::ParseInt { message: "x".into() },
        2 => RadError::InconsistentSource,
        _ => e.clone(),
    };
    let i = <RadonTypes as TypeLike>::intercept(Result::Err(any.clone()));
    let enc = i.encode();
    k.check(matches!(i, RadonTypes::RadonError(_)) && enc.is_ok(), "intercepted", || format!("{any:?} became {i:?}: {enc:?}"));
    let _ = e.encode_cbor_array();
}
/// Many reveals at once: every one is judged on its own.
fn reveals(k: &mut Case) {
    let r = &mut k.rng;
    let n = r.below(6) as usize;
    let mut all: Vec<(Vec<u8>, Option<V>)> = vec![];
    for i in 0..n {
        if r.chance(1, 3) {
            let mut bad = vec![0x81; r.range(1, 3) as usize];
            bad.extend(*r.pick(&[&[0xf6u8][..], &[0xff], &[0xd8, 39, 0x80], &[]]));
            all.push((bad, None));
        } else {
            let v = Int(i as i128);
            all.push((encode(&v).unwrap(), Some(v)));
        }
    }
    let keep = r.bool();
    fn drop(_: RadError, _: &[u8], _: &usize) -> Option<RadonReport<RadonTypes>> {
        None
    }
    fn mark(_: RadError, _: &[u8], i: &usize) -> Option<RadonReport<RadonTypes>> {
        Some(RadonReport::from_result(Ok(Str(format!("bad {i}")).rad()), &ReportContext::default()))
    }
    let idx: Vec<usize> = (0..n).collect();
    let wips = crate::val::Rules { wips: Some([true; 3]), v21: true }.active().unwrap();
    let mut it = all.iter().zip(&idx).map(|((b, _), i)| (b.as_slice(), i));
    k.eval(1);
    k.nontrivial(&all.iter().map(|(b, _)| b.clone()).collect::<Vec<_>>());
    let got = k.nopanic("reveals", || format!("{all:?}"), || serial_iter_decode(&mut it, if keep { mark } else { drop }, &wips));
    let Some(got) = got else { return };
    let got: Vec<V> = got.into_iter().map(|g| V::of(&g.result)).collect();
    let want: Vec<V> = all
        .iter()
        .enumerate()
        .filter_map(|(i, (_, v))| match v {
            Some(v) => Some(v.clone()),
            None if keep => Some(Str(format!("bad {i}"))),
            None => None,
        })
        .collect();
    k.event("reveals");
    if want.len() < n || want.iter().any(|v| matches!(v, Str(_))) {
        k.event("reveal-replaced");
    }
    k.check(same_all(&want, &got), "reveals", || format!("{all:?}\n expected {want:?}\n got {got:?}"));
}
