//! Filters and reducers, from their definitions.
use crate::interp::homogeneous;
use crate::val::{Rules, E, R, V};
use serde_cbor::Value;
use V::*;

/// Equal for the purposes of counting: same type and same encoding.
pub fn equal(a: &V, b: &V) -> bool {
    a.same(b)
}
fn fsum(x: &[f64]) -> f64 {
    let mut s = 0.0;
    for v in x {
        s += v;
    }
    s
}
fn stats(x: &[f64]) -> (f64, f64) {
    let n = x.len() as f64;
    let mean = fsum(x) / n;
    let sq: Vec<f64> = x.iter().map(|v| (v - mean) * (v - mean)).collect();
    (mean, (fsum(&sq) / n).sqrt())
}
/// All numbers of one kind, as floats, and whether they are floats.
fn numbers(a: &[V]) -> Result<(Vec<f64>, bool), E> {
    let float = matches!(a[0], Float(_));
    a.iter()
        .map(|v| match v {
            Float(f) if float => Ok(*f),
            Int(i) if !float => Ok(*i as f64),
            _ => Err(E::Other),
        })
        .collect::<Result<_, _>>()
        .map(|v| (v, float))
}
fn columns(a: &[V]) -> Result<Vec<Vec<V>>, E> {
    let rows: Vec<&Vec<V>> = a
        .iter()
        .map(|r| match r {
            Arr(r) => Ok(r),
            _ => Err(E::Other),
        })
        .collect::<Result<_, _>>()?;
    let w = rows.first().map_or(0, |r| r.len());
    if rows.iter().any(|r| r.len() != w) {
        return Err(E::Other);
    }
    Ok((0..w).map(|i| rows.iter().map(|r| r[i].clone()).collect()).collect())
}
/// The most frequent value, and how often it is there; no value if several are that frequent.
pub fn mode(a: &[V]) -> (Option<V>, usize) {
    let count: Vec<usize> = a.iter().map(|x| a.iter().filter(|y| equal(x, y)).count()).collect();
    let max = count.iter().copied().max().unwrap_or(0);
    let top: Vec<&V> = a.iter().zip(&count).filter(|(_, c)| **c == max).map(|(v, _)| v).collect();
    match top.first() {
        Some(f) if top.iter().all(|x| equal(x, f)) => (Some((*f).clone()), max),
        _ => (None, max),
    }
}
/// What passes a filter, and per item whether it was left out. No list where nothing was judged.
pub fn filter(a: &[V], code: u8, extra: &[Value]) -> Result<(Vec<V>, Option<Vec<bool>>), E> {
    let known = matches!(code, 0..=8 | 0x80..=0x88);
    if !known || !homogeneous(a) {
        return Err(E::Other);
    }
    let kept = |out: Vec<bool>| {
        let k = a.iter().zip(&out).filter(|(_, o)| !**o).map(|(v, _)| v.clone()).collect();
        Ok((k, Some(out)))
    };
    match code {
        5 => {
            let sigmas = match extra {
                [Value::Integer(i)] => *i as f64,
                [Value::Float(f)] => *f,
                _ => return Err(E::Other),
            };
            let far = |x: &[f64]| -> Vec<bool> {
                let (m, s) = stats(x);
                let (lo, hi) = (m - sigmas * s, m + sigmas * s);
                x.iter().map(|v| !(*v >= lo && *v <= hi)).collect()
            };
            match a.first() {
                None => Ok((vec![], None)),
                Some(Arr(row)) => {
                    if row.is_empty() || !homogeneous(row) || matches!(row[0], Arr(_)) {
                        return Err(E::Other);
                    }
                    let mut out = vec![false; a.len()];
                    for c in columns(a)? {
                        for (o, f) in out.iter_mut().zip(far(&numbers(&c)?.0)) {
                            *o |= f;
                        }
                    }
                    kept(out)
                }
                Some(_) => kept(far(&numbers(a)?.0)),
            }
        }
        8 => {
            if a.is_empty() {
                return Err(E::Other);
            }
            let Some(m) = mode(a).0 else { return Err(E::Other) };
            kept(a.iter().map(|x| !equal(x, &m)).collect())
        }
        _ => Err(E::Other),
    }
}
fn each_column(a: &[V], f: fn(&[V]) -> R) -> R {
    columns(a)?.iter().map(|c| f(c)).collect::<Result<Vec<_>, _>>().map(Arr)
}
fn mean(a: &[V]) -> R {
    match a.first() {
        None => Ok(Float(f64::NAN)),
        Some(Arr(_)) => each_column(a, mean),
        Some(_) => {
            let (x, float) = numbers(a)?;
            let m = fsum(&x) / x.len() as f64;
            Ok(if float { Float(m) } else { Int(m.round() as i128) })
        }
    }
}
fn deviation(a: &[V]) -> R {
    match a.first() {
        None => Ok(Float(f64::NAN)),
        Some(Arr(_)) => each_column(a, deviation),
        Some(_) => Ok(Float(stats(&numbers(a)?.0).1)),
    }
}
pub fn reduce(a: &[V], code: u8, c: &Rules) -> R {
    if code > 0x0b || !homogeneous(a) {
        return Err(E::Other);
    }
    let on = |i: usize| c.wips.is_some_and(|w| w[i]);
    match code {
        2 => match mode(a) {
            (Some(m), _) => Ok(m),
            _ => Err(E::Other),
        },
        3 => mean(a),
        5 if on(0) => match a.first() {
            Some(Float(_)) => {
                let mut x: Vec<f64> = numbers(a)?.0.into_iter().filter(|f| !f.is_nan()).collect();
                x.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let n = x.len();
                match n {
                    0 => Err(E::Other),
                    _ if n % 2 == 1 => Ok(Float(x[n / 2])),
                    _ => Ok(Float(fsum(&x[n / 2 - 1..=n / 2]) / 2.0)),
                }
            }
            Some(Int(_)) => {
                let mut x: Vec<i128> = a
                    .iter()
                    .map(|v| match v {
                        Int(i) => *i,
                        _ => unreachable!(),
                    })
                    .collect();
                x.sort();
                let n = x.len();
                if n % 2 == 1 {
                    Ok(Int(x[n / 2]))
                } else {
                    Ok(Int((fsum(&[x[n / 2 - 1] as f64, x[n / 2] as f64]) / 2.0).round() as i128))
                }
            }
            _ => Err(E::Other),
        },
        7 => deviation(a),
        0x0b if on(0) => {
            if a.is_empty() {
                return Err(E::Other);
            }
            let mut all = vec![];
            for v in a {
                let b = match v {
                    Bytes(b) => b.clone(),
                    Str(s) => hex::decode(s).or(Err(E::Other))?,
                    _ => return Err(E::Other),
                };
                let b = &b[..b.len().min(32)];
                all.extend(vec![0; 32 - b.len()]);
                all.extend(b);
            }
            Ok(Bytes(vref::hash::sha256(&all).to_vec()))
        }
        _ => Err(E::Other),
    }
}
