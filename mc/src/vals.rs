//! Value sets, and running a catalogue operation against its definition.
use crate::cat::*;
use crate::check::Out;
use crate::nd::{Nd, V};
use crate::obs::observe;
use crate::tio::*;
use half::{bf16, f16};

/// every value of types up to 16 bits, a boundary set for wider ones
pub fn dense(d: DType) -> Vec<V> {
    match d {
        DType::BOOL => vec![V::B(false), V::B(true)],
        DType::F8E4M3 => (0..=255u8).map(|b| V::F(f8e4m3_val(b))).collect(),
        DType::F8E5M2 => (0..=255u8).map(|b| V::F(f8e5m2_val(b))).collect(),
        DType::BF16 => (0..=65535u16).map(|b| V::F(bf16::from_bits(b).to_f64())).collect(),
        DType::F16 => (0..=65535u16).map(|b| V::F(f16::from_bits(b).to_f64())).collect(),
        DType::U8 | DType::I8 | DType::U16 | DType::I16 => {
            let (a, b) = int_range(d);
            (a..=b).map(V::I).collect()
        },
        DType::F32 => {
            // every f16 value, then the edges of the type
            let mut v: Vec<V> = (0..=65535u16).map(|b| V::F(f16::from_bits(b).to_f64())).collect();
            v.extend(edges(d));
            v
        },
        _ => edges(d),
    }
}
/// boundary values of a type
pub fn edges(d: DType) -> Vec<V> {
    if d.is_bool() {
        return dense(d);
    }
    if let Some((bits, _)) = int_bits(d) {
        let (lo, hi) = int_range(d);
        let mut s = std::collections::BTreeSet::new();
        for x in [0i128, 1, 2, 3, 5, 7, 10, 13, 100] {
            s.insert(x);
            s.insert(-x);
        }
        for k in [3, 4, 7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 62, 63] {
            if k < bits {
                for e in -1..=1 {
                    s.insert((1i128 << k) + e);
                    s.insert(-(1i128 << k) + e);
                }
            }
        }
        for e in 0..3 {
            s.insert(lo + e);
            s.insert(hi - e);
        }
        return s.into_iter().filter(|x| *x >= lo && *x <= hi).map(V::I).collect();
    }
    let m = fmax(d);
    let t = ftiny(d);
    let e = eps(d);
    let mut v = vec![0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    if d == DType::F8E4M3 {
        v.truncate(3);
    }
    for x in [
        0.125, 0.25, 0.5, 0.75, 1.0, 1.0 + e, 1.0 - e / 2.0, 1.25, 1.5, 1.75, 2.0, 2.5, 3.0, 3.5, 4.0, 5.5, 6.0, 7.0, 9.0, 10.0, 15.0,
        20.0, 30.0, 88.0, 100.0, 127.0, 128.0, 255.0, 256.0, 400.0, 0.1, 0.3, 0.7, 1e-2, 1e-3, 1e-5, 1e-10, 1e5, 1e10, 1e-30, 1e30, t, 3.0 * t, m, m / 2.0,
        m * 0.75, 16777215.0, 16777216.0, 2147483648.0,
    ] {
        let x = quant(d, x);
        if x.is_finite() && x.abs() <= m {
            for s in [x, -x] {
                if !v.iter().any(|y| y.to_bits() == s.to_bits()) {
                    v.push(s);
                }
            }
        }
    }
    v.into_iter().map(V::F).collect()
}

/// Run on tensors with these layouts and compare every result with its definition.
pub fn against(k: &K, vals: &[Nd], dts: &[DType], lay: &[&str], tol: f64) -> Out {
    against_w(k, vals, dts, lay, tol, &eval(k, vals, dts))
}
pub fn against_w(k: &K, vals: &[Nd], dts: &[DType], lay: &[&str], tol: f64, want: &[(Nd, DType)]) -> Out {
    let mut ts = vec![];
    for i in 0..vals.len() {
        match laid(&vals[i], dts[i], lay.get(i).copied().unwrap_or("c")) {
            Ok(Some(t)) => ts.push(t),
            Ok(None) => return Out::Skip,
            Err(e) => return Out::Bad("err", format!("building operand: {e}")),
        }
    }
    let xs: Vec<&Tensor> = ts.iter().collect();
    let got = match run(k, &xs) {
        Ok(r) => r,
        Err(e) => return Out::Bad("err", format!("{e}")),
    };
    judge(&got, want, tol)
}
pub fn judge(got: &[Tensor], want: &[(Nd, DType)], tol: f64) -> Out {
    if got.len() != want.len() {
        return Out::Bad("wrong", format!("{} results, expected {}", got.len(), want.len()));
    }
    let mut s = String::new();
    for (g, (w, wd)) in got.iter().zip(want) {
        let r = match read(g) {
            Ok(r) => r,
            Err(e) => return Out::Bad("err", format!("reading the result: {e}")),
        };
        if g.dtype() != *wd {
            return Out::Bad("wrong", format!("element type {}, expected {}", g.dtype(), wd));
        }
        if let Err(e) = agree(&r, w, *wd, tol) {
            return Out::Bad("wrong", e);
        }
        if r.data.len() <= 64 {
            match observe(g, &r, *wd) {
                Ok(o) => s += &o,
                Err(e) => return Out::Bad("wrong", format!("readers of the result disagree: {e}")),
            }
        } else {
            s += &format!("{:016x}", crate::check::h64(&r.show()));
        }
    }
    Out::Ok(s)
}

/// all shapes of rank 0..=r with dimensions from `dims`
pub fn shapes(r: usize, dims: &[usize]) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..r {
        cur = cur.into_iter().flat_map(|s| dims.iter().map(move |d| [s.clone(), vec![*d]].concat())).collect();
        all.extend(cur.clone());
    }
    all
}
/// all vectors of length n over `a`
pub fn tuples<T: Clone>(n: usize, a: &[T]) -> Vec<Vec<T>> {
    let mut cur: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        cur = cur.into_iter().flat_map(|s| a.iter().map(move |d| [s.clone(), vec![d.clone()]].concat())).collect();
    }
    cur
}
/// all subsets (as sorted index lists) of 0..n
pub fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}
/// all permutations of 0..n
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}
