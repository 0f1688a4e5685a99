//! C03: element-wise operations and casts against their definitions.
//! Exhaustive over values (every value of the 8 and 16 bit types, every pair of the 8 bit types), over pairs of
//! broadcastable shapes, and over sizes across the vectorised and threaded paths.
use mc::cat::*;
use mc::check::*;
use mc::gen::*;
use mc::nd::*;
use mc::tio::*;
use mc::vals::*;

/// Where the definition leaves the value open.
fn open_value(k: &K, d: DType, v: &[V]) -> bool {
    let nan = v.iter().any(|x| x.is_f() && x.f().is_nan());
    match k {
        // ordering with a NaN, and the sign of NaN are not defined
        K::Bin("maximum" | "minimum") | K::UnS("maximum_scalar" | "minimum_scalar", _) | K::Clamp(..) | K::ClampMin(_) | K::ClampMax(_) => nan,
        K::Un("relu" | "sign" | "hardsigmoid" | "hardsilu" | "selu" | "celu" | "softplus") | K::UnS("leaky_relu" | "elu" | "prelu", _) => nan,
        // shifting by at least the width of the type
        K::Bit("shl" | "shr") => {
            let w = int_bits(d).unwrap().0 as i128;
            v[1].i() < 0 || v[1].i() >= w
        },
        K::Cast(t) => match v[0] {
            // no integer represents these
            V::F(x) if int_bits(*t).is_some() => {
                let (lo, hi) = int_range(*t);
                !x.is_finite() || x.trunc() < lo as f64 || x.trunc() >= (hi + 1) as f64
            },
            _ => false,
        },
        // x / (1 + |x|) rounds to one
        K::Un("softsign") => d.is_int() && v[0].i().abs() >= 1 << 23,
        _ => false,
    }
}

fn dense_case(k: &K, vals: &[Nd], dts: &[DType], tol: f64) -> Out {
    let want = eval(k, vals, dts);
    let ts: Vec<Tensor> = match vals.iter().zip(dts).map(|(v, d)| tensor(v, *d)).collect::<HoduResult<_>>() {
        Ok(t) => t,
        Err(e) => return Out::Bad("err", e.to_string()),
    };
    let xs: Vec<&Tensor> = ts.iter().collect();
    let got = match run(k, &xs) {
        Ok(r) => r,
        Err(e) => return Out::Bad("err", e.to_string()),
    };
    let (w, wd) = &want[0];
    if got[0].dtype() != *wd {
        return Out::Bad("wrong", format!("element type {}, expected {}", got[0].dtype(), wd));
    }
    let g = match read(&got[0]) {
        Ok(g) => g,
        Err(e) => return Out::Bad("err", e.to_string()),
    };
    if g.shape != w.shape {
        return Out::Bad("wrong", format!("shape {:?}, expected {:?}", g.shape, w.shape));
    }
    let bc: Vec<Nd> = vals.iter().map(|v| v.broadcast(&w.shape)).collect();
    let mut bad = vec![];
    let mut n = 0;
    for i in 0..w.data.len() {
        let ops: Vec<V> = bc.iter().map(|b| b.data[i]).collect();
        if open_value(k, dts[0], &ops) {
            continue;
        }
        let ok = match (g.data[i], w.data[i]) {
            (V::F(a), V::F(b)) => close(k, a, b, *wd, tol, &ops),
            (a, b) => a == b,
        };
        if !ok {
            n += 1;
            if bad.len() < 6 {
                bad.push(format!("{ops:?} gives {:?}, expected {:?}", g.data[i], w.data[i]));
            }
        }
    }
    if n > 0 {
        return Out::Bad("wrong", format!("{n} of {} values: {}", w.data.len(), bad.join("; ")));
    }
    Out::Ok(format!("{} values, {:016x}", w.data.len(), h64(&g.show())))
}

/// error allowed: a few units of the type at the scale of the result or of the terms that cancel in it
fn close(k: &K, g: f64, w: f64, d: DType, tol: f64, ops: &[V]) -> bool {
    if feq(g, w, d, tol) {
        return true;
    }
    if d == DType::F8E4M3 && w.abs() > 448.0 {
        // no infinity: an overflow gives the largest value or NaN
        return g.is_nan() || (g.abs() == 448.0 && g.signum() == w.signum());
    }
    if !g.is_finite() || !w.is_finite() {
        return false;
    }
    let x = ops[0].f().abs();
    let scale: f64 = match k {
        K::Bin("pow") | K::UnS("pow_scalar", _) | K::Un("exp10" | "exp2" | "exp" | "sinh" | "cosh") => w.abs() * (1.0 + w.abs().ln().abs() * 0.5),
        K::Un("gelu" | "mish" | "silu" | "hardsilu") => x.min(1e4),
        // the argument of the logarithm is known to a few units, relative to its distance from zero
        K::Un("atanh") if x < 1.0 => 0.5 / (1.0 - x),
        _ => 0.0,
    };
    (g - w).abs() <= tol * eps(d) * scale
}

fn main() {
    let mut c = Check::new("C03", "model_checking");
    let th = c.thorough();

    // 1. every value of one operand
    let mut unary: Vec<K> = vec![];
    unary.extend(UNARY.iter().map(|n| K::Un(n)));
    for n in UNARY_S {
        for s in if n == "pow_scalar" { vec![2.0, 3.0, 0.5, -1.0, 0.0] } else { vec![2.0, 3.0, 0.5, -1.0] } {
            unary.push(K::UnS(n, s));
        }
    }
    unary.extend(UNLOGIC.iter().map(|n| K::UnLogic(n)));
    for n in CMP_S {
        unary.push(K::CmpS(n, 1.0));
        unary.push(K::CmpS(n, -2.5));
        unary.push(K::CmpS(n, 0.0));
    }
    unary.push(K::BitNot);
    for s in [0, 1, 2, 7] {
        unary.push(K::Shift("shl_scalar", s));
        unary.push(K::Shift("shr_scalar", s));
    }
    unary.extend(ALL_DT.iter().map(|t| K::Cast(*t)));
    unary.extend([K::Clamp(-1.0, 2.0), K::Clamp(1.0, 100.0), K::ClampMin(1.0), K::ClampMax(1.0)]);
    for d in ALL_DT {
        let v = dense(d);
        let a = Nd::new(vec![v.len()], v);
        for k in &unary {
            if !accepts(k, d) {
                continue;
            }
            if d.is_uint() && matches!(k, K::UnS(_, s) | K::CmpS(_, s) if *s < 0.0) || d.is_uint() && matches!(k, K::Clamp(m, _) if *m < 0.0) {
                continue;
            }
            if d.is_int() && matches!(k, K::UnS("rem_scalar", s) if s.trunc() == 0.0) {
                continue;
            }
            c.case(&group(k), &format!("value/{}/{}", dn(d), name(k)), || dense_case(k, &[a.clone()], &[d], tol(k, d)));
        }
    }
    // 2. every pair of values
    let mut binary: Vec<K> = vec![];
    binary.extend(BINARY.iter().map(|n| K::Bin(n)));
    binary.extend(LOGIC.iter().map(|n| K::Logic(n)));
    binary.extend(CMP.iter().map(|n| K::Cmp(n)));
    binary.extend(BIT.iter().map(|n| K::Bit(n)));
    for d in ALL_DT {
        let small = matches!(d, DType::BOOL | DType::F8E4M3 | DType::F8E5M2 | DType::U8 | DType::I8);
        let v = if small { dense(d) } else { edges(d) };
        let n = v.len();
        let (a, b) = (Nd::new(vec![n, 1], v.clone()), Nd::new(vec![1, n], v));
        for k in &binary {
            if !accepts(k, d) {
                continue;
            }
            let (mut b2, mut a2) = (b.clone(), a.clone());
            if matches!(k, K::Bit("shl" | "shr")) {
                let w = int_bits(d).unwrap().0 as i128;
                b2 = Nd::new(vec![1, w as usize], (0..w).map(V::I).collect());
            }
            c.case(&group(k), &format!("pair/{}/{}", dn(d), name(k)), || dense_case(k, &[a2.clone(), b2.clone()], &[d, d], tol(k, d)));
            // the same pairs through the contiguous path
            let s = [a2.shape[0], b2.shape[1]];
            a2 = a2.broadcast(&s);
            b2 = b2.broadcast(&s);
            c.case(&group(k), &format!("pairflat/{}/{}", dn(d), name(k)), || dense_case(k, &[a2.clone(), b2.clone()], &[d, d], tol(k, d)));
        }
        // selections
        let m = Nd::new(vec![2, 1, 1], vec![V::B(true), V::B(false)]);
        c.case("where", &format!("pair/{}/where", dn(d)), || {
            dense_case(&K::Where, &[a.clone(), m.clone(), b.clone()], &[d, DType::BOOL, d], 0.0)
        });
        c.case("masked_fill", &format!("pair/{}/masked_fill", dn(d)), || {
            let s = [2, n, 1];
            dense_case(&K::MaskedFill(1.0), &[a.broadcast(&s), m.broadcast(&s)], &[d, DType::BOOL], 0.0)
        });
    }
    // 3. every pair of broadcastable shapes
    let sh = shapes(3, &[1, 2, 3]);
    for k in &binary {
        let ds: Vec<DType> = if th { ALL_DT.to_vec() } else { vec![DType::F32, DType::I32, DType::BOOL] };
        for d in ds {
            if !accepts(k, d) {
                continue;
            }
            for s in &sh {
                for t in &sh {
                    if bshape(s, t).is_none() {
                        continue;
                    }
                    let key = format!("shape/{}/{}/{s:?}{t:?}", dn(d), name(k)).replace(' ', "");
                    if !c.wants(&key) {
                        continue;
                    }
                    let r = if matches!(k, K::Bit("shl" | "shr")) { R::Sh } else { R::Nz };
                    let x = values(s, if matches!(k, K::Bin("pow")) { R::Pos } else { R::G }, d, 0);
                    let y = values(t, r, d, 1);
                    c.case(&group(k), &key, || against(k, &[x, y], &[d, d], &[], tol(k, d)));
                }
            }
        }
    }
    for s in &sh {
        for m in &sh {
            for t in if th { sh.clone() } else { vec![s.clone(), vec![1], vec![3, 1]] } {
                let Some(o) = bshape(s, m).and_then(|o| bshape(&o, &t)) else { continue };
                if o.len() > 3 {
                    continue;
                }
                let key = format!("shape/f32/where/{s:?}{m:?}{t:?}").replace(' ', "");
                c.case("where", &key, || {
                    against(&K::Where, &[values(s, R::G, DType::F32, 0), values(m, R::Mask, DType::BOOL, 1), values(&t, R::G, DType::F32, 2)], &[DType::F32, DType::BOOL, DType::F32], &[], 0.0)
                });
            }
        }
    }
    // 4. sizes: remainders of the vectorised loops, and the threaded path
    let mut sizes: Vec<usize> = (1..=if th { 130 } else { 40 }).collect();
    sizes.extend([255, 256, 257, 1023, 1025]);
    let mut all: Vec<K> = unary.iter().filter(|k| !matches!(k, K::UnS(_, s) | K::CmpS(_, s) if *s <= 0.0)).cloned().collect();
    all.extend(binary.clone());
    for k in &all {
        for d in ALL_DT {
            if d.is_uint() && matches!(k, K::Clamp(m, _) if *m < 0.0) {
                continue;
            }
            if !accepts(k, d) || !(th || matches!(d, DType::F32 | DType::F64 | DType::I32 | DType::U8 | DType::F16 | DType::BOOL)) {
                continue;
            }
            let bin = matches!(k, K::Bin(_) | K::Logic(_) | K::Cmp(_) | K::Bit(_));
            let r = match k {
                K::Un(n) => match *n {
                    "sqrt" | "ln" | "log2" | "log10" => R::Pos,
                    "asin" | "acos" | "atanh" => R::Unit,
                    "acosh" => R::Gt1,
                    _ => R::G,
                },
                K::Bin("pow") | K::UnS("pow_scalar", _) | K::Cast(_) => R::Pos,
                _ => R::G,
            };
            let mut ss = sizes.clone();
            let big = matches!(d, DType::F32) || (th && !matches!(d, DType::F8E4M3 | DType::F8E5M2));
            if big {
                ss.extend([199_999, 200_000, 200_003, 262_145]);
            }
            if matches!(k, K::UnS("rem_scalar", s) if s.trunc() == 0.0) && d.is_int() {
                continue;
            }
            for n in ss {
                let key = format!("size/{}/{}/{n}", dn(d), name(k));
                if !c.wants(&key) {
                    continue;
                }
                let x = values(&[n], r, d, 0);
                let mut v = vec![x];
                if bin {
                    v.push(values(&[n], if matches!(k, K::Bit("shl" | "shr")) { R::Sh } else { R::Nz }, d, 1));
                }
                let dts = vec![d; v.len()];
                if n > 100_000 {
                    c.case(&group(k), &key, || dense_case(k, &v, &dts, tol(k, d)));
                } else {
                    c.case(&group(k), &key, || against(k, &v, &dts, &[], tol(k, d)));
                }
            }
        }
    }
    c.finish("every value (8/16 bit types) or boundary value of each operand, every pair of 8 bit values, every pair of broadcastable shapes up to rank 3, every size across the vector and thread thresholds; oracle: the mathematical definition in f64/i128")
}
