//! C04: reductions, scans, sorting, softmax and linear algebra against their definitions.
//! Exhaustive over axes (every ordered subset, negative forms), keep-dimension, element type and small value
//! assignments over a tie-rich alphabet; sizes across vector and thread thresholds.
use mc::cat::*;
use mc::check::*;
use mc::gen::*;
use mc::nd::*;
use mc::tio::*;
use mc::vals::*;

fn role(n: &str) -> R {
    match n {
        "logsum" => R::Pos,
        "argmax" | "argmin" => R::Dist,
        _ => R::G,
    }
}
/// every ordered subset of the axes, non-negative and in negative form
fn axis_lists(n: usize) -> Vec<Vec<i32>> {
    let mut out: Vec<Vec<i32>> = vec![vec![]];
    for s in subsets(n) {
        for p in perms(s.len()) {
            let a: Vec<i32> = p.iter().map(|&i| s[i] as i32).collect();
            if a.is_empty() {
                continue;
            }
            let neg: Vec<i32> = a.iter().map(|x| x - n as i32).collect();
            let mut mix = a.clone();
            mix[0] -= n as i32;
            for v in [a, neg, mix] {
                if !out.contains(&v) {
                    out.push(v);
                }
            }
        }
    }
    out
}
/// all vectors of length n over the alphabet, as the rows of a matrix
fn rows(n: usize, al: &[V]) -> Nd {
    let t = tuples(n, al);
    Nd::new(vec![t.len(), n], t.into_iter().flatten().collect())
}
fn alphabet(d: DType, k: &K) -> Vec<V> {
    if d.is_bool() {
        return vec![V::B(false), V::B(true)];
    }
    if d.is_uint() {
        let hi = int_range(d).1;
        return [0, 1, 2, hi].iter().map(|x| V::I(*x)).collect();
    }
    if d.is_int() {
        let (lo, hi) = int_range(d);
        return match k {
            K::Det | K::Trace => [-1, 0, 1, 2].iter().map(|x| V::I(*x)).collect(),
            _ => [lo, -1, 0, 2, hi].iter().map(|x| V::I(*x)).collect(),
        };
    }
    let inf = matches!(k, K::Red("max" | "min" | "argmax" | "argmin" | "any" | "all", ..) | K::Topk(..)) && d != DType::F8E4M3;
    let mut v = vec![-1.0, 0.0, 1.0, 2.5];
    if inf {
        v.extend([f64::INFINITY, f64::NEG_INFINITY]);
    } else if matches!(k, K::Softmax(_) | K::LogSoftmax(_) | K::Red("logsumexp", ..)) {
        v.push(fmax(d).min(400.0) / 2.0);
        v.push(-fmax(d).min(400.0) / 2.0);
    } else {
        v.push(-3.0);
    }
    v.into_iter().map(|x| V::F(quant(d, x))).collect()
}

/// values and order of the selection, and that the indices point at them; which of several equal elements is open
fn topk_case(a: &Nd, d: DType, lay: &str, k: usize, dim: i32, largest: bool, sorted: bool) -> Out {
    let kk = K::Topk(k, dim, largest, sorted);
    let want = eval(&kk, &[a.clone()], &[d]);
    let t = match laid(a, d, lay) {
        Ok(Some(t)) => t,
        Ok(None) => return Out::Skip,
        Err(e) => return Out::Bad("err", e.to_string()),
    };
    let r = match run(&kk, &[&t]) {
        Ok(r) => r,
        Err(e) => return Out::Bad("err", e.to_string()),
    };
    let (v, i) = match (read(&r[0]), read(&r[1])) {
        (Ok(v), Ok(i)) => (v, i),
        (Err(e), _) | (_, Err(e)) => return Out::Bad("err", e.to_string()),
    };
    let dd = if dim < 0 { (a.shape.len() as i32 + dim) as usize } else { dim as usize };
    if r[0].dtype() != d || !r[1].dtype().is_int() || v.shape != want[0].0.shape || i.shape != v.shape {
        return Out::Bad("wrong", format!("types {} {} or shapes {:?} {:?}", r[0].dtype(), r[1].dtype(), v.shape, i.shape));
    }
    let mut base = v.shape.clone();
    base[dd] = 1;
    for ix in indices(&base) {
        let line = |n: &Nd| -> Vec<V> {
            (0..k)
                .map(|p| {
                    let mut j = ix.clone();
                    j[dd] = p;
                    n.at(&j)
                })
                .collect()
        };
        let (mut g, w, id) = (line(&v), line(&want[0].0), line(&i));
        let show = format!("at {ix:?}: values {g:?} indices {id:?}, expected values {w:?}");
        let mut seen = vec![];
        for (p, q) in id.iter().zip(&g) {
            let p = p.i();
            if p < 0 || p as usize >= a.shape[dd] || seen.contains(&p) {
                return Out::Bad("wrong", format!("index {p} repeated or out of range {show}"));
            }
            seen.push(p);
            let mut j = ix.clone();
            j[dd] = p as usize;
            if a.at(&j) != *q {
                return Out::Bad("wrong", format!("index {p} does not hold {q:?} {show}"));
            }
        }
        if !sorted {
            g.sort_by(|x, y| {
                let l = cmpv("lt", *x, *y);
                let e = cmpv("eq", *x, *y);
                if e { std::cmp::Ordering::Equal } else if l == largest { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less }
            });
        }
        if g != w {
            return Out::Bad("wrong", show);
        }
    }
    Out::Ok(format!("{:016x}", h64(&v.show())))
}

fn main() {
    let mut c = Check::new("C04", "model_checking");
    let th = c.thorough();

    // 1. axes: every shape, every ordered set of axes, keep-dimension, every type
    let mut sh = shapes(3, &[1, 2, 3]);
    sh.push(vec![2, 1, 3, 2]);
    sh.push(vec![3, 2, 2, 2]);
    if th {
        sh.extend(shapes(4, &[1, 2, 3]).into_iter().filter(|s| s.len() == 4));
        sh.push(vec![2, 1, 2, 3, 2]);
    }
    for n in REDUCE {
        for s in &sh {
            for ax in axis_lists(s.len()) {
                if matches!(n, "argmax" | "argmin") && !(ax.len() == 1 || (s.len() == 1 && ax.is_empty())) {
                    continue;
                }
                for keep in [false, true] {
                    let k = K::Red(n, ax.clone(), keep);
                    let ds: Vec<DType> = if th || s.len() <= 2 { ALL_DT.to_vec() } else { vec![DType::F32, DType::F64, DType::I32, DType::BOOL, DType::BF16] };
                    for d in ds {
                        if !accepts(&k, d) {
                            continue;
                        }
                        let lays: &[&str] = if th { &["c", "perm", "stepoff"] } else { &["c"] };
                        for l in lays {
                            let key = format!("axes/{}/{}/{s:?}/{l}", dn(d), name(&k)).replace(' ', "");
                            if !c.wants(&key) {
                                continue;
                            }
                            c.case(n, &key, || {
                                let mut x = values(s, role(n), d, 0);
                                if matches!(d, DType::F8E4M3 | DType::F8E5M2) && n == "prod" {
                                    // keep the product exactly representable
                                    x = x.map(|v| V::F(v.f().signum()));
                                }
                                against(&k, &[x], &[d], &[l], tol(&k, d))
                            });
                        }
                    }
                }
            }
        }
    }
    for p in [1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 0.5] {
        for s in &sh {
            for ax in axis_lists(s.len()) {
                for keep in [false, true] {
                    for d in [DType::F32, DType::F64] {
                        let k = K::NormP(p, ax.clone(), keep);
                        let key = format!("axes/{}/{}/{s:?}", dn(d), name(&k)).replace(' ', "");
                        c.case("norm", &key, || against(&k, &[values(s, R::G, d, 0)], &[d], &[], 16.0));
                    }
                }
            }
        }
    }
    // sums down to every shape that broadcasts to the operand
    for s in &sh {
        for t in &sh {
            if t.len() > s.len() || bshape(s, t).as_deref() != Some(&s[..]) {
                continue;
            }
            for d in [DType::F32, DType::F64, DType::I32, DType::U8] {
                let k = K::SumTo(t.clone());
                let key = format!("axes/{}/{}/{s:?}", dn(d), name(&k)).replace(' ', "");
                c.case("sum_to_shape", &key, || against(&k, &[values(s, R::G, d, 0)], &[d], &[], tol(&k, d)));
            }
        }
    }
    // scans and softmax along every axis
    for s in &sh {
        let n = s.len() as i32;
        for ax in -n..n {
            for d in ALL_DT {
                for k in [K::Cumsum(ax), K::Softmax(ax), K::LogSoftmax(ax)] {
                    if !accepts(&k, d) {
                        continue;
                    }
                    for l in ["c", "perm", "stepoff"] {
                        let key = format!("axes/{}/{}/{s:?}/{l}", dn(d), name(&k)).replace(' ', "");
                        c.case(&group(&k), &key, || against(&k, &[values(s, R::G, d, 0)], &[d], &[l], tol(&k, d)));
                    }
                }
            }
            let len = s[(if ax < 0 { ax + n } else { ax }) as usize];
            for kk in 1..=len {
                for largest in [true, false] {
                    for sorted in [true, false] {
                        for d in ALL_DT {
                            if !accepts(&K::Topk(kk, ax, largest, sorted), d) {
                                continue;
                            }
                            for l in ["c", "perm"] {
                                let key = format!("axes/{}/topk/{s:?}/{kk}/{ax}/{largest}/{sorted}/{l}", dn(d)).replace(' ', "");
                                c.case("topk", &key, || topk_case(&values(s, R::G, d, 0), d, l, kk, ax, largest, sorted));
                            }
                        }
                    }
                }
            }
        }
    }

    // 2. values: every vector over a small alphabet
    let maxn = if th { 6 } else { 4 };
    for d in ALL_DT {
        for n in REDUCE {
            let k = K::Red(n, vec![1], false);
            if !accepts(&k, d) {
                continue;
            }
            let mut al = alphabet(d, &k);
            let small = matches!(d, DType::F8E4M3 | DType::F8E5M2);
            if n == "logsum" {
                al.retain(|v| v.f() >= 0.0);
            }
            for len in 1..=maxn {
                let key = format!("vals/{}/{n}/{len}", dn(d));
                if !c.wants(&key) {
                    continue;
                }
                let t = match n {
                    "var" | "std" | "l2_norm" if small => 12.0,
                    _ => tol(&k, d),
                };
                c.case(n, &key, || against(&k, &[rows(len, &al)], &[d], &[], t));
                if th {
                    // the same vectors along axis 0
                    let k0 = K::Red(n, vec![0], true);
                    c.case(n, &(key + "/axis0"), || against(&k0, &[rows(len, &al).permute(&[1, 0])], &[d], &[], t));
                }
            }
        }
        for k in [K::Cumsum(1), K::Softmax(1), K::LogSoftmax(1)] {
            if !accepts(&k, d) {
                continue;
            }
            for len in 1..=maxn {
                let key = format!("vals/{}/{}/{len}", dn(d), name(&k));
                c.case(&group(&k), &key, || against(&k, &[rows(len, &alphabet(d, &k))], &[d], &[], tol(&k, d)));
            }
        }
        if accepts(&K::Topk(1, 1, true, true), d) {
            for len in 1..=maxn.min(5) {
                for kk in 1..=len {
                    for largest in [true, false] {
                        for sorted in [true, false] {
                            let key = format!("vals/{}/topk/{len}/{kk}/{largest}/{sorted}", dn(d));
                            c.case("topk", &key, || {
                                let k = K::Topk(kk, 1, largest, sorted);
                                topk_case(&rows(len, &alphabet(d, &k)), d, "c", kk, 1, largest, sorted)
                            });
                        }
                    }
                }
            }
        }
    }

    // 3. sizes: partial sums stay small integers, so every type is exact
    let mut sizes: Vec<usize> = (4..=if th { 140 } else { 40 }).collect();
    sizes.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 1000, 1025, 4097]);
    if th {
        sizes.extend([65_537, 200_001, 1_000_003]);
    }
    for n in REDUCE {
        for d in ALL_DT {
            let k = K::Red(n, vec![-1], false);
            if !accepts(&k, d) || matches!(d, DType::F8E4M3 | DType::F8E5M2) {
                continue;
            }
            if !th && !matches!(d, DType::F32 | DType::F64 | DType::I32 | DType::U8 | DType::F16 | DType::BOOL) {
                continue;
            }
            for &m in &sizes {
                if matches!(d, DType::F16 | DType::BF16) && m > 130 && matches!(n, "l1_norm" | "l2_norm" | "logsum" | "logsumexp" | "std" | "var" | "mean" | "sum") {
                    continue;
                }
                let key = format!("size/{}/{n}/{m}", dn(d));
                c.case(n, &key, || {
                    let x = Nd::from_fn(&[2, m], |ix| {
                        let i = ix[1] * 7 + ix[0] * 3;
                        let p = [1i128, -1, 2, -2, 1, 0, -1][i % 7];
                        let e = matches!(n, "max" | "argmax" | "any") as i128 - matches!(n, "min" | "argmin") as i128;
                        let p = if ix[1] == m - 1 - ix[0] && e != 0 { 3 * e } else if n == "any" { 0 } else { p };
                        let p = if n == "prod" { [1, -1, 1, 1, -1][ix[1] % 5] } else if n == "logsum" { p.abs() + 1 } else { p };
                        let p = if n == "all" { (ix[1] + 1 + ix[0] != m) as i128 } else { p };
                        if d.is_float() {
                            V::F(p as f64)
                        } else if d.is_bool() {
                            V::B(p != 0)
                        } else {
                            V::I(if d.is_uint() { (p.abs() + 1) % (1 + int_range(d).1) } else { p })
                        }
                    });
                    let t = if matches!(n, "logsumexp" | "logsum" | "l2_norm" | "std" | "var" | "mean") { 8.0 + (m as f64).sqrt() } else { tol(&k, d) };
                    against(&k, &[x], &[d], &[], t)
                });
            }
        }
    }
    // data far from zero: the deviation must not drown in the mean
    for n in ["var", "std", "mean"] {
        for (d, base) in [(DType::F32, 4096.0), (DType::F64, 1e8), (DType::F16, 64.0), (DType::BF16, 16.0), (DType::F32, 0.1), (DType::F64, 0.1)] {
            for m in [2, 3, 7, 8, 9, 16, 33] {
                for (ax, l) in [(-1, "c"), (0, "c"), (-1, "perm")] {
                    for spread in [0.0, 1.0] {
                        let key = format!("far/{}/{n}/{base}/{m}/{ax}/{l}/{spread}", dn(d));
                        c.case(n, &key, || {
                            let s = if ax == 0 { [m, 2] } else { [2, m] };
                            let x = Nd::from_fn(&s, |ix| V::F(quant(d, base + spread * ((ix[0] * 3 + ix[1] * 5) % 7) as f64)));
                            against(&K::Red(n, vec![ax], false), &[x], &[d], &[l], 64.0)
                        });
                    }
                }
            }
        }
    }
    for d in [DType::F32, DType::F64, DType::I32, DType::U8] {
        for &m in &sizes {
            for k in [K::Cumsum(-1), K::Cumsum(0), K::Softmax(-1), K::LogSoftmax(-1)] {
                if !accepts(&k, d) {
                    continue;
                }
                let key = format!("size/{}/{}/{m}", dn(d), name(&k));
                c.case(&group(&k), &key, || {
                    let s = if matches!(k, K::Cumsum(0)) { [m, 2] } else { [2, m] };
                    let x = Nd::from_fn(&s, |ix| {
                        let p = [1i128, -1, 2, -2, 1, 0, -1][(ix[0] * 7 + ix[1] * 5) % 7];
                        if d.is_float() { V::F(p as f64) } else { V::I(if d.is_uint() { p.abs() } else { p }) }
                    });
                    against(&k, &[x], &[d], &[], 8.0 + (m as f64).sqrt())
                });
            }
        }
    }

    // 4. linear algebra
    let fl = |v: &[f64], d: DType| -> Vec<V> { v.iter().map(|x| if d.is_float() { V::F(*x) } else { V::I(*x as i128) }).collect() };
    for d in ALL_DT {
        for k in [K::Det, K::Trace] {
            if !accepts(&k, d) {
                continue;
            }
            let g = group(&k);
            let al: Vec<f64> = if d.is_uint() { vec![0.0, 1.0, 2.0] } else { vec![-1.0, 0.0, 1.0, 2.0] };
            for n in 1..=3usize {
                let al: Vec<f64> = if n == 3 { al[..3].to_vec() } else { al.clone() };
                let key = format!("linalg/{}/{g}/all{n}x{n}", dn(d));
                c.case(&g, &key, || {
                    let t = tuples(n * n, &fl(&al, d));
                    let x = Nd::new(vec![t.len(), n, n], t.into_iter().flatten().collect());
                    against(&k, &[x], &[d], &[], 16.0)
                });
            }
            // permutation matrices need row exchanges
            for n in 2..=5usize {
                let key = format!("linalg/{}/{g}/perm{n}", dn(d));
                c.case(&g, &key, || {
                    let ps = perms(n);
                    let x = Nd::from_fn(&[ps.len(), n, n], |ix| fl(&[(ps[ix[0]][ix[1]] == ix[2]) as i32 as f64 * (1.0 + ix[1] as f64 % 2.0)], d)[0]);
                    against(&k, &[x], &[d], &[], 16.0)
                });
            }
            // singular matrices: one row is a copy of another, or zero
            if g == "det" {
                for n in 2..=5usize {
                    let key = format!("linalg/{}/{g}/singular{n}", dn(d));
                    c.case(&g, &key, || {
                        let prs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..=n).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
                        let x = Nd::from_fn(&[prs.len(), n, n], |ix| {
                            let (i, j) = prs[ix[0]];
                            let r = if ix[1] == i { j } else { ix[1] };
                            fl(&[if r == n { 0.0 } else { ((r + ix[2]) % n == 0) as i32 as f64 }], d)[0]
                        });
                        against(&k, &[x], &[d], &[], 0.0)
                    });
                }
            }
            for s in [vec![1, 1], vec![2, 2], vec![3, 3], vec![4, 4], vec![5, 5], vec![6, 6], vec![2, 3, 3], vec![2, 2, 2, 2], vec![3, 1, 4, 4]] {
                for l in ["c", "perm", "stepoff", "mid"] {
                    let key = format!("linalg/{}/{g}/{s:?}/{l}", dn(d)).replace(' ', "");
                    c.case(&g, &key, || {
                        if d.is_float() && matches!(d, DType::F8E4M3 | DType::F8E5M2) && s[s.len() - 1] > 3 {
                            return Out::Skip;
                        }
                        against(&k, &[values(&s, R::Mat, d, 0)], &[d], &[l], if matches!(d, DType::I8) { 0.0 } else { 64.0 })
                    });
                }
            }
        }
    }
    for d in [DType::F32, DType::F64, DType::F16, DType::BF16] {
        for n in 1..=3usize {
            // every invertible matrix over the alphabet
            let key = format!("linalg/{}/inv/all{n}x{n}", dn(d));
            let al = if n == 3 { vec![-1.0, 0.0, 1.0] } else { vec![-1.0, 0.0, 1.0, 2.0] };
            let ms = || -> Vec<Vec<f64>> { tuples(n * n, &al).into_iter().filter(|m| det_f(m, n).abs() > 0.5).collect() };
            c.case("inv", &key, || {
                let t = ms();
                let x = Nd::new(vec![t.len(), n, n], t.into_iter().flatten().map(V::F).collect());
                against(&K::Inv, &[x], &[d], &[], 32.0)
            });
            for nrhs in [1, 2] {
                let key = format!("linalg/{}/solve/all{n}x{n}/{nrhs}", dn(d));
                c.case("solve", &key, || {
                    let t = ms();
                    let b = t.len();
                    let x = Nd::new(vec![b, n, n], t.into_iter().flatten().map(V::F).collect());
                    let y = values(&[b, n, nrhs], R::G, d, 1);
                    against(&K::Solve, &[x, y], &[d, d], &[], 64.0)
                });
            }
        }
        for n in 2..=5usize {
            let key = format!("linalg/{}/inv/perm{n}", dn(d));
            c.case("inv", &key, || {
                let ps = perms(n);
                let x = Nd::from_fn(&[ps.len(), n, n], |ix| V::F((ps[ix[0]][ix[1]] == ix[2]) as i32 as f64 * (1.0 + ix[1] as f64 % 2.0)));
                against(&K::Inv, &[x], &[d], &[], 16.0)
            });
            let key = format!("linalg/{}/solve/perm{n}", dn(d));
            c.case("solve", &key, || {
                let ps = perms(n);
                let x = Nd::from_fn(&[ps.len(), n, n], |ix| V::F((ps[ix[0]][ix[1]] == ix[2]) as i32 as f64 * (1.0 + ix[1] as f64 % 2.0)));
                let y = values(&[ps.len(), n, 2], R::G, d, 1);
                against(&K::Solve, &[x, y], &[d, d], &[], 16.0)
            });
        }
        for s in [vec![1, 1], vec![2, 2], vec![3, 3], vec![4, 4], vec![5, 5], vec![2, 3, 3], vec![2, 2, 2, 2]] {
            for l in ["c", "perm", "stepoff", "mid"] {
                let key = format!("linalg/{}/inv/{s:?}/{l}", dn(d)).replace(' ', "");
                c.case("inv", &key, || against(&K::Inv, &[values(&s, R::Mat, d, 0)], &[d], &[l], 64.0));
                let n = s[s.len() - 1];
                let mut rs = vec![];
                if s.len() == 2 {
                    rs.push(vec![n]);
                }
                for m in 1..=3 {
                    let mut r = s.clone();
                    *r.last_mut().unwrap() = m;
                    rs.push(r);
                }
                for r in rs {
                    let key = format!("linalg/{}/solve/{s:?}{r:?}/{l}", dn(d)).replace(' ', "");
                    c.case("solve", &key, || {
                        against(&K::Solve, &[values(&s, R::Mat, d, 0), values(&r, R::G, d, 1)], &[d, d], &[l, if r.len() > 1 { l } else { "c" }], 64.0)
                    });
                }
            }
        }
    }
    c.finish("every ordered subset of axes (negative forms too) of every shape up to three dimensions of extents 1-3 (and two four-dimensional ones), both keep-dimension values; every vector up to the length bound over a tie-rich alphabet including the extremes of the type; sizes across the vectorised and threaded paths; every small matrix over the alphabet");
}
