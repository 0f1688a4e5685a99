//! C06: matrix products and convolutions against their defining sums.
//! The reference enumerates the (output, left, right) element triples of the definition and adds integer products,
//! so it shares nothing with the catalogue's evaluator; operands are small integers, for which every
//! partial sum is exact in the element type, and results must agree exactly.
use mc::cat::*;
use mc::check::*;
use mc::nd::*;
use mc::tio::*;
use mc::vals::*;
use std::sync::atomic::{AtomicI64, Ordering};

/// The kernels size their thread partition by the number of processors: the check chooses it.
static PROCS: AtomicI64 = AtomicI64::new(0);
extern "C" {
    fn dlsym(h: *mut std::ffi::c_void, n: *const std::ffi::c_char) -> *mut std::ffi::c_void;
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: i32) -> i64 {
    let p = PROCS.load(Ordering::Relaxed);
    if name == 84 && p > 0 {
        return p; // _SC_NPROCESSORS_ONLN
    }
    let f = dlsym(-1isize as *mut _, c"sysconf".as_ptr());
    let f: extern "C" fn(i32) -> i64 = std::mem::transmute(f);
    f(name)
}

/// largest integer up to which every integer is exact
fn exact(d: DType) -> i64 {
    match d {
        DType::F8E5M2 => 8,
        DType::F8E4M3 => 16,
        DType::BF16 => 256,
        DType::F16 => 2048,
        DType::F32 => 1 << 24,
        _ => 1 << 50,
    }
}
/// operand pattern: amplitude and density chosen so that sums of `terms` products stay exact
fn vals(n: usize, salt: usize, d: DType, terms: usize, left: bool) -> Vec<i64> {
    let (amp, dens) = match d {
        DType::F8E5M2 => (1, 3.max(terms / 6)),
        DType::F8E4M3 => (1, 2.max(terms / 10)),
        DType::BF16 => (if terms <= 28 { 3 } else { 1 }, 1.max(terms / 200)),
        DType::F16 => (if terms <= 80 { 5 } else { 1 }, 1.max(terms / 1500)),
        _ => (if terms <= 400 { 7 } else { 3 }, 1),
    };
    (0..n as u64)
        .map(|i| {
            let h = (i + 1).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add((salt as u64).wrapping_mul(0xD1B54A32D192ED03));
            let h = (h ^ (h >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
            let h = h ^ (h >> 32);
            if left && h % dens as u64 != 0 {
                return 0;
            }
            let v = 1 + ((h >> 8) % amp as u64) as i64;
            if d.is_uint() || (h >> 40) & 1 == 0 { v } else { -v }
        })
        .collect()
}
fn nd(s: &[usize], v: &[i64], d: DType) -> Nd {
    Nd::new(s.to_vec(), v.iter().map(|x| if d.is_float() { V::F(*x as f64) } else { V::I(*x as i128) }).collect())
}

type Triples<'a> = &'a dyn Fn(&mut dyn FnMut(usize, usize, usize));

/// make `v` constant along dim 0 / the last dim where the layout broadcasts
fn flatten_bc(l: &str, s: &[usize], v: &mut [i64]) {
    match l {
        "bc" if s.len() > 0 => {
            let r = numel(s) / s[0].max(1);
            for i in 0..v.len() {
                v[i] = v[i % r];
            }
        },
        "bcl" if s.len() > 0 => {
            let r = s[s.len() - 1];
            for i in 0..v.len() {
                v[i] = v[i / r * r];
            }
        },
        _ => {},
    }
}
fn lay2(a: &Nd, d: DType, l: &str) -> HoduResult<Option<Tensor>> {
    if l == "bcl" {
        let n = a.shape.len();
        if n == 0 || a.shape[n - 1] < 2 {
            return Ok(None);
        }
        return Ok(Some(tensor(&a.slice(n - 1, 0, 1, 1), d)?.broadcast(a.shape.clone())?));
    }
    laid(a, d, l)
}

fn one(k: &K, d: DType, sa: &[usize], sb: &[usize], so: &[usize], la: &str, lb: &str, tri: Triples) -> Out {
    one_t(k, d, sa, sb, so, la, lb, numel(so).max(1), tri)
}
fn one_t(k: &K, d: DType, sa: &[usize], sb: &[usize], so: &[usize], la: &str, lb: &str, _h: usize, tri: Triples) -> Out {
    let mut terms = vec![0usize; numel(so)];
    tri(&mut |o, _, _| terms[o] += 1);
    let t = terms.iter().copied().max().unwrap_or(1).max(1);
    let (mut a, mut b) = (vals(numel(sa), 1, d, t, true), vals(numel(sb), 2, d, t, false));
    flatten_bc(la, sa, &mut a);
    flatten_bc(lb, sb, &mut b);
    let mut sum = vec![0i64; numel(so)];
    let mut mag = vec![0i64; numel(so)];
    tri(&mut |o, i, j| {
        let p = a[i] * b[j];
        sum[o] += p;
        mag[o] += p.abs();
    });
    let (na, nb) = (nd(sa, &a, d), nd(sb, &b, d));
    let (ta, tb) = match (lay2(&na, d, la), lay2(&nb, d, lb)) {
        (Ok(Some(x)), Ok(Some(y))) => (x, y),
        (Err(e), _) | (_, Err(e)) => return Out::Bad("err", format!("building operand: {e}")),
        _ => return Out::Skip,
    };
    let got = match run(k, &[&ta, &tb]) {
        Ok(r) => r,
        Err(e) => return Out::Bad("err", format!("{e}")),
    };
    let r = match read(&got[0]) {
        Ok(r) => r,
        Err(e) => return Out::Bad("err", format!("reading the result: {e}")),
    };
    if got[0].dtype() != d {
        return Out::Bad("wrong", format!("element type {}, expected {d}", got[0].dtype()));
    }
    if r.shape != so {
        return Out::Bad("wrong", format!("shape {:?}, expected {so:?}", r.shape));
    }
    let lim = exact(d);
    let mut seen = false;
    for i in 0..sum.len() {
        if mag[i] > lim {
            continue;
        }
        seen = true;
        let ok = match r.data[i] {
            V::F(x) => x == sum[i] as f64,
            V::I(x) => x == wrap(d, sum[i] as i128),
            V::B(_) => false,
        };
        if !ok {
            return Out::Bad("wrong", format!("element {i}: got {:?}, expected {}; a {} b {}", r.data[i], sum[i], cut(&na), cut(&nb)));
        }
    }
    if !seen && !sum.is_empty() {
        return Out::Skip;
    }
    Out::Ok(format!("{so:?}{:016x}", h64(&sum)))
}
fn cut(a: &Nd) -> String {
    a.show().chars().take(160).collect()
}

/// result shape and triples of a (batched) matrix product
fn mm(sa: &[usize], sb: &[usize]) -> Option<(Vec<usize>, Vec<usize>, Vec<usize>, usize, usize, usize, Vec<usize>)> {
    let a2 = if sa.len() == 1 { vec![1, sa[0]] } else { sa.to_vec() };
    let b2 = if sb.len() == 1 { vec![sb[0], 1] } else { sb.to_vec() };
    let (m, k) = (a2[a2.len() - 2], a2[a2.len() - 1]);
    let (k2, n) = (b2[b2.len() - 2], b2[b2.len() - 1]);
    if k != k2 {
        return None;
    }
    let bs = bshape(&a2[..a2.len() - 2], &b2[..b2.len() - 2])?;
    let mut so = bs.clone();
    if sa.len() > 1 {
        so.push(m);
    }
    if sb.len() > 1 {
        so.push(n);
    }
    Some((so, a2, b2, m, k, n, bs))
}
fn matmul(k: &K, d: DType, sa: &[usize], sb: &[usize], la: &str, lb: &str) -> Option<Out> {
    let (so, a2, b2, m, kk, n, bs) = mm(sa, sb)?;
    let at = |ix: &[usize], s: &[usize]| {
        let nb = s.len() - 2;
        let mut o = 0;
        for i in 0..nb {
            o = o * s[i] + if s[i] == 1 { 0 } else { ix[ix.len() - nb + i] };
        }
        o
    };
    let bi = indices(&bs);
    Some(one(k, d, sa, sb, &so, la, lb, &|f| {
        for (q, ix) in bi.iter().enumerate() {
            let (oa, ob) = (at(ix, &a2) * m * kk, at(ix, &b2) * kk * n);
            for i in 0..m {
                for j in 0..n {
                    for l in 0..kk {
                        f((q * m + i) * n + j, oa + i * kk + l, ob + l * n + j);
                    }
                }
            }
        }
    }))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cv {
    Fwd,
    Tr,
    Gw,
    TrGw,
}
/// every (big, weight, small) coincidence of a convolution: big position = small position * stride + kernel position * dilation - padding
#[allow(clippy::too_many_arguments)]
fn conv(cv: Cv, d: DType, n: usize, ci: usize, co: usize, sp: &[usize], ks: &[usize], st: usize, p: usize, op: usize, dl: usize, la: &str, lb: &str) -> Option<Out> {
    let r = sp.len();
    // `sp` is the spatial size of the input of the forward (Fwd, Gw) or transposed (Tr, TrGw) convolution
    let tr = matches!(cv, Cv::Tr | Cv::TrGw);
    let mut os = vec![];
    for i in 0..r {
        let e = dl * (ks[i] - 1) + 1;
        if tr {
            let x = ((sp[i] - 1) * st + e + op) as i64 - 2 * p as i64;
            if x < 1 {
                return None;
            }
            os.push(x as usize);
        } else {
            if sp[i] + 2 * p < e {
                return None;
            }
            os.push((sp[i] + 2 * p - e) / st + 1);
        }
    }
    let (big, small) = if tr { (&os, sp) } else { (&sp.to_vec(), &os[..]) };
    // per axis: (small, kernel, big)
    let mut ax: Vec<Vec<(usize, usize, usize)>> = vec![];
    for i in 0..r {
        let mut v = vec![];
        for s in 0..small[i] {
            for k in 0..ks[i] {
                let q = (s * st + k * dl) as i64 - p as i64;
                if q >= 0 && q < big[i] as i64 {
                    v.push((s, k, q as usize));
                }
            }
        }
        ax.push(v);
    }
    let mut rel: Vec<(usize, usize, usize)> = vec![(0, 0, 0)];
    for i in 0..r {
        rel = rel.iter().flat_map(|&(s, k, b)| ax[i].iter().map(move |&(s1, k1, b1)| (s * small[i] + s1, k * ks[i] + k1, b * big[i] + b1)).collect::<Vec<_>>()).collect();
    }
    let (nbig, nsm, nk) = (numel(big), numel(small), numel(ks));
    let sh = |c0: usize, c1: usize, t: &[usize]| [&[c0, c1], t].concat();
    let x = sh(n, ci, sp);
    let y = sh(n, co, &os);
    let out = match cv {
        Cv::Fwd => one(&K::Conv(r, st, p, dl), d, &x, &sh(co, ci, ks), &y, la, lb, &|f| {
            for b in 0..n {
                for o in 0..co {
                    for c in 0..ci {
                        for &(s, k, g) in &rel {
                            f((b * co + o) * nsm + s, (b * ci + c) * nbig + g, (o * ci + c) * nk + k);
                        }
                    }
                }
            }
        }),
        Cv::Tr => one(&K::ConvT(r, st, p, op, dl), d, &x, &sh(ci, co, ks), &y, la, lb, &|f| {
            for b in 0..n {
                for o in 0..co {
                    for c in 0..ci {
                        for &(s, k, g) in &rel {
                            f((b * co + o) * nbig + g, (b * ci + c) * nsm + s, (c * co + o) * nk + k);
                        }
                    }
                }
            }
        }),
        Cv::Gw => {
            let ws = sh(co, ci, ks);
            one(&K::ConvGW(ws.clone(), st, p, dl), d, &x, &y, &ws, la, lb, &|f| {
                for b in 0..n {
                    for o in 0..co {
                        for c in 0..ci {
                            for &(s, k, g) in &rel {
                                f((o * ci + c) * nk + k, (b * ci + c) * nbig + g, (b * co + o) * nsm + s);
                            }
                        }
                    }
                }
            })
        },
        Cv::TrGw => {
            let ws = sh(ci, co, ks);
            one(&K::ConvTGW(ws.clone(), st, p, dl), d, &x, &y, &ws, la, lb, &|f| {
                for b in 0..n {
                    for o in 0..co {
                        for c in 0..ci {
                            for &(s, k, g) in &rel {
                                f((c * co + o) * nk + k, (b * ci + c) * nsm + s, (b * co + o) * nbig + g);
                            }
                        }
                    }
                }
            })
        },
    };
    Some(out)
}

fn main() {
    let mut c = Check::new("C06", "model_checking");
    let th = c.thorough();
    let blas = if cfg!(feature = "blas") { "blas" } else { "plain" };
    let nums: Vec<DType> = ALL_DT.iter().copied().filter(|d| !d.is_bool()).collect();
    let floats: Vec<DType> = ALL_DT.iter().copied().filter(|d| d.is_float()).collect();
    let lays = ["c", "perm", "stepoff", "mid", "off", "swap", "bc", "bcl"];

    // 1. every pair of operand shapes: ranks 1-4, every broadcast of the batch axes, M, K, N in 1-3
    let bat: Vec<Vec<usize>> = shapes(2, &[1, 2]).into_iter().chain(if th { vec![vec![3], vec![3, 2], vec![2, 1, 2]] } else { vec![] }).collect();
    let mut left: Vec<Vec<usize>> = (1..=3).map(|k| vec![k]).collect();
    for b in &bat {
        for m in 1..=3 {
            for k in 1..=3 {
                left.push([b.clone(), vec![m, k]].concat());
            }
        }
    }
    for sa in &left {
        for sb in &left {
            // a one-dimensional operand with batches is not accepted (checked in C21)
            if mm(sa, sb).is_none() || (sa.len() == 1 && sb.len() > 2) || (sb.len() == 1 && sa.len() > 2) {
                continue;
            }
            for &d in &nums {
                for la in lays {
                    for lb in lays {
                        let f = matches!(d, DType::F32 | DType::I32 | DType::F16);
                        if !(la == lb || f || th) || (!th && d != DType::F32 && (la == "off" || lb == "off")) {
                            continue;
                        }
                        if !f && !th && la != "c" && (sa.len() + sa.iter().sum::<usize>()) % 2 == 1 {
                            continue;
                        }
                        for k in [K::Matmul, K::Dot] {
                            if matches!(k, K::Dot) && (sa.len() > 2 || sb.len() > 2) {
                                continue;
                            }
                            let key = format!("mm/{}/{}/{sa:?}x{sb:?}/{la},{lb}/{blas}", name(&k), dn(d)).replace(' ', "");
                            c.case(&name(&k), &key, || matmul(&k, d, sa, sb, la, lb).unwrap());
                        }
                    }
                }
            }
        }
    }
    // 2. every size 1-9 of both inner and outer extents (the inner loops are unrolled and blocked)
    let top = if th { 12 } else { 9 };
    for m in 1..=top {
        for k in 1..=top {
            for n in 1..=top {
                for &d in &nums {
                    let key = format!("size/{}/{m},{k},{n}/{blas}", dn(d));
                    c.case("sizes", &key, || matmul(&K::Matmul, d, &[m, k], &[k, n], "c", "c").unwrap());
                }
            }
        }
    }
    // 3. sizes around the thresholds of blocking, threads and library calls, for every processor count
    let procs: Vec<i64> = if th { (1..=40).collect() } else { vec![1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 64] };
    for m in [255usize, 256, 257, 383, 384, 385, 511, 512, 513, 640, 767, 768, 769, 1025, 4225] {
        for &(k, n) in &[(1usize, 1usize), (3, 2), (5, 3)] {
            if m > 2000 && k != 3 {
                continue;
            }
            for &d in &nums {
                for &p in &procs {
                    if !th && (m > 2000) && p < 31 && p != 1 {
                        continue;
                    }
                    // single batch runs the batched kernel, two axes the plain one
                    for (sa, sb) in [(vec![m, k], vec![k, n]), (vec![1, m, k], vec![k, n])] {
                        if sa.len() == 3 && (p != 8 || m > 600) {
                            continue;
                        }
                        let key = format!("threads/{}/{sa:?}x{sb:?}/{p}/{blas}", dn(d)).replace(' ', "");
                        c.case("threads", &key, || {
                            PROCS.store(p, Ordering::Relaxed);
                            let r = matmul(&K::Matmul, d, &sa, &sb, "c", "c").unwrap();
                            PROCS.store(0, Ordering::Relaxed);
                            r
                        });
                    }
                }
            }
        }
    }
    let big: &[(usize, usize, usize)] = &[(100, 100, 99), (100, 100, 100), (101, 100, 101), (1, 1000, 1000), (1000, 1000, 1), (2, 513, 1000), (33, 257, 121), (31, 255, 127), (64, 512, 33)];
    for &(m, k, n) in big {
        for d in [DType::F32, DType::F64, DType::I32, DType::F16, DType::BF16] {
            for (la, lb) in [("c", "c"), ("perm", "c"), ("c", "perm"), ("perm", "perm"), ("mid", "stepoff")] {
                for batch in [false, true] {
                    let (mut sa, mut sb) = (vec![m, k], vec![k, n]);
                    if batch {
                        if !matches!(d, DType::F32 | DType::F64) && !th {
                            continue;
                        }
                        sa.insert(0, 2);
                        sb.insert(0, 1);
                    }
                    let key = format!("big/{}/{sa:?}x{sb:?}/{la},{lb}/{blas}", dn(d)).replace(' ', "");
                    c.case("big", &key, || matmul(&K::Matmul, d, &sa, &sb, la, lb).unwrap());
                }
            }
        }
    }

    // 4. one-dimensional convolutions: every channel count, length, kernel, stride, padding and dilation
    let all = [Cv::Fwd, Cv::Tr, Cv::Gw, Cv::TrGw];
    let mut go = |c: &mut Check, cv: Cv, d: DType, n, ci, co, sp: &[usize], ks: &[usize], st, p, op, dl, la: &str, lb: &str| {
        let key = format!("conv/{cv:?}{}/{}/{n},{ci},{co}/{sp:?}k{ks:?}s{st}p{p}o{op}d{dl}/{la},{lb}/{blas}", sp.len(), dn(d)).replace(' ', "");
        if !c.wants(&key) {
            return;
        }
        let mut r = None;
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| conv(cv, d, n, ci, co, sp, ks, st, p, op, dl, la, lb)));
        match out {
            Ok(None) => return,
            Ok(Some(o)) => r = Some(o),
            Err(e) => {
                let m = panic_msg(e);
                c.case(&format!("{cv:?}{}", sp.len()), &key, || Out::Bad("panic", m));
            },
        }
        if let Some(o) = r {
            c.case(&format!("{cv:?}{}", sp.len()), &key, || o);
        }
    };
    for cv in all {
        for l in 1..=6usize {
            for k in 1..=4usize {
                for st in 1..=3usize {
                    for p in 0..=3usize {
                        for dl in 1..=3usize {
                            for op in 0..=if cv == Cv::Tr { 2 } else { 0 } {
                                if op > 0 && op >= st.max(dl) {
                                    continue;
                                }
                                for (n, ci, co) in [(1, 1, 1), (2, 1, 3), (1, 2, 1), (2, 3, 2), (3, 2, 2)] {
                                    for &d in &floats {
                                        if !th && d != DType::F32 && (n, ci, co) != (2, 3, 2) && (l + k + p) % 3 != 0 {
                                            continue;
                                        }
                                        go(&mut c, cv, d, n, ci, co, &[l], &[k], st, p, op, dl, "c", "c");
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // 5. two dimensions, unequal extents
    let e2 = if th { 5 } else { 4 };
    for cv in all {
        for sp in tuples(2, &(1..=e2).collect::<Vec<usize>>()) {
            for ks in tuples(2, &[1usize, 2, 3]) {
                for st in 1..=2usize {
                    for p in 0..=2usize {
                        for dl in 1..=2usize {
                            for op in 0..=if cv == Cv::Tr { 1 } else { 0 } {
                                if op > 0 && op >= st.max(dl) {
                                    continue;
                                }
                                for (n, ci, co) in [(1, 1, 1), (2, 3, 2), (1, 2, 3)] {
                                    for &d in &floats {
                                        if !th && (n, ci, co) != (2, 3, 2) && d != DType::F32 {
                                            continue;
                                        }
                                        go(&mut c, cv, d, n, ci, co, &sp, &ks, st, p, op, dl, "c", "c");
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // 6. three dimensions
    for cv in all {
        for sp in tuples(3, &[1usize, 2, 3]) {
            for ks in tuples(3, if th { &[1usize, 2, 3][..] } else { &[1usize, 2][..] }) {
                for st in 1..=2usize {
                    for p in 0..=1usize {
                        for dl in 1..=2usize {
                            for op in 0..=if cv == Cv::Tr { 1 } else { 0 } {
                                if op > 0 && op >= st.max(dl) {
                                    continue;
                                }
                                for &d in &floats {
                                    if !th && d != DType::F32 && sp.iter().sum::<usize>() % 2 == 1 {
                                        continue;
                                    }
                                    go(&mut c, cv, d, 2, 3, 2, &sp, &ks, st, p, op, dl, "c", "c");
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // 7. operand layouts
    for cv in all {
        for r in 1..=3usize {
            let (sp, ks) = (&[4, 3, 3][..r], &[2, 3, 2][..r]);
            for (st, p, dl) in [(1, 0, 1), (2, 1, 1), (1, 2, 2)] {
                for &d in &floats {
                    for la in lays {
                        for lb in lays {
                            go(&mut c, cv, d, 2, 3, 2, sp, ks, st, p, 0, dl, la, lb);
                        }
                    }
                }
            }
        }
    }
    c.finish("every pair of matmul operand shapes of rank 1-4 with M, K, N in 1-3 and every batch broadcast, every pair of operand layouts; every M, K, N up to 9; every listed size around the thread, block and library thresholds for every listed processor count; every 1-D convolution of length 1-6, kernel 1-4, stride 1-3, padding 0-3, dilation 1-3 and the 2-D and 3-D products of smaller ranges, for the convolution, its transpose and both weight gradients, on all floating types, results exact");
}
