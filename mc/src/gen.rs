//! Representative inputs for every operation of the catalogue: what to run, and what kind of values its operands need.
use crate::cat::*;
use crate::nd::{numel, Nd, V};
use crate::tio::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum R {
    /// generic data of the element type under test
    G,
    /// positive data
    Pos,
    /// inside (-1, 1)
    Unit,
    /// above 1
    Gt1,
    /// non-zero
    Nz,
    /// all different
    Dist,
    /// well conditioned square matrices
    Mat,
    /// shift counts
    Sh,
    /// i32 indices into an axis of this length (with repetitions)
    Idx(usize),
    /// i32 indices along axis 0 of the index tensor without repetitions
    Uniq(usize),
    /// booleans
    Mask,
    /// every row along axis 0 equal (so that a stride-0 view can hold it)
    Rows,
}
#[derive(Clone, Debug)]
pub struct Case {
    pub k: K,
    pub ins: Vec<(Vec<usize>, R)>,
}
impl Case {
    pub fn key(&self) -> String {
        let s: Vec<String> = self.ins.iter().map(|(s, r)| format!("{s:?}{r:?}").replace(' ', "")).collect();
        format!("{}<{}>", name(&self.k), s.join(";"))
    }
    pub fn dtypes(&self, d: DType) -> Vec<DType> {
        self.ins.iter().map(|(_, r)| role_dtype(*r, d)).collect()
    }
    pub fn values(&self, d: DType) -> Vec<Nd> {
        self.ins.iter().enumerate().map(|(i, (s, r))| values(s, *r, role_dtype(*r, d), i)).collect()
    }
    pub fn group(&self) -> String {
        group(&self.k)
    }
}
/// the operation without its parameters
pub fn group(k: &K) -> String {
    match k {
        K::Un(n) | K::UnS(n, _) | K::UnLogic(n) | K::Bin(n) | K::Logic(n) | K::Cmp(n) | K::CmpS(n, _) | K::Bit(n)
        | K::Shift(n, _) | K::Red(n, ..) | K::Scatter(n, _) => n.to_string(),
        K::Pad(n, ..) => format!("pad_{n}"),
        K::RWin(n, ..) => format!("reduce_window_{n}"),
        K::Resize(_, n, ..) => format!("resize_{n}"),
        _ => name(k).split(['(', '[']).next().unwrap().to_lowercase(),
    }
}
pub fn role_dtype(r: R, d: DType) -> DType {
    match r {
        R::Idx(_) | R::Uniq(_) => DType::I32,
        R::Mask => DType::BOOL,
        _ => d,
    }
}
/// every value is exactly representable in every floating-point type (two bits of fraction)
pub fn values(shape: &[usize], r: R, d: DType, salt: usize) -> Nd {
    const G: [f64; 13] = [1.5, -2.0, 0.5, 3.0, -0.75, 1.25, -3.5, 2.5, -1.0, 0.25, 4.0, -1.75, 0.625];
    let n = numel(shape);
    let rowlen: usize = if shape.is_empty() { 1 } else { shape[1..].iter().product() };
    let data = (0..n)
        .map(|i0| {
            let i = if r == R::Rows { i0 % rowlen.max(1) } else { i0 };
            let j = i * 5 + salt * 3;
            let flip = (i / 13) % 2 == 1;
            if d.is_bool() {
                return V::B((i * 7 + salt * 3 + i / 3) % 5 < 2 + (i % 2));
            }
            match r {
                R::Idx(m) => return V::I(((i * 3 + salt + i / 4) % m) as i128),
                R::Uniq(m) => {
                    let a = i / rowlen.max(1);
                    return V::I(((a * (if m % 2 == 0 { 3 } else { 2 }) + 1 + i % rowlen.max(1)) % m) as i128);
                },
                R::Sh => return V::I((j % 5) as i128),
                _ => {},
            }
            if d.is_float() {
                let g = G[j % 13];
                V::F(match r {
                    R::Pos => g.abs(),
                    R::Unit => [0.5, -0.25, 0.75, -0.625, 0.125, -0.875, 0.375][j % 7],
                    R::Gt1 => [1.25, 2.0, 3.5, 1.5, 5.0, 2.5, 1.75][j % 7],
                    R::Dist => {
                        // all different up to 16 bit types; in 8 bit types different up to about 40 values
                        let k = (i * 7 + 3 * salt) % n.max(1);
                        let m = k as i64 - (n / 2) as i64;
                        let e = m.unsigned_abs() as f64;
                        let v = if e < 4.0 { e } else { (4 + (e as u64 - 4) % 4) as f64 * 2f64.powi(((e as i32) - 4) / 4) };
                        if m < 0 { -v } else { v }
                    },
                    R::Mat => {
                        let c = shape[shape.len() - 1];
                        let (p, q) = ((i / c) % c, i % c);
                        if p == q { [4.0, -5.0, 3.0][(i + salt) % 3] } else { [0.5, -1.0, 0.25, 1.0, -0.5][j % 5] }
                    },
                    _ => if flip { -g } else { g },
                })
            } else {
                let u = d.is_uint();
                let g = [3i128, -2, 7, 1, -5, 4, -1, 6, 2, -3, 5, -4, 8][j % 13];
                let g = match r {
                    R::Dist => (i as i128 * 7) % (n as i128).max(1) - if u { 0 } else { n as i128 / 2 },
                    R::Pos | R::Nz if g == 0 => 1,
                    R::Pos => g.abs(),
                    _ => if r == R::G && j % 13 == 8 { 0 } else { g },
                };
                V::I(if u { g.abs() } else { g })
            }
        })
        .collect();
    Nd::new(shape.to_vec(), data)
}
fn domain(n: &str) -> R {
    match n {
        "sqrt" | "ln" | "log2" | "log10" => R::Pos,
        "asin" | "acos" | "atanh" => R::Unit,
        "acosh" => R::Gt1,
        _ => R::G,
    }
}
fn c(k: K, ins: &[(&[usize], R)]) -> Case {
    Case { k, ins: ins.iter().map(|(s, r)| (s.to_vec(), *r)).collect() }
}

/// One or more cases per operation; small shapes that still have non-trivial strides everywhere.
pub fn cases() -> Vec<Case> {
    use R::*;
    let mut v = vec![];
    for n in UNARY {
        v.push(c(K::Un(n), &[(&[2, 3, 2], domain(n))]));
        v.push(c(K::Un(n), &[(&[3, 2], Rows)]));
    }
    for n in UNARY_S {
        let r = if n == "pow_scalar" { Pos } else { G };
        v.push(c(K::UnS(n, 2.0), &[(&[2, 3, 2], r)]));
    }
    for n in UNLOGIC {
        v.push(c(K::UnLogic(n), &[(&[2, 3, 2], G)]));
    }
    for n in BINARY {
        let (r, q) = match n {
            "pow" => (Pos, G),
            "div" | "rem" => (G, Nz),
            _ => (G, G),
        };
        v.push(c(K::Bin(n), &[(&[2, 3, 2], r), (&[2, 3, 2], q)]));
        v.push(c(K::Bin(n), &[(&[3, 2], r), (&[2, 1, 2], q)]));
    }
    for n in LOGIC {
        v.push(c(K::Logic(n), &[(&[2, 3, 2], G), (&[2, 3, 2], G)]));
    }
    for n in CMP {
        v.push(c(K::Cmp(n), &[(&[2, 3, 2], G), (&[2, 3, 2], G)]));
        v.push(c(K::Cmp(n), &[(&[2, 1], G), (&[3], G)]));
    }
    for n in CMP_S {
        v.push(c(K::CmpS(n, 1.5), &[(&[2, 3, 2], G)]));
    }
    for n in BIT {
        v.push(c(K::Bit(n), &[(&[2, 3, 2], G), (&[2, 3, 2], if n.starts_with("sh") { Sh } else { G })]));
    }
    v.push(c(K::BitNot, &[(&[2, 3, 2], G)]));
    v.push(c(K::Shift("shl_scalar", 2), &[(&[2, 3, 2], G)]));
    v.push(c(K::Shift("shr_scalar", 1), &[(&[2, 3, 2], G)]));
    for t in ALL_DT {
        v.push(c(K::Cast(t), &[(&[2, 3, 2], Pos)]));
    }
    v.push(c(K::Contig, &[(&[2, 3, 2], G)]));
    for n in REDUCE {
        let r = if n == "logsum" { Pos } else { G };
        let r = if n.starts_with("arg") { Dist } else { r };
        for dims in [vec![0], vec![1], vec![-1], vec![0, 2], vec![]] {
            if n.starts_with("arg") && dims.len() != 1 {
                continue;
            }
            v.push(c(K::Red(n, dims.clone(), false), &[(&[2, 3, 2], r)]));
            if dims.len() == 1 && dims[0] == 1 {
                v.push(c(K::Red(n, dims, true), &[(&[2, 3, 2], r)]));
            }
        }
        v.push(c(K::Red(n, vec![0], false), &[(&[3, 2], Rows)]));
    }
    v.push(c(K::NormP(1.0, vec![1], false), &[(&[2, 3, 2], G)]));
    v.push(c(K::NormP(2.0, vec![0], true), &[(&[2, 3, 2], G)]));
    v.push(c(K::NormP(3.0, vec![-1], false), &[(&[2, 3, 2], Pos)]));
    v.push(c(K::SumTo(vec![3, 1]), &[(&[2, 3, 2], G)]));
    for d in [0, 1, -1] {
        v.push(c(K::Cumsum(d), &[(&[2, 3, 2], G)]));
        v.push(c(K::Softmax(d), &[(&[2, 3, 2], G)]));
        v.push(c(K::LogSoftmax(d), &[(&[2, 3, 2], G)]));
        v.push(c(K::Topk(2, d, true, true), &[(&[2, 3, 2], Dist)]));
        v.push(c(K::Topk(1, d, false, true), &[(&[2, 3, 2], Dist)]));
    }
    for s in [&[3usize, 3][..], &[2, 3, 3], &[2, 2]] {
        v.push(c(K::Det, &[(s, Mat)]));
        v.push(c(K::Trace, &[(s, Mat)]));
        v.push(c(K::Inv, &[(s, Mat)]));
    }
    v.push(c(K::Solve, &[(&[3, 3], Mat), (&[3, 2], G)]));
    v.push(c(K::Solve, &[(&[2, 3, 3], Mat), (&[2, 3, 2], G)]));
    for d in [0i32, 1, 2, -1] {
        let m = [2usize, 3, 2, 2][if d < 0 { 3 } else { d as usize }];
        let a = ax(d, 3);
        v.push(c(K::IndexSelect(d), &[(&[2, 3, 2], G), (&[4], Idx(m))]));
        let mut src = vec![2, 3, 2];
        src[a] = 2;
        v.push(c(K::IndexPut(d), &[(&[2, 3, 2], G), (&[2], Uniq(m)), (&src, G)]));
        let mut ix = vec![2, 3, 2];
        ix[a] = 4;
        v.push(c(K::Gather(d), &[(&[2, 3, 2], G), (&ix, Idx(m))]));
        for n in ["scatter", "scatter_add", "scatter_max", "scatter_min"] {
            v.push(c(K::Scatter(n, d), &[(&[2, 3, 2], G), (&ix, Idx(m)), (&ix, Dist)]));
        }
        v.push(c(K::Concat(d), &[(&[2, 3, 2], G), (&[2, 3, 2], G)]));
        v.push(c(K::Stack(d), &[(&[2, 3, 2], G), (&[2, 3, 2], G)]));
        v.push(c(K::Split(vec![1, m - 1], d), &[(&[2, 3, 2], G)]));
        v.push(c(K::Chunk(2, d), &[(&[2, 3, 2], G)]));
        v.push(c(K::Compress(Some(d)), &[(&[2, 3, 2], G), (&[m], Mask)]));
    }
    v.push(c(K::Concat(1), &[(&[2, 3, 2], G), (&[2, 1, 2], G), (&[2, 2, 2], G)]));
    v.push(c(K::Onehot(4, -1, DType::F32), &[(&[2, 3], Idx(4))]));
    v.push(c(K::Onehot(4, 0, DType::I32), &[(&[2, 3], Idx(4))]));
    v.push(c(K::Onehot(3, 1, DType::F64), &[(&[2, 2, 3], Idx(3))]));
    v.push(c(K::Nonzero, &[(&[2, 3, 2], G)]));
    v.push(c(K::Unique, &[(&[2, 3, 2], G)]));
    v.push(c(K::Compress(None), &[(&[2, 3], G), (&[6], Mask)]));
    for m in ["constant", "reflect", "replicate", "circular"] {
        v.push(c(K::Pad(m, vec![(0, 0), (1, 2), (1, 1)], 1.5), &[(&[2, 3, 2], G)]));
        v.push(c(K::Pad(m, vec![(1, 0), (0, 2)], 0.0), &[(&[2, 3], G)]));
    }
    for m in ["sum", "mean", "max", "min"] {
        v.push(c(K::RWin(m, vec![2, 2], vec![1, 1], vec![(0, 0), (0, 0)]), &[(&[3, 4], G)]));
        v.push(c(K::RWin(m, vec![1, 2, 2], vec![1, 2, 1], vec![(0, 0), (1, 0), (1, 1)]), &[(&[2, 3, 2], G)]));
    }
    for (m, s, o) in [
        ("nearest", vec![1, 2, 2, 3], vec![3, 2]),
        ("linear", vec![1, 2, 2, 3], vec![3, 5]),
        ("cubic", vec![1, 1, 3, 4], vec![5, 3]),
        ("linear", vec![1, 1, 2, 2, 3], vec![3, 2, 4]),
        ("nearest", vec![1, 1, 2, 2, 3], vec![3, 4, 2]),
    ] {
        v.push(c(K::Resize(o.clone(), m, "half_pixel", "floor"), &[(&s, G)]));
        v.push(c(K::Resize(o, m, "align_corners", "round_prefer_floor"), &[(&s, G)]));
    }
    for (a, b) in [
        (&[2usize, 3][..], &[3usize, 4][..]),
        (&[2, 2, 3], &[2, 3, 2]),
        (&[2, 1, 2, 3], &[3, 3, 2]),
        (&[2, 3, 2], &[2, 4]),
        (&[3], &[3, 2]),
        (&[2, 3], &[3]),
        (&[3], &[3]),
    ] {
        v.push(c(K::Matmul, &[(a, G), (b, G)]));
    }
    for (a, b) in [(&[2usize, 3][..], &[3usize, 4][..]), (&[3], &[3]), (&[2, 3], &[3]), (&[3], &[3, 2])] {
        v.push(c(K::Dot, &[(a, G), (b, G)]));
    }
    for nd in 1..=3usize {
        let (mut a, mut w) = (vec![2, 2], vec![3, 2]);
        a.extend(&[4, 3, 3][..nd]);
        w.extend(&[2, 3, 2][..nd]);
        let mut g = vec![2, 3];
        for (st, p, dl) in [(1, 0, 1), (2, 1, 1), (1, 2, 2)] {
            v.push(c(K::Conv(nd, st, p, dl), &[(&a, G), (&w, G)]));
            g.truncate(2);
            for i in 0..nd {
                g.push((a[2 + i] + 2 * p - (dl * (w[2 + i] - 1) + 1)) / st + 1);
            }
            v.push(c(K::ConvGW(w.clone(), st, p, dl), &[(&a, G), (&g, G)]));
        }
        for (st, p, op, dl) in [(1, 0, 0, 1), (2, 1, 1, 1), (2, 0, 0, 2)] {
            let mut t = vec![2, 3];
            t.extend(&[3, 2, 2][..nd]);
            let mut wt = vec![3, 2];
            wt.extend(&[2, 3, 2][..nd]);
            v.push(c(K::ConvT(nd, st, p, op, dl), &[(&t, G), (&wt, G)]));
            let mut gt = vec![2, 2];
            for i in 0..nd {
                gt.push((t[2 + i] - 1) * st + dl * (wt[2 + i] - 1) + op + 1 - 2 * p);
            }
            let mut ws = vec![3, 2];
            ws.extend(&wt[2..]);
            v.push(c(K::ConvTGW(ws, st, p, dl), &[(&t, G), (&gt, G)]));
        }
    }
    for (e, ins) in [
        ("ij,jk->ik", vec![vec![2, 3], vec![3, 2]]),
        ("ij->ji", vec![vec![2, 3]]),
        ("bij,bjk->bik", vec![vec![2, 2, 3], vec![2, 3, 2]]),
        ("ijk->j", vec![vec![2, 3, 2]]),
        ("i,j->ij", vec![vec![2], vec![3]]),
        ("ij,jk,kl->il", vec![vec![2, 3], vec![3, 2], vec![2, 2]]),
    ] {
        v.push(Case { k: K::Einsum(e.into()), ins: ins.into_iter().map(|s| (s, G)).collect() });
    }
    v.push(c(K::Where, &[(&[2, 3, 2], G), (&[2, 3, 2], Mask), (&[2, 3, 2], G)]));
    v.push(c(K::Where, &[(&[3, 2], G), (&[2, 1, 2], Mask), (&[3, 1], G)]));
    v.push(c(K::MaskedFill(2.0), &[(&[2, 3, 2], G), (&[2, 3, 2], Mask)]));
    v.push(c(K::Clamp(-1.0, 2.0), &[(&[2, 3, 2], G)]));
    v.push(c(K::ClampMin(1.0), &[(&[2, 3, 2], G)]));
    v.push(c(K::ClampMax(1.0), &[(&[2, 3, 2], G)]));
    v.push(c(K::Reshape(vec![3, 4]), &[(&[2, 3, 2], G)]));
    v.push(c(K::Flatten, &[(&[2, 3, 2], G)]));
    v.push(c(K::Squeeze(vec![1]), &[(&[2, 1, 3], G)]));
    v.push(c(K::Unsq(1), &[(&[2, 3], G)]));
    v.push(c(K::Bcast(vec![2, 3, 2]), &[(&[3, 1], G)]));
    v.push(c(K::Transp(0, -1), &[(&[2, 3, 2], G)]));
    v.push(c(K::Perm(vec![2, 0, 1]), &[(&[2, 3, 2], G)]));
    v.push(c(K::Repeat(vec![1, 2, 2]), &[(&[2, 3, 2], G)]));
    v.push(c(K::Slice(1, 1, None, 1), &[(&[2, 3, 2], G)]));
    v.push(c(K::Slice(1, 2, None, -1), &[(&[2, 3, 2], G)]));
    v.push(c(K::Flip(vec![0, -1]), &[(&[2, 3, 2], G)]));
    v
}

/// Whether the case makes sense for this element type of its data operands.
pub fn applies(cs: &Case, d: DType) -> bool {
    if matches!(cs.k, K::Onehot(..)) {
        return d == DType::I32;
    }
    accepts(&cs.k, d)
}
/// how far (in units of the element type) a result may be from its definition
pub fn tol(k: &K, d: DType) -> f64 {
    let small = matches!(d, DType::F8E4M3 | DType::F8E5M2);
    let m = match k {
        K::Un("exp10" | "exp2" | "sinh" | "cosh") | K::Bin("pow") | K::UnS("pow_scalar", _) => 16.0,
        K::Un(_) | K::UnS(..) | K::Bin(_) => 4.0,
        K::Cast(_) => 0.51,
        K::Red(n, ..) if !matches!(*n, "max" | "min" | "any" | "all" | "argmax" | "argmin") => 8.0,
        K::NormP(..) | K::SumTo(_) | K::Cumsum(_) | K::Softmax(_) | K::LogSoftmax(_) => 8.0,
        K::Det | K::Inv | K::Solve | K::Trace => 32.0,
        K::Matmul | K::Dot | K::Einsum(_) => 8.0,
        K::Conv(..) | K::ConvT(..) | K::ConvGW(..) | K::ConvTGW(..) => 24.0,
        K::RWin(n, ..) if *n == "sum" || *n == "mean" => 8.0,
        K::Resize(..) => 16.0,
        _ => 0.0,
    };
    if small {
        f64::min(m, 16.0)
    } else {
        m
    }
}
