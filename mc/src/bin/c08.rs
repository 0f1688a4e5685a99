//! C08: backward leaves on every leaf the derivative of the forward function.
//! Programs are enumerated as data (leaves, a list of catalogue operations, results used); the derivative is taken of
//! the reference definition of the same program (central differences in f64, Richardson-extrapolated), so neither the
//! forward kernels nor the reverse-mode rules under test have a part in the expected value. Coordinates in which the
//! reference is not smooth at the point (one-sided differences disagree) are left out.
use mc::cat::*;
use mc::check::*;
use mc::gen::{self, Case, R};
use mc::nd::*;
use mc::tio::*;
use mc::vals::*;

#[derive(Clone)]
struct Leaf {
    v: Nd,
    d: DType,
    grad: bool,
}
#[derive(Clone)]
struct Prog {
    leaves: Vec<Leaf>,
    /// operation and the values it reads: leaves first, then all results in order
    nodes: Vec<(K, Vec<usize>)>,
    /// results that make up the loss; every one is weighted element by element
    outs: Vec<usize>,
    layout: &'static str,
    /// run forward and backward in this type
    d: DType,
}

/// operations declared to have no derivative rule
fn nodiff(k: &K) -> bool {
    match k {
        K::Un(n) => matches!(*n, "sign" | "ceil" | "floor" | "round"),
        K::Red(n, ..) => matches!(*n, "argmax" | "argmin" | "any" | "all"),
        K::UnLogic(_) | K::Logic(_) | K::Cmp(_) | K::CmpS(..) | K::Bit(_) | K::BitNot | K::Shift(..) => true,
        K::Cast(_) | K::Onehot(..) | K::Nonzero | K::Unique | K::Compress(_) => true,
        K::ConvGW(..) | K::ConvTGW(..) => true,
        _ => false,
    }
}
fn weight(i: usize, o: usize) -> f64 {
    const W: [f64; 11] = [1.0, -0.5, 2.0, 0.25, 1.5, -1.25, 0.75, -2.0, 1.75, 0.5, -1.0];
    W[(i * 3 + o * 5) % 11]
}
/// the values of the program by the reference definition
fn forward(p: &Prog, leaves: &[Nd]) -> Vec<(Nd, DType)> {
    let mut vals: Vec<(Nd, DType)> = leaves.iter().cloned().zip(p.leaves.iter().map(|l| l.d)).collect();
    for (k, ins) in &p.nodes {
        let x: Vec<Nd> = ins.iter().map(|&i| vals[i].0.clone()).collect();
        let dts: Vec<DType> = ins.iter().map(|&i| vals[i].1).collect();
        vals.extend(eval(k, &x, &dts));
    }
    vals
}
/// the loss at `leaves` minus the loss at the values `base`, summed without cancelling large terms
fn diff(p: &Prog, leaves: &[Nd], base: &[(Nd, DType)]) -> f64 {
    let v = forward(p, leaves);
    let mut s = 0.0;
    for (j, &o) in p.outs.iter().enumerate() {
        if !v[o].1.is_float() {
            continue;
        }
        for (i, (x, y)) in v[o].0.data.iter().zip(&base[o].0.data).enumerate() {
            s += weight(i, j) * (x.f() - y.f());
        }
    }
    s
}
/// derivative with respect to every element of leaf `l`; None where not smooth or not finite
fn deriv(p: &Prog, l: usize) -> Vec<Option<f64>> {
    let base: Vec<Nd> = p.leaves.iter().map(|l| l.v.clone()).collect();
    let v0 = forward(p, &base);
    // next to huge elements a small step is lost
    let wide = base[l].data.iter().any(|v| v.f().abs() > 1e5);
    (0..base[l].data.len())
        .map(|i| {
            // a step proportional to the magnitude, exact in binary
            let most = if wide { base[l].data.iter().map(|v| v.f().abs()).fold(1.0, f64::max) } else { base[l].data[i].f().abs().max(1.0) };
            let h = 2f64.powi(most.log2().ceil() as i32 - 16);
            let at = |dx: f64| {
                let mut b = base.clone();
                let x = b[l].data[i].f() + dx;
                b[l].data[i] = V::F(x);
                diff(p, &b, &v0)
            };
            let (a, b, c, d) = (at(h), at(-h), at(h / 2.0), at(-h / 2.0));
            let (r, q) = (a / h, -b / h);
            let (c1, c2) = ((a - b) / (2.0 * h), (c - d) / h);
            let smooth = (r - q).abs() <= 2e-3 * (c1.abs() + 1e-2) && (c1 - c2).abs() <= 1e-5 * (c1.abs() + 1.0);
            if smooth && c2.is_finite() { Some((4.0 * c2 - c1) / 3.0) } else { None }
        })
        .collect()
}
/// build the leaves and run the program: every tensor, leaves first, each held by one handle
fn build(p: &Prog) -> Result<Option<Vec<Tensor>>, String> {
    let mut ts = vec![];
    for l in &p.leaves {
        let d = if l.d == DType::F64 { p.d } else { l.d };
        let lay = if l.grad { p.layout } else { "c" };
        match laid(&l.v, d, lay).map_err(|e| format!("leaf: {e}"))? {
            Some(t) => ts.push(t),
            None => return Ok(None),
        }
        if l.grad {
            ts.last().unwrap().set_requires_grad(true).map_err(|e| format!("set_requires_grad: {e}"))?;
        }
    }
    let mut vals = ts;
    for (k, ins) in &p.nodes {
        let x: Vec<&Tensor> = ins.iter().map(|&i| &vals[i]).collect();
        let r = run(k, &x).map_err(|e| format!("forward {}: {e}", name(k)))?;
        vals.extend(r);
    }
    Ok(Some(vals))
}

fn check(p: &Prog) -> Out {
    // the point the implementation really computes at
    let mut p = p.clone();
    for l in p.leaves.iter_mut().filter(|l| l.d == DType::F64) {
        l.v.data.iter_mut().for_each(|x| *x = V::F(quant(p.d, x.f())));
    }
    let p = &p;
    let _ctx = hodu_core::tensor::GradientContext::new();
    let mut vals = match build(p) {
        Ok(Some(x)) => x,
        Ok(None) => return Out::Skip,
        Err(e) => {
            // an operation that refuses its operands is no concern of this property, unless tracking makes it
            let mut q = p.clone();
            q.leaves.iter_mut().for_each(|l| l.grad = false);
            return match build(&q) {
                Err(_) => Out::Skip,
                _ => Out::Bad("err", e),
            };
        }
    };
    // the loss: weighted sum of the results used
    let mut total: Option<Tensor> = None;
    let refv = forward(p, &p.leaves.iter().map(|l| l.v.clone()).collect::<Vec<_>>());
    let mut outs: Vec<usize> = vec![];
    for (j, &o) in p.outs.iter().enumerate() {
        if !refv[o].1.is_float() {
            continue;
        }
        let t = &vals[o];
        if t.shape().dims() != refv[o].0.shape.as_slice() {
            return Out::Bad("err", format!("forward shape {:?}, expected {:?}", t.shape().dims(), refv[o].0.shape));
        }
        if !t.is_requires_grad() {
            continue;
        }
        outs.push(o);
        let n = t.size();
        let w = Nd::new(t.shape().dims().to_vec(), (0..n).map(|i| V::F(weight(i, j))).collect());
        let part = tensor(&w, p.d).and_then(|w| t.mul(&w));
        let part = match part {
            Ok(x) => x,
            Err(e) => return Out::Bad("err", format!("weighting: {e}")),
        };
        let part = if p.outs.len() > 1 { part.sum(&[] as &[i32], false) } else { Ok(part) };
        total = match (total, part) {
            (_, Err(e)) => return Out::Bad("err", format!("sum: {e}")),
            (None, Ok(x)) => Some(x),
            (Some(y), Ok(x)) => match y.add(&x) {
                Ok(z) => Some(z),
                Err(e) => return Out::Bad("err", format!("add: {e}")),
            },
        };
    }
    let Some(total) = total else {
        // nothing is tracked: right only if no smooth dependence goes through differentiable operations
        if p.outs.iter().any(|&o| refv[o].1.is_float()) && p.nodes.iter().all(|(k, _)| !nodiff(k)) {
            return Out::Bad("nograd", "the result does not require a gradient although a leaf does".into());
        }
        return Out::Skip;
    };
    // from here on a program holds its leaves and the loss, nothing else
    let leaves: Vec<Tensor> = vals.drain(..p.leaves.len()).collect();
    drop(vals);
    if let Err(e) = total.backward() {
        return Out::Bad("err", format!("backward: {e}"));
    }
    for (i, l) in p.leaves.iter().enumerate() {
        match read(&leaves[i]) {
            Ok(r) if r.shape == l.v.shape => {},
            Ok(r) => return Out::Bad("wrong", format!("leaf {i} has shape {:?} after backward", r.shape)),
            Err(e) => return Out::Bad("wrong", format!("leaf {i} cannot be read after backward: {e}")),
        }
    }
    // the loss the implementation differentiated
    let mut q = p.clone();
    q.outs = p.outs.clone();
    if outs.len() != p.outs.len() && p.nodes.iter().any(|(k, _)| nodiff(k)) {
        return Out::Skip;
    }
    let mut compared = 0;
    let mut shown = vec![];
    let (mut exp, mut got) = (vec![], vec![]);
    for (l, leaf) in p.leaves.iter().enumerate() {
        if !leaf.grad {
            continue;
        }
        let want = deriv(&q, l);
        let g = match leaves[l].grad() {
            Ok(g) => {
                if g.shape().dims() != leaf.v.shape.as_slice() {
                    return Out::Bad("wrong", format!("gradient of leaf {l} has shape {:?}, the leaf {:?}", g.shape().dims(), leaf.v.shape));
                }
                if g.dtype() != p.d {
                    return Out::Bad("wrong", format!("gradient of leaf {l} has type {}", g.dtype()));
                }
                match read(&g) {
                    Ok(r) => r.data.iter().map(|x| x.f()).collect::<Vec<_>>(),
                    Err(e) => return Out::Bad("err", format!("reading gradient: {e}")),
                }
            },
            Err(e) => {
                if want.iter().all(|w| w.map_or(true, |x| x.abs() < 1e-7)) {
                    vec![0.0; want.len()]
                } else {
                    return Out::Bad("wrong", format!("leaf {l} has no gradient ({e}), expected {want:?}"));
                }
            },
        };
        exp.push(want);
        got.push(g);
    }
    let scale = exp.iter().flatten().flatten().fold(0f64, |a, x| a.max(x.abs()));
    let (rel, abs, most) = match p.d {
        DType::F64 => (2e-5, 1e-7, 1e300),
        DType::F32 => (2e-3, 1e-6, 1e30),
        _ => (0.25, 0.05, 1e3),
    };
    for (want, g) in exp.iter().zip(&got) {
        for (i, (w, g)) in want.iter().zip(g).enumerate() {
            let Some(w) = w else { continue };
            if w.abs() > most {
                continue;
            }
            compared += 1;
            if !((g - w).abs() <= rel * (w.abs() + 0.5 * scale) + abs) {
                return Out::Bad("wrong", format!("element {i}: gradient {g}, derivative {w}; all {got:?} expected {exp:?}"));
            }
        }
        if shown.len() < 4 {
            shown.push(format!("{:.4?}", want));
        }
    }
    if compared == 0 {
        return Out::Skip;
    }
    Out::Ok(shown.join(";"))
}

/// generic point: the catalogue's values moved off ties and kinks
fn generic_nd(v: &Nd, salt: usize) -> Nd {
    let data = v.data.iter().enumerate().map(|(i, x)| match x {
        V::F(f) => V::F(f + 0.0013 * (((i + 1) * 7 + salt * 5) % 23) as f64 + 0.0004),
        o => *o,
    });
    Nd::new(v.shape.clone(), data.collect())
}
fn leaves_of(cs: &Case) -> Vec<Leaf> {
    let dts = cs.dtypes(DType::F64);
    cs.values(DType::F64)
        .iter()
        .enumerate()
        .map(|(i, v)| Leaf { v: generic_nd(v, i), d: dts[i], grad: dts[i] == DType::F64 })
        .collect()
}
fn single(ck: &mut Check, cs: &Case, layouts: &[&'static str], dts: &[DType]) {
    if nodiff(&cs.k) || !gen::applies(cs, DType::F64) {
        return;
    }
    let leaves = leaves_of(cs);
    let nout = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        eval(&cs.k, &leaves.iter().map(|l| l.v.clone()).collect::<Vec<_>>(), &leaves.iter().map(|l| l.d).collect::<Vec<_>>()).len()
    })) {
        Ok(n) => n,
        Err(_) => return,
    };
    let fl: Vec<usize> = (0..leaves.len()).filter(|&i| leaves[i].grad).collect();
    let grp = cs.group();
    for set in subsets(fl.len()) {
        if set.is_empty() {
            continue;
        }
        for &lay in layouts {
            for &d in dts {
                let mut outsets = vec![(0..nout).map(|o| leaves.len() + o).collect::<Vec<_>>()];
                if nout > 1 {
                    outsets.extend((0..nout).map(|o| vec![leaves.len() + o]));
                }
                for outs in outsets {
                    let sub: Vec<String> = outs.iter().map(|o| (o - leaves.len()).to_string()).collect();
                    let key = format!("{}/{}/w{}/o{}/{}", cs.key(), lay, set.iter().map(|&i| fl[i].to_string()).collect::<String>(), sub.join(""), dn(d));
                    if !ck.wants(&key) {
                        continue;
                    }
                    let mut lv = leaves.clone();
                    for (i, l) in lv.iter_mut().enumerate() {
                        l.grad = set.iter().any(|&s| fl[s] == i);
                    }
                    let p = Prog { leaves: lv, nodes: vec![(cs.k.clone(), (0..leaves.len()).collect())], outs, layout: lay, d };
                    ck.case(&grp, &key, || check(&p));
                }
            }
        }
    }
}
fn c(k: K, ins: &[(&[usize], R)]) -> Case {
    Case { k, ins: ins.iter().map(|(s, r)| (s.to_vec(), *r)).collect() }
}

/// parameters of every operation, enumerated
fn systematic() -> Vec<Case> {
    use R::*;
    let mut v = vec![];
    // element-wise under every broadcast of shapes up to three dimensions
    let mut sh: Vec<Vec<usize>> = vec![];
    for r in 0..=3 {
        sh.extend(shapes(r, &[1, 2, 3]));
    }
    for a in &sh {
        for b in &sh {
            let Some(o) = bshape(a, b) else { continue };
            if numel(&o) > 12 {
                continue;
            }
            for n in ["add", "sub", "mul", "div"] {
                v.push(c(K::Bin(n), &[(a, G), (b, Nz)]));
            }
            if a.len() <= 2 && b.len() <= 2 {
                v.push(c(K::Bin("pow"), &[(a, Pos), (b, G)]));
                for n in ["rem", "maximum", "minimum"] {
                    v.push(c(K::Bin(n), &[(a, G), (b, Nz)]));
                }
                v.push(c(K::Where, &[(a, G), (&o, Mask), (b, G)]));
            }
        }
    }
    for n in UNARY_S {
        for s in [2.0, 0.5, -1.5, 3.0, 1.0, 0.0] {
            if s == 0.0 && matches!(n, "div_scalar" | "rem_scalar") {
                continue;
            }
            v.push(c(K::UnS(n, s), &[(&[2, 3], if n == "pow_scalar" { Pos } else { G })]));
        }
        v.push(c(K::UnS(n, 3.0), &[(&[2, 3], G)]));
    }
    // reductions over every ordered subset of axes
    for s in [&[4usize][..], &[2, 3], &[2, 3, 2], &[1, 3], &[2, 1, 3], &[2, 2, 1, 2], &[]] {
        let n = s.len();
        for set in subsets(n) {
            let mut orders = vec![set.iter().map(|&x| x as i32).collect::<Vec<_>>()];
            orders.push(set.iter().map(|&x| x as i32 - n as i32).collect());
            orders.push(set.iter().rev().map(|&x| x as i32).collect());
            orders.dedup();
            for dims in orders {
                for kd in [false, true] {
                    for nm in REDUCE {
                        let r = if nm == "logsum" { Pos } else if nm == "max" || nm == "min" { Dist } else { G };
                        v.push(c(K::Red(nm, dims.clone(), kd), &[(s, r)]));
                    }
                    for p in [1.0, 2.0, 3.0, 0.5, 1.5] {
                        v.push(c(K::NormP(p, dims.clone(), kd), &[(s, G)]));
                    }
                }
            }
        }
        for d in 0..n as i32 {
            for d in [d, d - n as i32] {
                v.push(c(K::Cumsum(d), &[(s, G)]));
                v.push(c(K::Softmax(d), &[(s, G)]));
                v.push(c(K::LogSoftmax(d), &[(s, G)]));
                for k in 1..=2usize {
                    if s[ax(d, n)] >= k {
                        v.push(c(K::Split(if s[ax(d, n)] == k { vec![k] } else { vec![k, s[ax(d, n)] - k] }, d), &[(s, G)]));
                    }
                }
                for m in 1..=3 {
                    v.push(c(K::Chunk(m, d), &[(s, G)]));
                }
                v.push(c(K::Concat(d), &[(s, G), (s, G), (s, G)]));
                v.push(c(K::Flip(vec![d]), &[(s, G)]));
                for e in (0..n as i32).chain(-(n as i32)..0) {
                    v.push(c(K::Transp(d, e), &[(s, G)]));
                }
                // slices
                let m = s[ax(d, n)] as i32;
                for st in -m - 1..=m + 1 {
                    for en in [None, Some(0), Some(1), Some(m - 1), Some(m), Some(m + 1), Some(-1), Some(-m)] {
                        for step in [1i32, 2, -1, -2] {
                            // slices that select something by the definition of the array model
                            if s.len() <= 2 || step.abs() == 1 {
                                v.push(c(K::Slice(d, st, en, step), &[(s, G)]));
                            }
                        }
                    }
                }
            }
        }
        for d in (0..=n as i32).chain(-(n as i32)..0) {
            v.push(c(K::Unsq(d), &[(s, G)]));
            v.push(c(K::Stack(d), &[(s, G), (s, G)]));
        }
        for p in perms(n) {
            v.push(c(K::Perm(p.iter().map(|&x| x as i32).collect()), &[(s, G)]));
        }
        for set in subsets(n) {
            v.push(c(K::Flip(set.iter().map(|&x| x as i32).collect()), &[(s, G)]));
            let t: Vec<i32> = set.iter().filter(|&&x| s[x] == 1).map(|&x| x as i32).collect();
            v.push(c(K::Squeeze(t), &[(s, G)]));
        }
        for r in tuples(n, &[1usize, 2]) {
            v.push(c(K::Repeat(r), &[(s, G)]));
        }
        v.push(c(K::Flatten, &[(s, G)]));
        for t in &sh {
            if numel(t) == numel(s) {
                v.push(c(K::Reshape(t.clone()), &[(s, G)]));
            }
        }
        for t in &sh {
            if numel(t) <= 18 && bshape(s, t).as_deref() == Some(&t[..]) {
                v.push(c(K::Bcast(t.clone()), &[(s, G)]));
            }
            if bshape(t, s).as_deref() == Some(s) {
                v.push(c(K::SumTo(t.clone()), &[(s, G)]));
            }
        }
    }
    for s in [&[2usize, 2, 2][..], &[3, 3, 3], &[2, 3, 4], &[2, 3, 2]] {
        for p in perms(3) {
            v.push(c(K::Perm(p.iter().map(|&x| x as i32).collect()), &[(s, G)]));
        }
        for d in 0..3 {
            for e in 0..3 {
                v.push(c(K::Transp(d, e), &[(s, G)]));
            }
        }
    }
    for p in perms(4) {
        v.push(c(K::Perm(p.iter().map(|&x| x as i32).collect()), &[(&[2, 2, 1, 2], G)]));
    }
    // products
    for a in &sh {
        for b in &sh {
            if a.is_empty() || b.is_empty() || numel(a) * numel(b) > 36 {
                continue;
            }
            let (k1, k2) = (a[a.len() - 1], if b.len() == 1 { b[0] } else { b[b.len() - 2] });
            if k1 != k2 {
                continue;
            }
            let (ba, bb) = (&a[..a.len().saturating_sub(2)], &b[..b.len().saturating_sub(2)]);
            if bshape(ba, bb).is_none() || (a.len() == 1 && b.len() > 2) || (b.len() == 1 && a.len() > 2) {
                continue;
            }
            v.push(c(K::Matmul, &[(a, G), (b, G)]));
            if a.len() <= 2 && b.len() <= 2 {
                v.push(c(K::Dot, &[(a, G), (b, G)]));
            }
        }
    }
    for s in [&[1usize, 1][..], &[2, 2], &[3, 3], &[4, 4], &[1, 2, 2], &[2, 2, 2], &[2, 1, 3, 3]] {
        for k in [K::Det, K::Trace, K::Inv] {
            v.push(c(k, &[(s, Mat)]));
        }
        let mut b = s.to_vec();
        let l = b.len();
        for m in 1..=2 {
            b[l - 1] = m;
            v.push(c(K::Solve, &[(s, Mat), (&b, G)]));
        }
    }
    // indexing
    for s in [&[3usize][..], &[2, 3], &[3, 2, 2]] {
        let n = s.len();
        for a in 0..n {
            for d in [a as i32, a as i32 - n as i32] {
                for m in 1..=4usize {
                    v.push(c(K::IndexSelect(d), &[(s, G), (&[m], Idx(s[a]))]));
                    let mut t = s.to_vec();
                    t[a] = m;
                    v.push(c(K::Gather(d), &[(s, G), (&t, Idx(s[a]))]));
                    for nm in ["scatter", "scatter_add", "scatter_max", "scatter_min"] {
                        v.push(c(K::Scatter(nm, d), &[(s, G), (&t, Idx(s[a])), (&t, Dist)]));
                        v.push(c(K::Scatter(nm, d), &[(s, G), (&t, Uniq(s[a])), (&t, Dist)]));
                    }
                    if m <= s[a] {
                        v.push(c(K::IndexPut(d), &[(s, G), (&[m], Uniq(s[a])), (&t, G)]));
                    }
                }
            }
        }
    }
    // padding
    for m in ["constant", "reflect", "replicate", "circular"] {
        for n in 1..=3usize {
            for lo in 0..=3usize {
                for hi in 0..=3 {
                    if m == "reflect" && (lo >= n || hi >= n) || m == "circular" && (lo > n || hi > n) {
                        continue;
                    }
                    v.push(c(K::Pad(m, vec![(lo, hi)], 0.5), &[(&[n], G)]));
                    for (l2, h2) in [(0, 0), (1, 0), (0, 2), (1, 1)] {
                        if m == "reflect" && (l2 >= 3 || h2 >= 3) {
                            continue;
                        }
                        v.push(c(K::Pad(m, vec![(lo, hi), (l2, h2)], 0.5), &[(&[n, 3], G)]));
                        v.push(c(K::Pad(m, vec![(l2, h2), (0, 1), (lo, hi)], 0.5), &[(&[3, 2, n], G)]));
                    }
                }
            }
        }
    }
    // windows
    for m in ["sum", "mean", "max", "min"] {
        for n in 1..=5usize {
            for w in 1..=3usize {
                for st in 1..=3 {
                    for lo in 0..w {
                        for hi in 0..w {
                            if n + lo + hi < w {
                                continue;
                            }
                            v.push(c(K::RWin(m, vec![w], vec![st], vec![(lo, hi)]), &[(&[n], Dist)]));
                            if n <= 4 && lo + hi < 3 {
                                v.push(c(K::RWin(m, vec![1, w, 2], vec![1, st, 1], vec![(0, 0), (lo, hi), (0, 1)]), &[(&[2, n, 2], Dist)]));
                                v.push(c(K::RWin(m, vec![2, w], vec![2, st], vec![(0, 0), (lo, hi)]), &[(&[4, n], Dist)]));
                            }
                        }
                    }
                }
            }
        }
    }
    // resizing
    for md in ["nearest", "linear", "cubic"] {
        for ct in ["half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"] {
            for nm in ["floor", "ceil", "round_prefer_floor", "round_prefer_ceil"] {
                if md != "nearest" && nm != "floor" {
                    continue;
                }
                for (i, o) in [([2usize, 3], [3usize, 2]), ([3, 3], [5, 4]), ([4, 2], [2, 2]), ([1, 3], [2, 6]), ([3, 1], [1, 1])] {
                    v.push(c(K::Resize(o.to_vec(), md, ct, nm), &[(&[1, 2, i[0], i[1]], G)]));
                }
                if md != "cubic" {
                    v.push(c(K::Resize(vec![3, 1, 2], md, ct, nm), &[(&[2, 1, 2, 2, 3], G)]));
                }
            }
        }
    }
    // convolutions: kernel, stride, padding, dilation
    for nd in 1..=3usize {
        for inp in 2..=if nd == 1 { 6usize } else { 4 } {
            for k in 1..=3usize {
                for st in 1..=3 {
                    for p in 0..=2 {
                        for dl in 1..=2 {
                            if nd == 3 && (inp > 3 || k > 2 || st > 2 || p > 1) {
                                continue;
                            }
                            if nd == 2 && (p > 1 || (k == 3 && dl == 2)) {
                                continue;
                            }
                            let ext = dl * (k - 1) + 1;
                            let mut a = vec![2, 2];
                            let mut w = vec![3, 2];
                            if nd == 3 {
                                a[0] = 1;
                                w[0] = 2;
                            }
                            for i in 0..nd {
                                a.push(inp + (i + 1) % 2);
                                w.push(if i == 1 { 2 } else { k });
                            }
                            let fits = (0..nd).all(|i| a[2 + i] + 2 * p >= dl * (w[2 + i] - 1) + 1);
                            if fits {
                                v.push(c(K::Conv(nd, st, p, dl), &[(&a, G), (&w, G)]));
                            }
                            let mut t = vec![2, 3];
                            let mut wt = vec![3, 2];
                            for i in 0..nd {
                                t.push(2 + (inp + i) % 2);
                                wt.push(w[2 + i]);
                            }
                            for op in 0..=1 {
                                if op < st.max(dl) && (0..nd).all(|i| (t[2 + i] - 1) * st + dl * (wt[2 + i] - 1) + op + 1 > 2 * p) && ext > 0 && inp <= 3 {
                                    v.push(c(K::ConvT(nd, st, p, op, dl), &[(&t, G), (&wt, G)]));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // einsum: every one- and two-operand expression over three letters (sizes 2, 3, 2)
    let size = |ch: char| match ch {
        'i' => 2usize,
        'j' => 3,
        _ => 2,
    };
    let words: Vec<String> = {
        let mut w = vec![String::new()];
        for n in 1..=3 {
            for t in tuples(n, &['i', 'j', 'k']) {
                w.push(t.iter().collect());
            }
        }
        w
    };
    let outs = |used: &str| -> Vec<String> {
        let mut u: Vec<char> = used.chars().collect();
        u.sort();
        u.dedup();
        let mut r = vec![];
        for set in subsets(u.len()) {
            for p in perms(set.len()) {
                r.push(p.iter().map(|&i| u[set[i]]).collect());
            }
        }
        r
    };
    let shp = |w: &str| w.chars().map(size).collect::<Vec<_>>();
    let mut es: Vec<(String, Vec<Vec<usize>>)> = vec![];
    for a in &words {
        for o in outs(a) {
            es.push((format!("{a}->{o}"), vec![shp(a)]));
        }
        for b in &words {
            if a.len() + b.len() > 4 {
                continue;
            }
            for o in outs(&format!("{a}{b}")) {
                es.push((format!("{a},{b}->{o}"), vec![shp(a), shp(b)]));
            }
        }
    }
    for (e, n) in [("ij,jk,ki->", 3), ("i,j,k->kij", 3), ("ij,jk,kl->il", 3), ("i,ij,j->", 3), ("ij,ik,ij->jk", 3), ("i,i,i->i", 3), ("i,j,ij,j->i", 4), ("ij,jk,kl,li->", 4)] {
        let ins: Vec<Vec<usize>> = e.split("->").next().unwrap().split(',').map(|w| shp(w)).collect();
        assert_eq!(ins.len(), n);
        es.push((e.to_string(), ins));
    }
    for (e, ins) in es {
        v.push(Case { k: K::Einsum(e), ins: ins.into_iter().map(|s| (s, G)).collect() });
    }
    for (l, h) in [(-1.0, 2.0), (0.0, 0.5)] {
        v.push(c(K::Clamp(l, h), &[(&[2, 3, 2], G)]));
    }
    v
}

/// operations of one value that apply to this shape, for compositions
fn pool(s: &[usize]) -> Vec<K> {
    let n = s.len();
    let mut v: Vec<K> = vec![];
    for u in UNARY {
        if !nodiff(&K::Un(u)) && !matches!(u, "asin" | "acos" | "atanh" | "acosh" | "exp10" | "sinh" | "cosh") {
            v.push(K::Un(u));
        }
    }
    for u in UNARY_S {
        v.push(K::UnS(u, 1.5));
    }
    v.push(K::Clamp(-1.0, 2.0));
    if n == 0 {
        return v;
    }
    for kd in [false, true] {
        for nm in ["sum", "mean", "prod", "max", "std", "var", "l2_norm", "logsumexp"] {
            v.push(K::Red(nm, vec![-1], kd));
            if n > 1 {
                v.push(K::Red(nm, vec![0], kd));
            }
        }
        v.push(K::Red("sum", vec![], kd));
    }
    v.push(K::Cumsum(0));
    v.push(K::Softmax(-1));
    v.push(K::LogSoftmax(0));
    v.push(K::Flip(vec![0]));
    v.push(K::Flatten);
    v.push(K::Unsq(0));
    v.push(K::Reshape(vec![numel(s)]));
    v.push(K::Slice(0, 0, Some(1), 1));
    v.push(K::Slice(-1, -1, None, -1));
    if s[n - 1] > 1 {
        v.push(K::Slice(-1, 1, None, 1));
    }
    v.push(K::Repeat(vec![2; n]));
    v.push(K::Pad("constant", vec![(1, 0); n], 0.5));
    v.push(K::Pad("replicate", vec![(0, 1); n], 0.5));
    v.push(K::Chunk(2, 0));
    let mut b = vec![2];
    b.extend(s);
    v.push(K::Bcast(b));
    if n > 1 {
        v.push(K::Transp(0, -1));
        v.push(K::Perm((0..n as i32).rev().collect()));
        v.push(K::SumTo(s[1..].to_vec()));
    }
    if n == 2 {
        v.push(K::Einsum("ij->j".into()));
        v.push(K::Einsum("ij->ji".into()));
    }
    v.push(K::RWin("sum", vec![1; n], vec![1; n], vec![(0, 0); n]));
    v
}
fn xleaf(s: &[usize], r: R, salt: usize) -> Leaf {
    Leaf { v: generic_nd(&gen::values(s, r, DType::F64, salt), salt), d: DType::F64, grad: true }
}
fn shape_after(p: &Prog) -> Option<Vec<(Vec<usize>, DType)>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        forward(p, &p.leaves.iter().map(|l| l.v.clone()).collect::<Vec<_>>()).into_iter().map(|(a, d)| (a.shape, d)).collect()
    }))
    .ok()
}

fn main() {
    let mut ck = Check::new("C08", "model_checking");
    for cs in gen::cases() {
        single(&mut ck, &cs, &["c", "perm", "stepoff"], &[DType::F64, DType::F32]);
    }
    for cs in gen::cases() {
        single(&mut ck, &cs, &["c"], &[DType::F16, DType::BF16]);
    }
    // element-wise operations far from the origin, where intermediate results overflow or vanish
    let far = [0.0, 1e-3, 0.01, 0.97, 5.0, 20.0, 60.0, 90.0, 300.0, 709.0, 1e4, 1e10, 1e20, 1e40, 1e160];
    let mut els: Vec<K> = UNARY.iter().map(|u| K::Un(u)).collect();
    els.extend(UNARY_S.iter().flat_map(|u| [-1.5, 0.5, 2.0, 3.0].map(|s| K::UnS(u, s))));
    els.push(K::Softmax(0));
    els.push(K::LogSoftmax(0));
    for kd in [false, true] {
        els.extend(REDUCE.iter().map(|n| K::Red(n, vec![0], kd)));
    }
    for k in els {
        if nodiff(&k) {
            continue;
        }
        for d in [DType::F64, DType::F32] {
            for x in far.iter().flat_map(|&x| [x, -x]) {
                // beyond, squares and cubes overflow
                if f64::abs(x) > if d == DType::F32 { 1e10 } else { 1e40 } {
                    continue;
                }
                let periodic = matches!(k, K::Un("sin" | "cos" | "tan") | K::UnS("rem_scalar", _) | K::Softmax(_));
                if periodic && f64::abs(x) > 1e4 {
                    continue;
                }
                for others in [vec![], vec![0.75], vec![-x], vec![x / 2.0, -1.25], vec![0.0, 2.0]] {
                    if matches!(k, K::Un(_) | K::UnS(..)) && !others.is_empty() {
                        continue;
                    }
                    let key = format!("far/{}/{x:e}{others:?}/{}", name(&k), dn(d)).replace(' ', "");
                    if !ck.wants(&key) {
                        continue;
                    }
                    let data: Vec<V> = std::iter::once(x).chain(others).map(|x| V::F(quant(d, x))).collect();
                    let n = Nd::new(vec![data.len()], data);
                    let p = Prog { leaves: vec![Leaf { v: n, d: DType::F64, grad: true }], nodes: vec![(k.clone(), vec![0])], outs: vec![1], layout: "c", d };
                    ck.case("far", &key, || check(&p));
                }
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    for cs in systematic() {
        if seen.insert(cs.key()) {
            let d: &[DType] = if ck.thorough() { &[DType::F64, DType::F32] } else { &[DType::F64] };
            single(&mut ck, &cs, &["c"], d);
        }
    }
    // two- and three-operation chains, and reuse of one value by two operations
    let starts: Vec<(Vec<usize>, R)> = if ck.thorough() {
        vec![(vec![2, 3], R::G), (vec![2, 3], R::Pos), (vec![3], R::G), (vec![2, 1, 3], R::Pos)]
    } else {
        vec![(vec![2, 3], R::Pos), (vec![2, 3], R::G)]
    };
    for (s, r) in &starts {
        for f in pool(s) {
            let p1 = Prog { leaves: vec![xleaf(s, *r, 0)], nodes: vec![(f.clone(), vec![0])], outs: vec![], layout: "c", d: DType::F64 };
            let Some(sh1) = shape_after(&p1) else { continue };
            let pre = format!("chain{s:?}{r:?}/{}", name(&f)).replace(' ', "");
            for g in pool(&sh1[1].0) {
                let mut p = p1.clone();
                p.nodes.push((g.clone(), vec![1]));
                let key = format!("{pre}>{}", name(&g));
                if ck.wants(&key) {
                    if let Some(a) = shape_after(&p) {
                        let first = 1 + sh1.len() - 1;
                        p.outs = (first..a.len()).collect();
                        ck.case("chain", &key, || check(&p));
                    }
                }
                // the intermediate value contributes as well
                let key = format!("{pre}>{}+reuse", name(&g));
                if ck.wants(&key) {
                    if let Some(a) = shape_after(&p) {
                        p.outs = (0..a.len()).collect();
                        ck.case("chain-reuse", &key, || check(&p));
                    }
                }
            }
            // f(x) combined with g(x)
            for g in pool(s) {
                for b in ["mul", "add", "div", "maximum"] {
                    if !ck.thorough() && b != "mul" {
                        continue;
                    }
                    let key = format!("{pre}{b}{}", name(&g));
                    if !ck.wants(&key) {
                        continue;
                    }
                    let mut p = p1.clone();
                    p.nodes.push((g.clone(), vec![0]));
                    let Some(sh2) = shape_after(&p) else { continue };
                    let gi = sh1.len();
                    if bshape(&sh2[1].0, &sh2[gi].0).map_or(true, |o| numel(&o) > 48) {
                        continue;
                    }
                    p.nodes.push((K::Bin(b), vec![1, gi]));
                    p.outs = vec![sh2.len()];
                    ck.case("diamond", &key, || check(&p));
                }
            }
            // f(x) with x itself, in both positions
            for b in BINARY {
                for (i, j) in [(0, 1), (1, 0), (1, 1), (0, 0)] {
                    let key = format!("{pre}{b}{i}{j}");
                    if !ck.wants(&key) || bshape(&s, &sh1[1].0).is_none() {
                        continue;
                    }
                    let mut p = p1.clone();
                    p.nodes.push((K::Bin(b), vec![i, j]));
                    p.outs = vec![sh1.len()];
                    ck.case("reuse", &key, || check(&p));
                }
            }
        }
    }
    ck.finish("every program enumerated: one operation over the catalogue and over systematically enumerated shapes, axes and parameters (every subset of operands requiring a gradient; contiguous, permuted and strided leaves; f64 and f32), every chain of two pool operations, every pair f(x)*g(x), and every binary operation on x and f(x); the gradient of a weighted sum of the results is compared, element by element, with differences of the reference definition at a generic point");
}
