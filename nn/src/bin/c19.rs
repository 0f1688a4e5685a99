//! C19: every layer and loss computes its definition, forward and backward, in training and evaluation mode.
//! For every layer and loss, every combination of its settings within the bounds, every small shape, memory layout and
//! type: the outputs equal the definition carried out in f64, the gradients of all inputs and parameters equal central
//! differences of that definition, and so again after each of two optimiser steps.
use hodu_core::error::HoduResult;
use hodu_core::scalar::Scalar;
use hodu_core::tensor::{tensor_count, GradientContext, Tensor};
use hodu_core::types::DType;
use hodu_nn::module::Module;
use hodu_nn::optimizer::Optimizer;
use hodu_nn::prelude::{CosineEmbeddingLoss, KLDivLoss, SmoothL1Loss};
use hodu_nn::*;
use mc::check::*;
use mc::nd::*;
use mc::tio::*;
use mc::vals::tuples;
use nn::lay::*;

#[derive(Clone, Copy, PartialEq)]
enum Kd {
    /// a tracked float
    F,
    /// a float that is not tracked
    C,
    /// indices
    I,
    /// a mask
    B,
}
use Kd::*;
struct Mo {
    params: Vec<Tensor>,
    run: Box<dyn Fn(&[Tensor]) -> HoduResult<Vec<Tensor>>>,
}
fn owned(v: Vec<&Tensor>) -> Vec<Tensor> {
    v.into_iter().cloned().collect()
}
fn one<M: for<'a> Module<&'a Tensor> + 'static>(m: M) -> HoduResult<Mo> {
    let params = owned(<M as Module<&Tensor>>::parameters(&m));
    Ok(Mo { params, run: Box::new(move |x| Ok(vec![Module::forward(&m, &x[0])?])) })
}
fn two<M: for<'a, 'b> Module<(&'a Tensor, &'b Tensor)> + 'static>(m: M) -> HoduResult<Mo> {
    let params = owned(<M as Module<(&Tensor, &Tensor)>>::parameters(&m));
    Ok(Mo { params, run: Box::new(move |x| Ok(vec![Module::forward(&m, (&x[0], &x[1]))?])) })
}
fn three<M: for<'a, 'b, 'c> Module<(&'a Tensor, &'b Tensor, &'c Tensor)> + 'static>(m: M) -> HoduResult<Mo> {
    let params = owned(<M as Module<(&Tensor, &Tensor, &Tensor)>>::parameters(&m));
    Ok(Mo { params, run: Box::new(move |x| Ok(vec![Module::forward(&m, (&x[0], &x[1], &x[2]))?])) })
}
type Make = Box<dyn Fn(DType) -> HoduResult<Mo>>;
type Ref = Box<dyn Fn(&[R], &[R]) -> Vec<R>>;
struct Spec {
    key: String,
    ins: Vec<(R, Kd)>,
    make: Make,
    reference: Ref,
    /// values the parameters have at first, where the definition says
    init: Option<Vec<f64>>,
    eval: bool,
    grad: bool,
}
fn spec(key: String, ins: Vec<(R, Kd)>, make: impl Fn(DType) -> HoduResult<Mo> + 'static, reference: impl Fn(&[R], &[R]) -> Vec<R> + 'static) -> Spec {
    Spec { key, ins, make: Box::new(make), reference: Box::new(reference), init: None, eval: false, grad: true }
}
/// distinct nonzero values that every type represents
fn gen(s: &[usize], salt: usize) -> R {
    let mut k = 0;
    R::from(s, |_| {
        k += 1;
        let j = ((k + salt * 5) * 7) % 31;
        (2.0 * j as f64 - 30.0) / 16.0 + 1.0 / 16.0
    })
}
fn small(s: &[usize], salt: usize) -> R {
    gen(s, salt).map(|x| x / 2.0)
}
/// probabilities away from the ends
fn prob(s: &[usize], salt: usize) -> R {
    gen(s, salt).map(|x| (x + 2.0) / 4.0)
}
fn nd(r: &R, k: Kd) -> Nd {
    Nd::new(
        r.s.clone(),
        r.d.iter()
            .map(|&x| match k {
                I => V::I(x as i128),
                B => V::B(x != 0.0),
                _ => V::F(x),
            })
            .collect(),
    )
}
fn rd(t: &Tensor) -> Result<R, String> {
    let x = read(t).map_err(|e| e.to_string())?;
    Ok(R { s: x.shape, d: x.data.iter().map(|v| v.f()).collect() })
}
fn coef(i: usize, o: usize) -> f64 {
    const W: [f64; 11] = [1.0, -0.5, 2.0, 0.25, 1.5, -1.25, 0.75, -2.0, 1.75, 0.5, -1.0];
    W[(i * 3 + o * 5) % 11]
}
/// derivative of the weighted sum of the outputs with respect to every element of value `which`
fn deriv(f: &dyn Fn(&[R]) -> Vec<R>, at: &[R], which: usize) -> Vec<Option<f64>> {
    let base = f(at);
    let diff = |j: usize, h: f64| -> f64 {
        let mut v = at.to_vec();
        v[which].d[j] += h;
        let o = f(&v);
        let mut s = 0.0;
        for (k, (x, y)) in o.iter().zip(&base).enumerate() {
            for (i, (a, b)) in x.d.iter().zip(&y.d).enumerate() {
                s += coef(i, k) * (a - b);
            }
        }
        s
    };
    (0..at[which].d.len())
        .map(|j| {
            let h = 1e-3;
            let (r, l) = (diff(j, h) / h, -diff(j, -h) / h);
            // straight as far as the step
            if r.is_finite() && (r - l).abs() <= 1e-10 * (1.0 + r.abs()) {
                return Some((r + l) / 2.0);
            }
            let near = 1e-5;
            let (r2, l2) = (diff(j, near) / near, -diff(j, -near) / near);
            // not smooth here
            if !r.is_finite() || !l.is_finite() || (r2 - l2).abs() > 1e-3 * (1.0 + r2.abs() + l2.abs()) {
                return None;
            }
            // smooth here but not as far as the step
            if ((r + l) - (r2 + l2)).abs() > 1e-3 * (1.0 + r.abs() + l.abs()) {
                return Some((r2 + l2) / 2.0);
            }
            let c1 = (r + l) / 2.0;
            let hh = h / 2.0;
            let c2 = (diff(j, hh) - diff(j, -hh)) / (2.0 * hh);
            Some((4.0 * c2 - c1) / 3.0)
        })
        .collect()
}
type Key = (String, usize, Vec<u64>);
thread_local!(static MEMO: std::cell::RefCell<std::collections::HashMap<Key, Vec<Option<f64>>>> = Default::default());
/// the same, kept for the other layouts and types of the same case
fn memo(key: &str, f: &dyn Fn(&[R]) -> Vec<R>, at: &[R], which: usize) -> Vec<Option<f64>> {
    let k: Key = (key.to_string(), which, at.iter().flat_map(|r| r.d.iter().map(|x| x.to_bits())).collect());
    if let Some(v) = MEMO.with(|m| m.borrow().get(&k).cloned()) {
        return v;
    }
    let v = deriv(f, at, which);
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 200 {
            m.clear();
        }
        m.insert(k, v.clone());
    });
    v
}
fn close(g: f64, w: f64, scale: f64, d: DType, grad: bool) -> bool {
    if g.is_nan() && w.is_nan() || g == w {
        return true;
    }
    let rel = match (d, grad) {
        (DType::F64, false) => 1e-12,
        (DType::F64, true) => 1e-7,
        (DType::F32, false) => 1e-5,
        (DType::F32, true) => 1e-4,
        (DType::F16, _) => 0.03,
        _ => 0.2,
    };
    (g - w).abs() <= rel * (1.0 + scale.max(w.abs()))
}
fn compare(what: &str, got: &R, want: &[Option<f64>], shape: &[usize], d: DType, grad: bool) -> Result<(), String> {
    if got.s != shape {
        return Err(format!("{what} has shape {:?}, expected {shape:?}", got.s));
    }
    let scale = want.iter().flatten().filter(|x| x.is_finite()).fold(0.0f64, |a, b| a.max(b.abs()));
    for (i, (g, w)) in got.d.iter().zip(want).enumerate() {
        if let Some(w) = w {
            if !close(*g, *w, scale, d, grad) {
                return Err(format!("{what} element {i} is {g}, expected {w}; {:?} against {want:?}", got.d));
            }
        }
    }
    Ok(())
}

fn check(sp: &Spec, d: DType, lay: &str, steps: usize) -> Out {
    let _ctx = GradientContext::new();
    if sp.eval {
        hodu_nn::eval!();
    } else {
        hodu_nn::train!();
    }
    macro_rules! tri {
        ($e:expr, $w:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => return Out::Bad("err", format!("{}: {e}", $w)),
            }
        };
    }
    macro_rules! ok {
        ($e:expr) => {
            if let Err(e) = $e {
                return Out::Bad("wrong", e);
            }
        };
    }
    let mut ts = vec![];
    let mut ins = vec![];
    for (r, k) in &sp.ins {
        let q = if matches!(k, F | C) { r.map(|x| quant(d, x)) } else { r.clone() };
        let dt = match k {
            I => DType::I32,
            B => DType::BOOL,
            _ => d,
        };
        let t = match laid(&nd(&q, *k), dt, lay) {
            Ok(Some(t)) => t,
            Ok(None) => match tensor(&nd(&q, *k), dt) {
                Ok(t) => t,
                Err(e) => return Out::Bad("err", format!("input: {e}")),
            },
            Err(e) => return Out::Bad("err", format!("input: {e}")),
        };
        if *k == F {
            tri!(t.set_requires_grad(true), "tracking");
        }
        ts.push(t);
        ins.push(q);
    }
    let mo = tri!((sp.make)(d), "constructor");
    let mut log = String::new();
    // as constructed
    let p0: Vec<R> = tri!(mo.params.iter().map(rd).collect::<Result<Vec<_>, _>>(), "parameters");
    for (i, p) in mo.params.iter().enumerate() {
        if p.dtype() != d || !p.is_requires_grad() {
            return Out::Bad("wrong", format!("parameter {i} has type {:?} and tracking {}", p.dtype(), p.is_requires_grad()));
        }
        if let Some(v) = &sp.init {
            if !v[i].is_nan() && p0[i].d.iter().any(|x| *x != v[i]) {
                return Out::Bad("wrong", format!("parameter {i} is {:?} at first", p0[i].d));
            }
        }
    }
    let out = tri!((mo.run)(&ts), "forward as constructed");
    let want = (sp.reference)(&ins, &p0);
    if out.len() != want.len() {
        return Out::Bad("wrong", format!("{} outputs", out.len()));
    }
    for (i, (o, w)) in out.iter().zip(&want).enumerate() {
        if o.dtype() != d {
            return Out::Bad("wrong", format!("output {i} has type {:?}", o.dtype()));
        }
        let g = tri!(rd(o), "output");
        let w: Vec<Option<f64>> = w.d.iter().map(|x| Some(*x)).collect();
        ok!(compare(&format!("output {i} of the layer as constructed"), &g, &w, &want[i].s, d, false));
    }
    // the parameters of our own choice
    for (i, p) in mo.params.iter().enumerate() {
        let v = small(&p0[i].s, i + 3).map(|x| quant(d, x));
        let t = match laid(&nd(&v, F), d, if lay == "bc" { "c" } else { lay }) {
            Ok(Some(t)) => t,
            _ => tri!(tensor(&nd(&v, F), d), "parameter"),
        };
        tri!(p.set_(&t), "set_");
    }
    let mut sgd = SGD::new(0.0625f32);
    let mut counts = vec![];
    drop(out);
    for it in 0..steps {
        let ps: Vec<R> = tri!(mo.params.iter().map(rd).collect::<Result<Vec<_>, _>>(), "parameters");
        let want = (sp.reference)(&ins, &ps);
        let out = tri!((mo.run)(&ts), "forward");
        let mut loss: Option<Tensor> = None;
        for (i, (o, w)) in out.iter().zip(&want).enumerate() {
            let g = tri!(rd(o), "output");
            let wv: Vec<Option<f64>> = w.d.iter().map(|x| Some(*x)).collect();
            ok!(compare(&format!("output {i} after {it} steps"), &g, &wv, &w.s, d, false));
            log.push_str(&format!("{:.3} ", g.d.first().unwrap_or(&0.0)));
            let c = R { s: w.s.clone(), d: (0..w.d.len()).map(|j| coef(j, i)).collect() };
            let c = tri!(tensor(&nd(&c, F), d), "weights");
            let s = tri!(o.mul(&c).and_then(|x| x.sum_all()), "loss");
            loss = Some(match loss {
                None => s,
                Some(l) => tri!(l.add(&s), "loss"),
            });
        }
        if !sp.grad {
            continue;
        }
        let loss = loss.unwrap();
        let tracked = !mo.params.is_empty() || sp.ins.iter().any(|x| x.1 == F);
        if !tracked {
            break;
        }
        tri!(loss.backward(), "backward");
        let ni = ins.len();
        let mut at = ins.clone();
        at.extend(ps.iter().cloned());
        let f = |v: &[R]| (sp.reference)(&v[..ni], &v[ni..]);
        for (i, v) in at.iter().enumerate() {
            let (name, t) = if i < ni {
                if sp.ins[i].1 != F {
                    continue;
                }
                (format!("gradient of input {i}"), &ts[i])
            } else {
                (format!("gradient of parameter {}", i - ni), &mo.params[i - ni])
            };
            let w = memo(&sp.key, &f, &at, i);
            match t.grad() {
                Err(e) => {
                    if w.iter().any(|x| x.is_some_and(|y| y != 0.0)) {
                        return Out::Bad("wrong", format!("no {name}: {e}"));
                    }
                },
                Ok(g) => {
                    let g = tri!(rd(&g), "gradient");
                    ok!(compare(&format!("{name} after {it} steps"), &g, &w, &v.s, d, true));
                },
            }
        }
        let refs: Vec<&Tensor> = mo.params.iter().collect();
        if !refs.is_empty() {
            let have = refs.iter().all(|p| p.grad().is_ok());
            if have {
                tri!(Optimizer::step(&mut sgd, &refs), "step");
            }
        }
        for t in refs.iter().copied().chain(ts.iter().filter(|t| t.is_requires_grad())) {
            if t.grad().is_ok() {
                tri!(t.zero_grad(), "zero_grad");
            }
        }
        drop(loss);
        drop(out);
        counts.push(tensor_count());
    }
    if counts.len() >= 3 && counts[2] > counts[1] {
        return Out::Bad("leak", format!("live tensors after each step: {counts:?}"));
    }
    Out::Ok(log)
}

fn activations(v: &mut Vec<Spec>) {
    let shapes: [&[usize]; 4] = [&[6], &[3, 4], &[], &[2, 3, 4]];
    for s in shapes {
        macro_rules! act {
            ($name:expr, $m:expr, $f:expr) => {
                v.push(spec(format!("{} {s:?}", $name), vec![(gen(s, 1), F)], move |_| one($m), move |x, _| vec![x[0].map($f)]));
            };
        }
        act!("ReLU", ReLU::new(), |x: f64| x.max(0.0));
        act!("Sigmoid", Sigmoid::new(), sig);
        act!("Tanh", Tanh::new(), f64::tanh);
        act!("Gelu", Gelu::new(), |x: f64| 0.5 * x * (1.0 + ((2.0 / std::f64::consts::PI).sqrt() * (x + 0.044715 * x * x * x)).tanh()));
        act!("Softplus", Softplus::new(), |x: f64| x.exp().ln_1p());
        act!("SiLU", SiLU::new(), |x: f64| x * sig(x));
        act!("Swish", Swish::new(), |x: f64| x * sig(x));
        act!("Mish", Mish::new(), |x: f64| x * x.exp().ln_1p().tanh());
        for a in [0.25, 1.0, 0.0, 2.0] {
            for wide in [false, true] {
                let sc = move || if wide { Scalar::from(a) } else { Scalar::from(a as f32) };
                act!(format!("LeakyReLU({a},{wide})"), LeakyReLU::new(sc()), move |x: f64| if x > 0.0 { x } else { a * x });
                act!(format!("ELU({a},{wide})"), ELU::new(sc()), move |x: f64| if x > 0.0 { x } else { a * x.exp_m1() });
                act!(format!("PReLU({a},{wide})"), PReLU::new(sc()), move |x: f64| if x > 0.0 { x } else { a * x });
                act!(format!("RReLU({a},3,{wide}) eval"), RReLU::new(sc(), 3.0f32), move |x: f64| if x > 0.0 { x } else { (a + 3.0) / 2.0 * x });
                v.last_mut().unwrap().eval = true;
            }
        }
        for p in [0.0, 0.5, 1.0] {
            act!(format!("Dropout({p}) eval"), Dropout::new(p), |x: f64| x);
            v.last_mut().unwrap().eval = true;
        }
        act!("Dropout(0)", Dropout::new(0.0), |x: f64| x);
        act!("Dropout(1)", Dropout::new(1.0), |_| 0.0);
    }
}

fn linears(v: &mut Vec<Spec>) {
    for (i, o) in [(1, 1), (3, 2), (2, 4), (5, 1)] {
        for b in [false, true] {
            for lead in [&[][..], &[1], &[3], &[2, 3], &[2, 1, 2]] {
                let mut s = lead.to_vec();
                s.push(i);
                v.push(spec(
                    format!("Linear({i},{o},{b}) {s:?}"),
                    vec![(gen(&s, 2), F)],
                    move |d| one(Linear::new(i, o, b, d)?),
                    move |x, p| {
                        assert_eq!(p.len(), 1 + b as usize);
                        vec![linear(&x[0], &p[0], p.get(1))]
                    },
                ));
            }
        }
    }
}

fn convs(v: &mut Vec<Spec>, th: bool) {
    for r in 1..=3usize {
        for (ci, co, nb) in [(1, 1, 1), (2, 3, 2)] {
            for k in 1..=3usize {
                for st in [1, 2, 3] {
                    for pad in [0, 1] {
                        for dil in [1, 2] {
                            for b in [false, true] {
                                if r == 3 && !th && (k == 3 && dil == 2 || st == 3 || ci > 1 && b == (pad == 0)) {
                                    continue;
                                }
                                let mut s = vec![nb, ci];
                                s.extend(&[5, 4, 5][..r]);
                                if r == 3 {
                                    s[2..].iter_mut().for_each(|x| *x -= 1);
                                }
                                if s[2..].iter().all(|&l| l + 2 * pad >= dil * (k - 1) + 1) {
                                    v.push(spec(
                                        format!("Conv{r}D({ci},{co},k={k},s={st},p={pad},d={dil},{b}) {s:?}"),
                                        vec![(gen(&s, 3), F)],
                                        move |d| match r {
                                            1 => one(Conv1D::new(ci, co, k, st, pad, dil, b, d)?),
                                            2 => one(Conv2D::new(ci, co, k, st, pad, dil, b, d)?),
                                            _ => one(Conv3D::new(ci, co, k, st, pad, dil, b, d)?),
                                        },
                                        move |x, p| {
                                            assert_eq!(p.len(), 1 + b as usize);
                                            vec![conv(&x[0], &p[0], p.get(1), st, pad, dil)]
                                        },
                                    ));
                                }
                                for op in [0, 1] {
                                    if op >= st.max(dil) || r == 3 && !th && op > 0 && k != 2 {
                                        continue;
                                    }
                                    let mut s = vec![nb, ci];
                                    s.extend(&[3, 2, 3][..r]);
                                    if r == 3 {
                                        s[2] = 2;
                                        s[4] = 2;
                                    }
                                    if s[2..].iter().any(|&l| (l - 1) * st + dil * (k - 1) + op + 1 <= 2 * pad) {
                                        continue;
                                    }
                                    v.push(spec(
                                        format!("ConvTranspose{r}D({ci},{co},k={k},s={st},p={pad},op={op},d={dil},{b}) {s:?}"),
                                        vec![(gen(&s, 3), F)],
                                        move |d| match r {
                                            1 => one(ConvTranspose1D::new(ci, co, k, st, pad, op, dil, b, d)?),
                                            2 => one(ConvTranspose2D::new(ci, co, k, st, pad, op, dil, b, d)?),
                                            _ => one(ConvTranspose3D::new(ci, co, k, st, pad, op, dil, b, d)?),
                                        },
                                        move |x, p| {
                                            assert_eq!(p.len(), 1 + b as usize);
                                            vec![convt(&x[0], &p[0], p.get(1), st, pad, op, dil)]
                                        },
                                    ));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

fn pools(v: &mut Vec<Spec>, th: bool) {
    for r in 1..=3usize {
        for (nb, ch) in [(1, 1), (2, 3)] {
            let mut s = vec![nb, ch];
            s.extend(&[5, 4, 3][..r]);
            let x = || vec![(gen(&s, 4), F)];
            for k in 1..=3usize {
                for st in 1..=3usize {
                    for pad in [0, 1] {
                        if pad > k / 2 {
                            continue;
                        }
                        for max in [false, true] {
                            let name = if max { "MaxPool" } else { "AvgPool" };
                            v.push(spec(
                                format!("{name}{r}D(k={k},s={st},p={pad}) {s:?}"),
                                x(),
                                move |_| match (max, r) {
                                    (false, 1) => one(AvgPool1D::new(k, st, pad)),
                                    (false, 2) => one(AvgPool2D::new(k, st, pad)),
                                    (false, _) => one(AvgPool3D::new(k, st, pad)),
                                    (true, 1) => one(MaxPool1D::new(k, st, pad)),
                                    (true, 2) => one(MaxPool2D::new(k, st, pad)),
                                    (true, _) => one(MaxPool3D::new(k, st, pad)),
                                },
                                move |x, _| {
                                    let out: Vec<usize> = x[0].s[2..].iter().map(|l| (l + 2 * pad - k) / st + 1).collect();
                                    vec![pool(&x[0], &out, max, &|_, o| {
                                        let a = (o * st) as i64 - pad as i64;
                                        (a, a + k as i64)
                                    })]
                                },
                            ));
                        }
                    }
                }
            }
            for max in [false, true] {
                let name = if max { "GlobalMaxPool" } else { "GlobalAvgPool" };
                v.push(spec(
                    format!("{name}{r}D {s:?}"),
                    x(),
                    move |_| match (max, r) {
                        (false, 1) => one(GlobalAvgPool1D::new()),
                        (false, 2) => one(GlobalAvgPool2D::new()),
                        (false, _) => one(GlobalAvgPool3D::new()),
                        (true, 1) => one(GlobalMaxPool1D::new()),
                        (true, 2) => one(GlobalMaxPool2D::new()),
                        (true, _) => one(GlobalMaxPool3D::new()),
                    },
                    move |x, _| {
                        let l = x[0].s.clone();
                        vec![pool(&x[0], &vec![1; l.len() - 2], max, &|j, _| (0, l[2 + j] as i64))]
                    },
                ));
                let outs = mc::vals::shapes(r, &[1, 2, 3, 4]);
                for o in outs {
                    if r == 3 && !th && nb > 1 && o != [2, 3, 2] {
                        continue;
                    }
                    if o.len() != r || o.iter().zip(&s[2..]).any(|(a, b)| a > b) {
                        continue;
                    }
                    let name = if max { "AdaptiveMaxPool" } else { "AdaptiveAvgPool" };
                    let (o2, o3) = (o.clone(), o.clone());
                    v.push(spec(
                        format!("{name}{r}D({o:?}) {s:?}"),
                        x(),
                        move |_| match (max, r) {
                            (false, 1) => one(AdaptiveAvgPool1D::new(o2[0])),
                            (false, 2) => one(AdaptiveAvgPool2D::new((o2[0], o2[1]))),
                            (false, _) => one(AdaptiveAvgPool3D::new((o2[0], o2[1], o2[2]))),
                            (true, 1) => one(AdaptiveMaxPool1D::new(o2[0])),
                            (true, 2) => one(AdaptiveMaxPool2D::new((o2[0], o2[1]))),
                            (true, _) => one(AdaptiveMaxPool3D::new((o2[0], o2[1], o2[2]))),
                        },
                        move |x, _| {
                            let l = x[0].s[2..].to_vec();
                            vec![pool(&x[0], &o3, max, &|j, i| {
                                let st = l[j] / o3[j];
                                let a = (i * st) as i64;
                                (a, a + (l[j] - (o3[j] - 1) * st) as i64)
                            })]
                        },
                    ));
                    if max && r > 1 {
                        for ratio in [false, true] {
                            let (o2, o3, s2) = (o.clone(), o.clone(), s.clone());
                            v.push(spec(
                                format!("FractionalMaxPool{r}D({o:?},ratio={ratio}) {s:?}"),
                                x(),
                                move |_| {
                                    // a ratio that leads to this size
                                    let q = |j: usize| (o2[j] as f64 + 0.25) / s2[2 + j] as f64;
                                    match (r, ratio) {
                                        (2, false) => one(FractionalMaxPool2D::with_output_size((o2[0], o2[1]))),
                                        (2, true) => one(FractionalMaxPool2D::with_output_ratio((q(0), q(1)))),
                                        (_, false) => one(FractionalMaxPool3D::with_output_size((o2[0], o2[1], o2[2]))),
                                        (_, true) => one(FractionalMaxPool3D::with_output_ratio((q(0), q(1), q(2)))),
                                    }
                                },
                                move |x, _| {
                                    let l = x[0].s[2..].to_vec();
                                    // regions that cover the input without overlap, with borders rounded half up
                                    let b = |j: usize, i: usize| ((2 * i * l[j] + o3[j]) / (2 * o3[j])) as i64;
                                    vec![pool(&x[0], &o3, true, &|j, i| (b(j, i), b(j, i + 1)))]
                                },
                            ));
                        }
                    }
                }
            }
        }
    }
}

fn norms(v: &mut Vec<Spec>) {
    let aff = |p: &[R], c: usize| -> (f64, f64) { if p.is_empty() { (1.0, 0.0) } else { (p[0].d[c], p[1].d[c]) } };
    let ini = |a: bool| if a { vec![1.0, 0.0] } else { vec![] };
    for eps in [1e-5, 0.5] {
        for affine in [false, true] {
            for (s, r) in [(vec![3, 2], 1), (vec![4, 1], 1), (vec![2, 3, 4], 1), (vec![2, 2, 3, 2], 2), (vec![1, 3, 2, 2], 2), (vec![2, 2, 2, 1, 3], 3)] {
                let c = s[1];
                v.push(spec(
                    format!("BatchNorm{r}D({c},{eps},affine={affine}) {s:?}"),
                    vec![(gen(&s, 5), F)],
                    move |d| match r {
                        1 => one(BatchNorm1D::new(c, eps, 0.9, affine, d)?),
                        2 => one(BatchNorm2D::new(c, eps, 0.9, affine, d)?),
                        _ => one(BatchNorm3D::new(c, eps, 0.9, affine, d)?),
                    },
                    move |x, p| {
                        assert_eq!(p.len(), 2 * affine as usize);
                        vec![norm(&x[0], &|i| vec![i[1]], eps, &|i| aff(p, i[1]))]
                    },
                ));
                v.last_mut().unwrap().init = Some(ini(affine));
                if s.len() > 2 {
                    v.push(spec(
                        format!("InstanceNorm{r}D({c},{eps},affine={affine}) {s:?}"),
                        vec![(gen(&s, 5), F)],
                        move |d| match r {
                            1 => one(InstanceNorm1D::new(c, eps, affine, d)?),
                            2 => one(InstanceNorm2D::new(c, eps, affine, d)?),
                            _ => one(InstanceNorm3D::new(c, eps, affine, d)?),
                        },
                        move |x, p| {
                            assert_eq!(p.len(), 2 * affine as usize);
                            vec![norm(&x[0], &|i| vec![i[0], i[1]], eps, &|i| aff(p, i[1]))]
                        },
                    ));
                    v.last_mut().unwrap().init = Some(ini(affine));
                }
            }
            for s in [vec![2, 4], vec![3, 6], vec![2, 4, 3], vec![1, 6, 2, 2], vec![2, 2, 1, 2, 2]] {
                let c = s[1];
                for g in 1..=c {
                    // one element per group has no spread
                    if c % g != 0 || numel(&s[2..]) * c / g < 2 {
                        continue;
                    }
                    v.push(spec(
                        format!("GroupNorm({g},{c},{eps},affine={affine}) {s:?}"),
                        vec![(gen(&s, 6), F)],
                        move |d| one(GroupNorm::new(g, c, eps, affine, d)?),
                        move |x, p| {
                            assert_eq!(p.len(), 2 * affine as usize);
                            vec![norm(&x[0], &|i| vec![i[0], i[1] / (c / g)], eps, &|i| aff(p, i[1]))]
                        },
                    ));
                    v.last_mut().unwrap().init = Some(ini(affine));
                }
            }
            for s in [vec![4], vec![3, 4], vec![2, 3, 2], vec![2, 1, 3, 2]] {
                for k in 1..=s.len() {
                    let ns = s[s.len() - k..].to_vec();
                    if numel(&ns) < 2 {
                        continue;
                    }
                    let (l, ns2) = (s.len() - k, ns.clone());
                    v.push(spec(
                        format!("LayerNorm({ns:?},{eps},affine={affine}) {s:?}"),
                        vec![(gen(&s, 7), F)],
                        move |d| one(LayerNorm::new(ns2.clone(), eps, affine, d)?),
                        move |x, p| {
                            assert_eq!(p.len(), 2 * affine as usize);
                            vec![norm(&x[0], &|i| i[..l].to_vec(), eps, &|i| if p.is_empty() { (1.0, 0.0) } else { (p[0].at(&i[l..]), p[1].at(&i[l..])) })]
                        },
                    ));
                    v.last_mut().unwrap().init = Some(ini(affine));
                    if affine {
                        let ns2 = ns.clone();
                        v.push(spec(
                            format!("RMSNorm({ns:?},{eps}) {s:?}"),
                            vec![(gen(&s, 8), F)],
                            move |d| one(RMSNorm::new(ns2.clone(), eps, d)?),
                            move |x, p| {
                                assert_eq!(p.len(), 1);
                                let sq = x[0].map(|v| v * v);
                                let m = moments(&sq, &|i| i[..l].to_vec());
                                vec![R::from(&x[0].s, |i| x[0].at(i) / (m[&i[..l].to_vec()].0 + eps).sqrt() * p[0].at(&i[l..]))]
                            },
                        ));
                        v.last_mut().unwrap().init = Some(vec![1.0]);
                    }
                }
            }
        }
    }
}

fn recurrents(v: &mut Vec<Spec>) {
    for kind in [Rec::Tanh, Rec::Relu, Rec::Lstm, Rec::Gru] {
        let nl = if kind == Rec::Relu { Nonlinearity::ReLU } else { Nonlinearity::Tanh };
        for bias in [false, true] {
            for (i, h, b) in [(1, 1, 1), (3, 2, 2), (2, 3, 1)] {
                let per = if bias { 4 } else { 2 };
                // a cell
                let ins = vec![(small(&[b, i], 1), F), (small(&[b, h], 2), F), (small(&[b, h], 3), if kind == Rec::Lstm { F } else { C })];
                v.push(spec(
                    format!("{kind:?}Cell({i},{h},{bias}) batch {b}"),
                    ins,
                    move |d| {
                        Ok(match kind {
                            Rec::Lstm => {
                                let m = LSTMCell::new(i, h, bias, d)?;
                                let params = owned(<LSTMCell as Module<&Tensor>>::parameters(&m));
                                Mo { params, run: Box::new(move |x| m.forward_step(&x[0], &x[1], &x[2]).map(|(a, b)| vec![a, b])) }
                            },
                            Rec::Gru => {
                                let m = GRUCell::new(i, h, bias, d)?;
                                let params = owned(<GRUCell as Module<&Tensor>>::parameters(&m));
                                Mo { params, run: Box::new(move |x| Ok(vec![m.forward_step(&x[0], &x[1])?])) }
                            },
                            _ => {
                                let m = RNNCell::new(i, h, bias, nl, d)?;
                                let params = owned(<RNNCell as Module<&Tensor>>::parameters(&m));
                                Mo { params, run: Box::new(move |x| Ok(vec![m.forward_step(&x[0], &x[1])?])) }
                            },
                        })
                    },
                    move |x, p| {
                        assert_eq!(p.len(), per);
                        let (a, c) = cell(kind, &x[0], &x[1], &x[2], p);
                        if kind == Rec::Lstm { vec![a, c] } else { vec![a] }
                    },
                ));
                for layers in [1, 2] {
                    for bf in [false, true] {
                        for t in [1, 3] {
                            // 0: no state given; 1: both; 2: h only (LSTM)
                            for given in [0, 1, 2] {
                                if given == 2 && kind != Rec::Lstm {
                                    continue;
                                }
                                let s = if bf { [b, t, i] } else { [t, b, i] };
                                let mut ins = vec![(small(&s, 1), F)];
                                if given > 0 {
                                    ins.push((small(&[layers, b, h], 4), F));
                                }
                                if given == 1 && kind == Rec::Lstm {
                                    ins.push((small(&[layers, b, h], 5), F));
                                }
                                v.push(spec(
                                    format!("{kind:?}({i},{h},layers={layers},{bias},batch_first={bf}) batch {b} steps {t} state {given}"),
                                    ins,
                                    move |d| {
                                        Ok(match kind {
                                            Rec::Lstm => {
                                                let m = LSTM::new(i, h, layers, bias, bf, d)?;
                                                let params = owned(<LSTM as Module<&Tensor>>::parameters(&m));
                                                Mo {
                                                    params,
                                                    run: Box::new(move |x| {
                                                        let (o, h, c) = m.forward_with_state(&x[0], x.get(1), x.get(2))?;
                                                        Ok(vec![o, h, c])
                                                    }),
                                                }
                                            },
                                            Rec::Gru => {
                                                let m = GRU::new(i, h, layers, bias, bf, d)?;
                                                let params = owned(<GRU as Module<&Tensor>>::parameters(&m));
                                                Mo {
                                                    params,
                                                    run: Box::new(move |x| {
                                                        let (o, h) = m.forward_with_state(&x[0], x.get(1))?;
                                                        Ok(vec![o, h])
                                                    }),
                                                }
                                            },
                                            _ => {
                                                let m = RNN::new(i, h, layers, bias, bf, nl, d)?;
                                                let params = owned(<RNN as Module<&Tensor>>::parameters(&m));
                                                Mo {
                                                    params,
                                                    run: Box::new(move |x| {
                                                        let (o, h) = m.forward_with_state(&x[0], x.get(1))?;
                                                        Ok(vec![o, h])
                                                    }),
                                                }
                                            },
                                        })
                                    },
                                    move |x, p| {
                                        assert_eq!(p.len(), per * layers);
                                        let (o, h, c) = recurrent(kind, &x[0], x.get(1), x.get(2), layers, h, bf, p);
                                        if kind == Rec::Lstm { vec![o, h, c] } else { vec![o, h] }
                                    },
                                ));
                                if given == 0 {
                                    // the plain call gives the outputs only
                                    let sp = v.last().unwrap();
                                    let ins = sp.ins.clone();
                                    v.push(spec(
                                        format!("{kind:?}({i},{h},layers={layers},{bias},batch_first={bf}) batch {b} steps {t} plain"),
                                        ins,
                                        move |d| match kind {
                                            Rec::Lstm => one(LSTM::new(i, h, layers, bias, bf, d)?),
                                            Rec::Gru => one(GRU::new(i, h, layers, bias, bf, d)?),
                                            _ => one(RNN::new(i, h, layers, bias, bf, nl, d)?),
                                        },
                                        move |x, p| vec![recurrent(kind, &x[0], None, None, layers, h, bf, p).0],
                                    ));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

/// masks with at least one position left in every row, for a causal or an unrestricted use
fn mask_of(s: &[usize], salt: usize) -> R {
    let mut k = salt;
    R::from(s, |ix| {
        k += 1;
        // the first column stays
        if ix[s.len() - 1] == 0 || k % 3 != 0 { 1.0 } else { 0.0 }
    })
}
fn attentions(v: &mut Vec<Spec>) {
    for (lead, lq, lk, dk, dv) in [(vec![], 2, 3, 2, 3), (vec![2], 3, 3, 4, 2), (vec![2, 2], 2, 4, 1, 2), (vec![1, 2], 3, 1, 3, 1), (vec![], 1, 1, 1, 1)] {
        let sh = |a: usize, b: usize| {
            let mut s: Vec<usize> = lead.clone();
            s.extend([a, b]);
            s
        };
        for causal in [false, true] {
            for m in ["none", "bool", "float", "shared"] {
                for drop in [0.0, 0.5] {
                    let mut ins = vec![(gen(&sh(lq, dk), 1), F), (gen(&sh(lk, dk), 2), F), (gen(&sh(lk, dv), 3), F)];
                    match m {
                        "bool" => ins.push((mask_of(&sh(lq, lk), 1), B)),
                        "float" => ins.push((mask_of(&sh(lq, lk), 2), C)),
                        "shared" => ins.push((mask_of(&[lq, lk], 1), B)),
                        _ => {},
                    }
                    let shared = m == "shared";
                    v.push(spec(
                        format!("attention {lead:?} q={lq} k={lk} d={dk},{dv} causal={causal} mask={m} dropout={drop}"),
                        ins,
                        move |_| {
                            Ok(Mo {
                                params: vec![],
                                run: Box::new(move |x| Ok(vec![scaled_dot_product_attention(&x[0], &x[1], &x[2], x.get(3), drop, causal)?])),
                            })
                        },
                        move |x, _| {
                            let r = x[0].s.len();
                            vec![sdpa(&x[0], &x[1], &x[2], &|i| {
                                causal && i[r - 1] > i[r - 2] || x.get(3).is_some_and(|m| m.at(if shared { &i[r - 2..] } else { i }) == 0.0)
                            })]
                        },
                    ));
                    // no dropout outside training
                    v.last_mut().unwrap().eval = drop > 0.0;
                }
            }
        }
    }
    for (e, h) in [(2, 1), (4, 2), (4, 4), (3, 1)] {
        for bias in [false, true] {
            for (kd, vd) in [(None, None), (Some(3), Some(5)), (Some(2), None)] {
                for (b, lq, lk) in [(1, 2, 3), (2, 3, 2), (1, 1, 1)] {
                    for causal in [false, true] {
                        for m in [false, true] {
                            let (dk, dv) = (kd.unwrap_or(e), vd.unwrap_or(e));
                            let drop = if m { 0.5 } else { 0.0 };
                            let mut ins = vec![(gen(&[b, lq, e], 1), F), (gen(&[b, lk, dk], 2), F), (gen(&[b, lk, dv], 3), F)];
                            if m {
                                ins.push((mask_of(&[b, h, lq, lk], 1), B));
                            }
                            v.push(spec(
                                format!("MultiheadAttention({e},{h},{drop},{bias},{kd:?},{vd:?}) batch {b} q={lq} k={lk} causal={causal} mask={m}"),
                                ins,
                                move |d| {
                                    let a = MultiheadAttention::new(e, h, drop, bias, kd, vd, d)?;
                                    let params = owned(<MultiheadAttention as Module<&Tensor>>::parameters(&a));
                                    Ok(Mo { params, run: Box::new(move |x| Ok(vec![a.forward_qkv(&x[0], &x[1], &x[2], x.get(3), causal)?])) })
                                },
                                move |x, p| {
                                    assert_eq!(p.len(), if bias { 8 } else { 4 });
                                    vec![mha(&x[0], &x[1], &x[2], p, h, &|i| {
                                        causal && i[3] > i[2] || x.get(3).is_some_and(|m| m.at(i) == 0.0)
                                    })]
                                },
                            ));
                            v.last_mut().unwrap().eval = m;
                        }
                    }
                }
            }
            // self-attention: the plain call
            v.push(spec(
                format!("MultiheadAttention({e},{h},{bias}) self"),
                vec![(gen(&[2, 3, e], 1), F)],
                move |d| one(MultiheadAttention::new(e, h, 0.0, bias, None, None, d)?),
                move |x, p| vec![mha(&x[0], &x[0], &x[0], p, h, &|_| false)],
            ));
        }
    }
}
fn mha(q: &R, k: &R, v: &R, p: &[R], h: usize, mask: &dyn Fn(&[usize]) -> bool) -> R {
    let b = |i: usize| p.get(4 + i);
    let (q, k, v) = (linear(q, &p[0], b(0)), linear(k, &p[1], b(1)), linear(v, &p[2], b(2)));
    let hd = q.s[2] / h;
    let split = |x: &R| R::from(&[x.s[0], h, x.s[1], hd], |i| x.at(&[i[0], i[2], i[1] * hd + i[3]]));
    let o = sdpa(&split(&q), &split(&k), &split(&v), mask);
    let o = R::from(&q.s, |i| o.at(&[i[0], i[2] / hd, i[1], i[2] % hd]));
    linear(&o, &p[3], b(3))
}

fn embeddings(v: &mut Vec<Spec>) {
    for (rows, dim) in [(3, 2), (5, 3), (1, 1)] {
        for (s, salt) in [(vec![1], 0), (vec![4], 1), (vec![2, 3], 2), (vec![1, 2, 2], 3), (vec![], 1)] {
            let mut k = salt;
            let ix = R::from(&s, |_| {
                k += 2;
                (k * k % rows) as f64
            });
            for pad in [None, Some(0), Some(rows - 1)] {
                for norm in [None, Some(0.5), Some(100.0)] {
                    for wide in [false, true] {
                        if wide && norm.is_none() {
                            continue;
                        }
                        v.push(spec(
                            format!("Embedding({rows},{dim},pad={pad:?},max_norm={norm:?},{wide}) {s:?} {:?}", ix.d),
                            vec![(ix.clone(), I)],
                            move |d| {
                                let n: Option<Scalar> = norm.map(|x: f64| if wide { Scalar::from(x) } else { Scalar::from(x as f32) });
                                one(Embedding::new(rows, dim, pad, n, 2.0f32, d)?)
                            },
                            move |x, p| {
                                assert_eq!(p.len(), 1);
                                assert_eq!(p[0].s, [rows, dim]);
                                vec![embed(&x[0], &p[0], pad, norm)]
                            },
                        ));
                    }
                }
            }
        }
    }
}
fn embed(x: &R, w: &R, pad: Option<usize>, max: Option<f64>) -> R {
    let dim = w.s[1];
    let mut s = x.s.clone();
    s.push(dim);
    R::from(&s, |i| {
        let row = x.at(&i[..i.len() - 1]) as usize;
        if pad == Some(row) {
            return 0.0;
        }
        let n = (0..dim).map(|j| w.at(&[row, j]).powi(2)).sum::<f64>().sqrt();
        w.at(&[row, i[i.len() - 1]]) * max.map_or(1.0, |m| (m / n).min(1.0))
    })
}

fn losses(v: &mut Vec<Spec>) {
    let mean2 = |x: &[R], f: &dyn Fn(f64, f64) -> f64| -> Vec<R> {
        assert_eq!(x[0].s, x[1].s);
        vec![R::scalar(x[0].d.iter().zip(&x[1].d).map(|(a, b)| f(*a, *b)).sum::<f64>() / x[0].d.len() as f64)]
    };
    for s in [vec![1], vec![5], vec![3, 2], vec![2, 3, 2], vec![1, 4], vec![]] {
        let pair = || vec![(gen(&s, 1), F), (gen(&s, 4), F)];
        v.push(spec(format!("MSELoss {s:?}"), pair(), |_| two(MSELoss::new()), move |x, _| mean2(x, &|a, b| (a - b) * (a - b))));
        v.push(spec(format!("MAELoss {s:?}"), pair(), |_| two(MAELoss::new()), move |x, _| mean2(x, &|a, b| (a - b).abs())));
        for delta in [1.0f64, 0.5, 4.0] {
            for wide in [false, true] {
                let sc = move || if wide { Scalar::from(delta) } else { Scalar::from(delta as f32) };
                v.push(spec(
                    format!("HuberLoss({delta},{wide}) {s:?}"),
                    pair(),
                    move |_| two(HuberLoss::new(sc())),
                    move |x, _| {
                        mean2(x, &|a, b| {
                            let e = (a - b).abs();
                            if e <= delta { e * e / 2.0 } else { delta * e - delta * delta / 2.0 }
                        })
                    },
                ));
                v.push(spec(
                    format!("SmoothL1Loss({delta},{wide}) {s:?}"),
                    pair(),
                    move |_| two(SmoothL1Loss::with_beta(sc())),
                    move |x, _| {
                        mean2(x, &|a, b| {
                            let e = (a - b).abs();
                            if e < delta { e * e / 2.0 / delta } else { e - delta / 2.0 }
                        })
                    },
                ));
            }
        }
        v.push(spec(format!("SmoothL1Loss {s:?}"), pair(), |_| two(SmoothL1Loss::new()), move |x, _| {
            mean2(x, &|a, b| {
                let e = (a - b).abs();
                if e < 1.0 { e * e / 2.0 } else { e - 0.5 }
            })
        }));
        let bce = |p: f64, t: f64| -(t * p.ln() + (1.0 - t) * (1.0 - p).ln());
        for (name, hard) in [("soft", false), ("hard", true)] {
            let t = if hard { gen(&s, 2).map(|x| (x > 0.0) as u8 as f64) } else { prob(&s, 2) };
            v.push(spec(format!("BCELoss {name} {s:?}"), vec![(prob(&s, 1), F), (t.clone(), F)], |_| two(BCELoss::new()), move |x, _| mean2(x, &bce)));
            v.push(spec(format!("BCEWithLogitsLoss {name} {s:?}"), vec![(gen(&s, 1), F), (t.clone(), F)], |_| two(BCEWithLogitsLoss::new()), move |x, _| {
                mean2(x, &|a, t| a.max(0.0) - a * t + (-a.abs()).exp().ln_1p())
            }));
            for wide in [false, true] {
                // predictions beyond the bound are moved to it
                v.push(spec(
                    format!("BCELoss(0.25,{wide}) {name} {s:?}"),
                    vec![(prob(&s, 1), F), (t.clone(), F)],
                    move |_| two(BCELoss::with_epsilon(if wide { Scalar::from(0.25f64) } else { Scalar::from(0.25f32) })),
                    move |x, _| mean2(x, &|p, t| bce(p.clamp(0.25, 0.75), t)),
                ));
            }
        }
        if s.is_empty() {
            continue;
        }
        let batch = s[0] as f64;
        for zeros in [false, true] {
            let t = if zeros { prob(&s, 2).map(|x| if x < 0.5 { 0.0 } else { x }) } else { prob(&s, 2) };
            // a target of zero adds nothing
            v.push(spec(
                format!("KLDivLoss zeros={zeros} {s:?}"),
                vec![(gen(&s, 1), F), (t, if zeros { C } else { F })],
                |_| two(KLDivLoss::new()),
                move |x, _| vec![R::scalar(x[0].d.iter().zip(&x[1].d).map(|(i, t)| if *t == 0.0 { 0.0 } else { t * (t.ln() - i) }).sum::<f64>() / batch)],
            ));
        }
        v.push(spec(
            format!("KLDivLoss log {s:?}"),
            vec![(gen(&s, 1), F), (gen(&s, 2), F)],
            |_| two(KLDivLoss::with_log_target(true)),
            move |x, _| vec![R::scalar(x[0].d.iter().zip(&x[1].d).map(|(i, t)| t.exp() * (t - i)).sum::<f64>() / batch)],
        ));
        for margin in [None, Some(0.5f64), Some(-0.25)] {
            for wide in [false, true] {
                let ys = s[..s.len() - 1].to_vec();
                let mut k = 0;
                let y = R::from(&ys, |_| {
                    k += 1;
                    if k % 2 == 0 { 1.0 } else { -1.0 }
                });
                for flip in [1.0, -1.0] {
                    let y = y.map(|v| v * flip);
                    v.push(spec(
                        format!("CosineEmbeddingLoss({margin:?},{wide}) {s:?} {flip}"),
                        vec![(gen(&s, 1), F), (gen(&s, 3), F), (y, C)],
                        move |_| {
                            three(match margin {
                                None => CosineEmbeddingLoss::new(),
                                Some(m) => CosineEmbeddingLoss::with_margin(if wide { Scalar::from(m) } else { Scalar::from(m as f32) }),
                            })
                        },
                        move |x, _| {
                            let l = x[0].s[x[0].s.len() - 1];
                            let f: Vec<f64> = x[2]
                                .d
                                .iter()
                                .enumerate()
                                .map(|(i, y)| {
                                    let (a, b) = (&x[0].d[i * l..(i + 1) * l], &x[1].d[i * l..(i + 1) * l]);
                                    let dot: f64 = a.iter().zip(b).map(|(p, q)| p * q).sum();
                                    let nrm = |v: &[f64]| v.iter().map(|p| p * p).sum::<f64>().sqrt();
                                    let c = dot / (nrm(a) * nrm(b) + 1e-8);
                                    if *y == 1.0 { 1.0 - c } else { (c - margin.unwrap_or(0.0)).max(0.0) }
                                })
                                .collect();
                            vec![R::scalar(f.iter().sum::<f64>() / f.len() as f64)]
                        },
                    ));
                }
            }
        }
        for dim in 0..s.len() {
            for neg in [false, true] {
                let mut ts = s.clone();
                let c = ts.remove(dim);
                for salt in 0..2 {
                    let mut k = salt;
                    let t = R::from(&ts, |_| {
                        k += 1;
                        (k * k % c) as f64
                    });
                    let da = if neg { dim as i32 - s.len() as i32 } else { dim as i32 };
                    for soft in [false, true] {
                        v.push(spec(
                            format!("{}({da}) {s:?} {:?}", if soft { "CrossEntropyLoss" } else { "NLLLoss" }, t.d),
                            vec![(gen(&s, 1), F), (t.clone(), I)],
                            move |_| if soft { two(CrossEntropyLoss::with_dim(da)) } else { two(NLLLoss::with_dim(da)) },
                            move |x, _| vec![R::scalar(nll(&x[0], &x[1], dim, soft))],
                        ));
                        if da == -1 {
                            v.push(spec(
                                format!("{} {s:?} {:?}", if soft { "CrossEntropyLoss" } else { "NLLLoss" }, t.d),
                                vec![(gen(&s, 1), F), (t.clone(), I)],
                                move |_| if soft { two(CrossEntropyLoss::new()) } else { two(NLLLoss::new()) },
                                move |x, _| vec![R::scalar(nll(&x[0], &x[1], dim, soft))],
                            ));
                        }
                    }
                }
            }
        }
    }
}

/// layers with a random part: what comes out is the input, dropped or scaled, and the gradient follows
fn random(c: &mut Check) {
    for d in [DType::F32, DType::F64, DType::F16, DType::BF16] {
        for p in [0.0, 0.25, 0.5, 0.75, 1.0] {
            for (wide, lay) in tuples(1, &[false, true]).iter().filter(|x| x.len() == 1).map(|x| x[0]).flat_map(|w| ["c", "perm", "step"].map(|l| (w, l))) {
                c.case("dropout", &format!("Dropout({p},{wide}) train {} {lay}", dn(d)), || random_case(d, if wide || d != DType::F64 { d } else { DType::F32 }, lay, &|| one(Dropout::new(if wide { Scalar::from(p) } else { Scalar::from(p as f32) })), p, 1.0 / (1.0 - p)));
                if p == 0.0 || p == 1.0 {
                    continue;
                }
                c.case("rrelu", &format!("RReLU({p},{wide}) train {} {lay}", dn(d)), || {
                    rrelu_case(d, lay, p, p + 0.5, &|| one(RReLU::new(if wide { Scalar::from(p) } else { Scalar::from(p as f32) }, if wide { Scalar::from(p + 0.5) } else { Scalar::from((p + 0.5) as f32) })))
                });
            }
        }
    }
}
fn run_random(d: DType, lay: &str, mk: &dyn Fn() -> HoduResult<Mo>) -> Result<(R, R, R), String> {
    let _ctx = GradientContext::new();
    hodu_nn::train!();
    let e = |e: hodu_core::error::HoduError| e.to_string();
    let x = gen(&[64, 32], 1);
    let t = laid(&nd(&x, F), d, lay).map_err(e)?.unwrap();
    t.set_requires_grad(true).map_err(e)?;
    let m = mk().map_err(e)?;
    let y = (m.run)(&[t.clone()]).map_err(e)?.remove(0);
    y.sum_all().map_err(e)?.backward().map_err(e)?;
    Ok((x, rd(&y)?, rd(&t.grad().map_err(e)?)?))
}
fn random_case(d: DType, acc: DType, lay: &str, mk: &dyn Fn() -> HoduResult<Mo>, p: f64, scale: f64) -> Out {
    let (x, y, g) = match run_random(d, lay, mk) {
        Ok(v) => v,
        Err(e) => return Out::Bad("err", e),
    };
    let mut kept = 0;
    for i in 0..x.d.len() {
        let on = y.d[i] != 0.0;
        kept += on as usize;
        let s = if on { scale } else { 0.0 };
        if !close(y.d[i], x.d[i] * s, 0.0, acc, false) || !close(g.d[i], s, 0.0, acc, false) {
            return Out::Bad("wrong", format!("element {i} is {} with gradient {} for an input of {}", y.d[i], g.d[i], x.d[i]));
        }
    }
    let f = kept as f64 / x.d.len() as f64;
    if (f - (1.0 - p)).abs() > 0.125 {
        return Out::Bad("wrong", format!("{f} of the elements are kept"));
    }
    Out::Ok("mask".into())
}
fn rrelu_case(d: DType, lay: &str, lo: f64, hi: f64, mk: &dyn Fn() -> HoduResult<Mo>) -> Out {
    let (x, y, g) = match run_random(d, lay, mk) {
        Ok(v) => v,
        Err(e) => return Out::Bad("err", e),
    };
    let mut seen = std::collections::BTreeSet::new();
    for i in 0..x.d.len() {
        let s = y.d[i] / x.d[i];
        let e = 4.0 * eps(d);
        let ok = if x.d[i] > 0.0 { s == 1.0 } else { s >= lo * (1.0 - e) && s <= hi * (1.0 + e) };
        if !ok || (g.d[i] - s).abs() > e * s.abs() {
            return Out::Bad("wrong", format!("element {i} is {} with gradient {} for an input of {}", y.d[i], g.d[i], x.d[i]));
        }
        if x.d[i] < 0.0 {
            seen.insert((s * 1e6) as i64);
        }
    }
    if seen.len() < 8 {
        return Out::Bad("wrong", format!("only {} different slopes", seen.len()));
    }
    Out::Ok("slopes".into())
}

/// histories of batch normalisation
#[derive(Clone, Copy, Debug, PartialEq)]
enum H {
    /// a training batch
    T(usize),
    /// an evaluation of a batch
    E(usize),
    /// a loss on an evaluation, and its gradients
    Eb(usize),
    /// a loss on a training batch, its gradients and a step
    S(usize),
    /// go on with a copy of the layer
    Copy,
}
fn bn_batch(r: usize, k: usize) -> R {
    let s: &[usize] = match r {
        0 => &[3, 2],
        1 => &[2, 2, 3],
        2 => &[2, 2, 2, 1],
        _ => &[1, 2, 2, 2, 1],
    };
    gen(s, 3 + 4 * k).map(|x| if k == 0 { x } else { 2.0 * x + 1.0 })
}
enum Bn {
    B1(BatchNorm1D),
    B2(BatchNorm2D),
    B3(BatchNorm3D),
}
impl Bn {
    fn run(&self, x: &Tensor) -> HoduResult<Tensor> {
        match self {
            Bn::B1(m) => Module::forward(m, x),
            Bn::B2(m) => Module::forward(m, x),
            Bn::B3(m) => Module::forward(m, x),
        }
    }
    fn params(&self) -> Vec<Tensor> {
        owned(match self {
            Bn::B1(m) => <BatchNorm1D as Module<&Tensor>>::parameters(m),
            Bn::B2(m) => <BatchNorm2D as Module<&Tensor>>::parameters(m),
            Bn::B3(m) => <BatchNorm3D as Module<&Tensor>>::parameters(m),
        })
    }
    fn copy(&self) -> Bn {
        match self {
            Bn::B1(m) => Bn::B1(m.clone()),
            Bn::B2(m) => Bn::B2(m.clone()),
            Bn::B3(m) => Bn::B3(m.clone()),
        }
    }
}
fn bn_history(r: usize, d: DType, mom: f64, wide: bool, affine: bool, acts: &[H]) -> Out {
    let _ctx = GradientContext::new();
    let eps = 0.125;
    let sc = |x: f64| if wide { Scalar::from(x) } else { Scalar::from(x as f32) };
    macro_rules! tri {
        ($e:expr, $w:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => return Out::Bad("err", format!("{}: {e}", $w)),
            }
        };
    }
    macro_rules! ok {
        ($e:expr) => {
            if let Err(e) = $e {
                return Out::Bad("wrong", e);
            }
        };
    }
    let mut bn = match r {
        0 | 1 => Bn::B1(tri!(BatchNorm1D::new(2, sc(eps), sc(mom), affine, d), "new")),
        2 => Bn::B2(tri!(BatchNorm2D::new(2, sc(eps), sc(mom), affine, d), "new")),
        _ => Bn::B3(tri!(BatchNorm3D::new(2, sc(eps), sc(mom), affine, d), "new")),
    };
    // the model: running moments, scale and shift
    let mut run = vec![(0.0, 1.0); 2];
    let mom = if wide { mom } else { mom as f32 as f64 };
    let (mut ga, mut be) = (vec![1.0, 1.0], vec![0.0, 0.0]);
    let aff = |ga: &[f64], be: &[f64], c: usize| if affine { (ga[c], be[c]) } else { (1.0, 0.0) };
    let mut lives: Vec<Tensor> = vec![];
    let mut log = String::new();
    for (n, &a) in acts.iter().enumerate() {
        if a == H::Copy {
            bn = bn.copy();
            continue;
        }
        let (k, train, back, step) = match a {
            H::T(k) => (k, true, false, false),
            H::E(k) => (k, false, false, false),
            H::Eb(k) => (k, false, true, false),
            H::S(k) => (k, true, true, true),
            H::Copy => unreachable!(),
        };
        let x = bn_batch(r, k);
        let t = tri!(tensor(&nd(&x, F), d), "batch");
        tri!(t.set_requires_grad(true), "tracking");
        if train {
            hodu_nn::train!();
        } else {
            hodu_nn::eval!();
        }
        let y = tri!(bn.run(&t), "forward");
        let f = |v: &[R]| -> Vec<R> {
            let (g, b) = if affine { (v[1].d.clone(), v[2].d.clone()) } else { (vec![], vec![]) };
            vec![if train {
                norm(&v[0], &|i| vec![i[1]], eps, &|i| aff(&g, &b, i[1]))
            } else {
                R::from(&v[0].s, |i| {
                    let (m, s) = run[i[1]];
                    let (g, b) = aff(&g, &b, i[1]);
                    (v[0].at(i) - m) / (s + eps).sqrt() * g + b
                })
            }]
        };
        let mut at = vec![x.clone()];
        if affine {
            at.push(R { s: vec![2], d: ga.clone() });
            at.push(R { s: vec![2], d: be.clone() });
        }
        let want = f(&at).remove(0);
        let got = tri!(rd(&y), "output");
        let wv: Vec<Option<f64>> = want.d.iter().map(|v| Some(*v)).collect();
        ok!(compare(&format!("output of action {n} {a:?}"), &got, &wv, &want.s, d, false));
        log.push_str(&format!("{:.3} ", got.d[0]));
        if back {
            let c = R { s: want.s.clone(), d: (0..want.d.len()).map(|j| coef(j, 0)).collect() };
            let c = tri!(tensor(&nd(&c, F), d), "weights");
            let loss = tri!(y.mul(&c).and_then(|v| v.sum_all()), "loss");
            tri!(loss.backward(), "backward");
            let ps = bn.params();
            for (i, v) in at.iter().enumerate() {
                let w = deriv(&f, &at, i);
                let g = tri!((if i == 0 { &t } else { &ps[i - 1] }).grad(), format!("gradient {i}"));
                let g = tri!(rd(&g), "gradient");
                ok!(compare(&format!("gradient {i} of action {n} {a:?}"), &g, &w, &v.s, d, true));
            }
            // batches of before have no part in this loss
            for (i, o) in lives.iter().enumerate() {
                if let Ok(g) = o.grad() {
                    let g = tri!(rd(&g), "gradient");
                    if g.d.iter().any(|x| *x != 0.0) {
                        return Out::Bad("wrong", format!("action {n} {a:?} gives earlier batch {i} the gradient {:?}", g.d));
                    }
                }
            }
            if affine {
                let refs: Vec<&Tensor> = ps.iter().collect();
                if step {
                    let lr = 0.0625;
                    let mut sgd = SGD::new(lr as f32);
                    for (i, p) in [&mut ga, &mut be].into_iter().enumerate() {
                        let g = tri!(rd(&tri!(ps[i].grad(), "gradient")), "gradient");
                        p.iter_mut().zip(&g.d).for_each(|(p, g)| *p -= lr * g);
                    }
                    tri!(Optimizer::step(&mut sgd, &refs), "step");
                }
                for p in &refs {
                    tri!(p.zero_grad(), "zero_grad");
                }
            }
            tri!(t.zero_grad(), "zero_grad");
        }
        if train {
            for (c, m) in moments(&x, &|i| vec![i[1]]) {
                let r = &mut run[c[0]];
                r.0 = mom * r.0 + (1.0 - mom) * m.0;
                r.1 = mom * r.1 + (1.0 - mom) * m.1;
            }
        }
        lives.push(t);
    }
    Out::Ok(log)
}

fn main() {
    let mut c = Check::new("C19", "model_checking");
    let th = c.thorough();
    let mut v = vec![];
    activations(&mut v);
    linears(&mut v);
    convs(&mut v, th);
    pools(&mut v, th);
    norms(&mut v);
    recurrents(&mut v);
    attentions(&mut v);
    embeddings(&mut v);
    losses(&mut v);
    let mut times = std::collections::BTreeMap::new();
    let mut kinds = std::collections::BTreeSet::new();
    for sp in &v {
        let group = sp.key.split(['(', ' ']).next().unwrap().to_string();
        let t0 = std::time::Instant::now();
        kinds.insert(group.clone());
        for d in [DType::F32, DType::F64, DType::F16, DType::BF16] {
            if matches!(d, DType::F16 | DType::BF16) && group.starts_with("Conv") && !th && sp.key.contains("s=3") {
                continue;
            }
            let lays: &[&str] = match d {
                DType::F32 => &["c", "off", "perm", "step", "mid", "swap", "stepoff"],
                DType::F64 => &["c", "perm"],
                _ => &["c"],
            };
            // the layers that are slow to run get fewer combinations on every change
            let heavy = !th && (group.ends_with("3D") && group != "BatchNorm3D" && group != "InstanceNorm3D" || matches!(group.as_str(), "Lstm" | "Gru" | "MultiheadAttention"));
            let lays: &[&str] = match d {
                DType::F32 if heavy => &["c", "perm", "step"],
                _ if heavy => &["c"],
                _ => lays,
            };
            let mut seen: Vec<&str> = vec![];
            for &lay in lays {
                // layouts that differ from the plain one for this input
                let any = sp.ins.iter().any(|(r, k)| lay == "c" || matches!(laid(&nd(r, *k), if *k == I { DType::I32 } else if *k == B { DType::BOOL } else { d }, lay), Ok(Some(_))));
                if !any {
                    continue;
                }
                seen.push(lay);
                // in a narrow type a unit that is on in the definition can be off in the layer once it has moved
                let kink = sp.key.starts_with("Relu") && matches!(d, DType::F16 | DType::BF16);
                let steps = if kink || lay != "c" && !th { 1 } else { 3 };
                c.case(&group, &format!("{} {} {lay}", sp.key, dn(d)), || check(sp, d, lay, steps));
                c.add(steps as u64);
            }
        }
        *times.entry(group).or_insert(0.0) += t0.elapsed().as_secs_f64();
    }
    if std::env::var("TIMES").is_ok() {
        eprintln!("{times:?}");
    }
    random(&mut c);
    let acts = [H::T(0), H::T(1), H::E(0), H::E(1), H::Eb(1), H::S(0), H::Copy];
    let hist = tuples(if th { 5 } else { 4 }, &acts);
    for r in 0..4 {
        for d in [DType::F32, DType::F64] {
            for affine in [false, true] {
                for (mom, wide) in [(0.75, false), (0.9, true), (0.0, false), (1.0, true)] {
                    let pre = format!("history {} {} momentum={mom},{wide} affine={affine}", ["BatchNorm1D", "BatchNorm1D 3-D", "BatchNorm2D", "BatchNorm3D"][r], dn(d));
                    if !c.wants_prefix(&pre) {
                        continue;
                    }
                    for h in &hist {
                        if h.len() > 3 && !th && !(mom == 0.75 && affine && d == DType::F32 || r == 0) {
                            continue;
                        }
                        c.case("BatchNorm-history", &format!("{pre} {h:?}"), || bn_history(r, d, mom, wide, affine, h));
                        c.add(h.len() as u64);
                    }
                }
            }
        }
    }
    c.note("bounds", serde_json::json!({"layers and losses": kinds.len(), "settings with a shape": v.len(), "batch-normalisation histories": hist.len()}));
    c.finish("every layer and loss with every combination of its settings and every small shape: outputs equal the definition in f64 as constructed, with chosen parameters and after each of two optimiser steps; gradients of all inputs and parameters equal central differences of the definition; every history of training batches, evaluations, losses, steps and copies of a batch-normalisation layer follows the running moments; live tensors do not grow")
}
