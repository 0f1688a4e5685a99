//! C18: optimisers apply their update rule at every step.
//! Every history (up to the depth bound) of steps with gradients from a small alphabet, learning-rate changes, zeroing,
//! forking the optimiser's state and failing steps is run on the real optimiser, for every combination of its settings,
//! and compared after every action with the published rule carried out in f64.
use hodu_core::scalar::Scalar;
use hodu_core::tensor::{is_in_optimizer_step, tensor_count, GradientContext, Tensor};
use hodu_core::types::DType;
use hodu_nn::optimizer::Optimizer;
use hodu_nn::{Adagrad, Adam, AdamW, RMSprop, SGD};
use mc::check::*;
use mc::nd::*;
use mc::tio::*;
use mc::vals::tuples;

#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
    /// backward of a loss with this gradient, then a step
    S(usize),
    /// a step with the gradients left from before
    Again,
    /// another learning rate
    Lr(usize),
    /// zero the gradients, then a step
    Zero,
    /// a copy of the optimiser takes a step of its own, which is then taken back
    Fork,
    /// go on with a copy of the optimiser
    Copy,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum O {
    Sgd,
    Adam { b1: f64, b2: f64, eps: f64 },
    AdamW { b1: f64, b2: f64, eps: f64, wd: f64 },
    Rms { al: f64, eps: f64, mom: f64, wd: f64, cen: bool },
    Ada { dec: f64, eps: f64, wd: f64, init: f64 },
}
#[derive(Clone)]
enum Real {
    Sgd(SGD),
    Adam(Adam),
    AdamW(AdamW),
    Rms(RMSprop),
    Ada(Adagrad),
}
/// a setting, given as a number of either width
fn sc(x: f64, wide: bool) -> Scalar {
    if wide { Scalar::from(x) } else { Scalar::from(x as f32) }
}
impl Real {
    fn new(o: &O, lr: f64, w: bool) -> Real {
        let s = |x| sc(x, w);
        match *o {
            O::Sgd => Real::Sgd(SGD::new(s(lr))),
            O::Adam { b1, b2, eps } => Real::Adam(Adam::new(s(lr), s(b1), s(b2), s(eps))),
            O::AdamW { b1, b2, eps, wd } => Real::AdamW(AdamW::new(s(lr), s(b1), s(b2), s(eps), s(wd))),
            O::Rms { al, eps, mom, wd, cen } => Real::Rms(RMSprop::new(s(lr), s(al), s(eps), s(mom), s(wd), cen)),
            O::Ada { dec, eps, wd, init } => Real::Ada(Adagrad::new(s(lr), s(dec), s(eps), s(wd), s(init))),
        }
    }
    fn opt(&mut self) -> &mut dyn Optimizer {
        match self {
            Real::Sgd(x) => x,
            Real::Adam(x) => x,
            Real::AdamW(x) => x,
            Real::Rms(x) => x,
            Real::Ada(x) => x,
        }
    }
    fn lr(&mut self, lr: f64, w: bool) {
        let s = sc(lr, w);
        match self {
            Real::Sgd(x) => x.set_learning_rate(s),
            Real::Adam(x) => x.set_learning_rate(s),
            Real::AdamW(x) => x.set_learning_rate(s),
            Real::Rms(x) => x.set_learning_rate(s),
            Real::Ada(x) => x.set_learning_rate(s),
        }
    }
}
/// the published rules, element by element
#[derive(Clone)]
struct Model {
    t: i32,
    p: Vec<Vec<f64>>,
    m: Vec<Vec<f64>>,
    v: Vec<Vec<f64>>,
    a: Vec<Vec<f64>>,
    /// total length of the way each element went
    way: Vec<Vec<f64>>,
    /// an element became ill-conditioned: nothing is compared from then on
    lost: bool,
}
impl Model {
    fn new(p: Vec<Vec<f64>>, o: &O) -> Model {
        let z: Vec<Vec<f64>> = p.iter().map(|x| vec![0.0; x.len()]).collect();
        let v = if let O::Ada { init, .. } = o { z.iter().map(|x| vec![*init; x.len()]).collect() } else { z.clone() };
        Model { t: 0, p, m: z.clone(), v, a: z.clone(), way: z, lost: false }
    }
    fn step(&mut self, o: &O, lr: f64, g: &[Vec<f64>], d: DType) {
        self.t += 1;
        let t = self.t;
        for i in 0..self.p.len() {
            for j in 0..self.p[i].len() {
                let (p, mut g) = (self.p[i][j], g[i][j]);
                let (m, v, a) = (&mut self.m[i][j], &mut self.v[i][j], &mut self.a[i][j]);
                let n = match *o {
                    O::Sgd => p - lr * g,
                    O::Adam { b1, b2, eps } => {
                        *m = b1 * *m + (1.0 - b1) * g;
                        *v = b2 * *v + (1.0 - b2) * g * g;
                        p - lr * (*m / (1.0 - b1.powi(t))) / ((*v / (1.0 - b2.powi(t))).sqrt() + eps)
                    },
                    O::AdamW { b1, b2, eps, wd } => {
                        *m = b1 * *m + (1.0 - b1) * g;
                        *v = b2 * *v + (1.0 - b2) * g * g;
                        p - lr * wd * p - lr * (*m / (1.0 - b1.powi(t))) / ((*v / (1.0 - b2.powi(t))).sqrt() + eps)
                    },
                    O::Rms { al, eps, mom, wd, cen } => {
                        let big = g.abs() + (wd * p).abs();
                        g += wd * p;
                        self.lost |= g != 0.0 && g.abs() < 1e-4 * big;
                        *v = al * *v + (1.0 - al) * g * g;
                        *a = al * *a + (1.0 - al) * g;
                        let w = if cen { *v - *a * *a } else { *v };
                        if cen && w < 1e-3 * *v {
                            self.lost = true;
                        }
                        let s = g / (w.max(0.0).sqrt() + eps);
                        if mom != 0.0 {
                            *m = mom * *m + s;
                            p - lr * *m
                        } else {
                            p - lr * s
                        }
                    },
                    O::Ada { dec, eps, wd, .. } => {
                        let big = g.abs() + (wd * p).abs();
                        g += wd * p;
                        self.lost |= g != 0.0 && g.abs() < 1e-4 * big;
                        *v += g * g;
                        p - lr / (1.0 + (t - 1) as f64 * dec) * g / (v.sqrt() + eps)
                    },
                };
                // 0 / 0 where the type has no room for epsilon
                let eps = match *o {
                    O::Sgd => 1.0,
                    O::Adam { eps, .. } | O::AdamW { eps, .. } | O::Rms { eps, .. } | O::Ada { eps, .. } => eps,
                };
                if quant(d, eps) == 0.0 && g == 0.0 {
                    self.lost = true;
                }
                if matches!(d, DType::F16 | DType::BF16) && *v != 0.0 && *v < 1e-4 {
                    self.lost = true;
                }
                self.way[i][j] += (n - p).abs();
                self.p[i][j] = n;
            }
        }
    }
}

const SHAPES: [&[usize]; 3] = [&[3], &[2, 2], &[]];
fn start(i: usize) -> Vec<f64> {
    let n = numel(SHAPES[i]);
    (0..n).map(|j| [1.0, -0.5, 2.0, 0.25][(i + j) % 4]).collect()
}
/// gradients: generic, of other signs and size, tiny
fn gradient(k: usize, i: usize) -> Vec<f64> {
    let n = numel(SHAPES[i]);
    (0..n)
        .map(|j| match k {
            0 => [0.5, -1.25, 2.0, 0.75][(i + j) % 4],
            1 => [-3.0, 0.125, 0.0, 4.0][(2 * i + j) % 4],
            _ => [1.0 / 1024.0, -1.0 / 512.0, 0.5, 1.0 / 4096.0][(i + j) % 4],
        })
        .collect()
}
fn nd(i: usize, v: &[f64]) -> Nd {
    Nd::new(SHAPES[i].to_vec(), v.iter().map(|&x| V::F(x)).collect())
}

fn history(o: &O, d: DType, wide: bool, acts: &[A]) -> Out {
    let _ctx = GradientContext::new();
    let lrs = [0.1, 0.5, 0.0];
    let mut lr = lrs[0];
    let q = |x: f64| if wide { x } else { x as f32 as f64 };
    // the settings as the implementation receives them
    let o2 = match *o {
        O::Sgd => O::Sgd,
        O::Adam { b1, b2, eps } => O::Adam { b1: q(b1), b2: q(b2), eps: q(eps) },
        O::AdamW { b1, b2, eps, wd } => O::AdamW { b1: q(b1), b2: q(b2), eps: q(eps), wd: q(wd) },
        O::Rms { al, eps, mom, wd, cen } => O::Rms { al: q(al), eps: q(eps), mom: q(mom), wd: q(wd), cen },
        O::Ada { dec, eps, wd, init } => O::Ada { dec: q(dec), eps: q(eps), wd: q(wd), init: q(init) },
    };
    let np = SHAPES.len();
    let mut ps: Vec<Tensor> = vec![];
    for i in 0..np {
        // the second parameter is a view
        let lay = if i == 1 { "perm" } else { "c" };
        match laid(&nd(i, &start(i)), d, lay) {
            Ok(Some(t)) => ps.push(t),
            x => return Out::Bad("err", format!("parameter: {:?}", x.map(|_| ()))),
        }
        if let Err(e) = ps[i].set_requires_grad(true) {
            return Out::Bad("err", format!("{e}"));
        }
    }
    // handles taken before the first step see every update
    let seen: Vec<Tensor> = ps.clone();
    let refs: Vec<&Tensor> = ps.iter().collect();
    let mut real = Real::new(o, lr, wide);
    let mut m = Model::new((0..np).map(start).collect(), &o2);
    let mut grads: Option<Vec<Vec<f64>>> = None;
    let mut log = String::new();
    let mut counts = vec![];
    macro_rules! tri {
        ($e:expr, $w:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => return Out::Bad("err", format!("{}: {e}; after {log}", $w)),
            }
        };
    }
    for &a in acts {
        log.push_str(&format!(" {a:?}"));
        let backward = |k: usize| -> Result<Vec<Vec<f64>>, String> {
            let mut total: Option<Tensor> = None;
            let mut g = vec![];
            for i in 0..np {
                let w: Vec<f64> = gradient(k, i).iter().map(|&x| quant(d, x)).collect();
                let t = tensor(&nd(i, &w), d).map_err(|e| e.to_string())?;
                let s = ps[i].mul(&t).and_then(|x| x.sum_all()).map_err(|e| e.to_string())?;
                total = Some(match total {
                    None => s,
                    Some(y) => y.add(&s).map_err(|e| e.to_string())?,
                });
                g.push(w);
            }
            total.unwrap().backward().map_err(|e| e.to_string())?;
            Ok(g)
        };
        let missing = grads.is_none();
        match a {
            A::S(k) => {
                grads = Some(tri!(backward(k), "backward"));
                tri!(real.opt().step(&refs), "step");
                m.step(&o2, q(lr), grads.as_ref().unwrap(), d);
            },
            A::Again => match (real.opt().step(&refs), missing) {
                (Err(_), true) => {
                    // no gradient: refused, the parameter is as it was, tracking goes on
                    if is_in_optimizer_step() {
                        return Out::Bad("flag", "a failed step leaves tracking switched off".into());
                    }
                    tri!(backward(0), "backward after a failed step");
                    for (i, p) in ps.iter().enumerate() {
                        let v = tri!(read(p), "parameter after a failed step");
                        if v != nd(i, &m.p[i]) {
                            return Out::Bad("wrong", format!("parameter {i} without a gradient is {} after a refused step", v.show()));
                        }
                    }
                    return Out::Ok("refused".into());
                },
                (Ok(_), true) => {
                    // accepted: a parameter without a gradient stays as it is
                    return Out::Ok("accepted".into());
                },
                (r, false) => {
                    tri!(r, "step");
                    m.step(&o2, q(lr), grads.as_ref().unwrap(), d);
                },
            },
            A::Lr(k) => {
                lr = lrs[k];
                real.lr(lr, wide);
                if let Real::AdamW(x) = &real {
                    if x.get_learning_rate() != sc(lr, wide) {
                        return Out::Bad("wrong", format!("learning rate {:?} after setting it to {lr}", x.get_learning_rate()));
                    }
                }
            },
            A::Zero => {
                tri!(real.opt().zero_grad(&refs), "zero_grad");
                if let Some(g) = grads.as_mut() {
                    g.iter_mut().for_each(|x| x.iter_mut().for_each(|y| *y = 0.0));
                    tri!(real.opt().step(&refs), "step");
                    m.step(&o2, q(lr), g, d);
                }
            },
            A::Fork => {
                if grads.is_none() {
                    continue;
                }
                let mut other = real.clone();
                let before: Vec<Nd> = tri!(ps.iter().map(read).collect::<Result<Vec<_>, _>>(), "reading");
                tri!(other.opt().step(&refs), "step of a copy");
                for (p, b) in ps.iter().zip(&before) {
                    let t = tri!(tensor(b, d), "old value");
                    tri!(p.set_(&t), "set_");
                }
            },
            A::Copy => real = real.clone(),
        }
        if is_in_optimizer_step() {
            return Out::Bad("flag", "tracking stays switched off after a step".into());
        }
        if m.lost {
            return Out::Ok(format!("{log} (ill-conditioned)"));
        }
        for i in 0..np {
            let v = tri!(read(&seen[i]), "parameter");
            if v.shape != SHAPES[i] || seen[i].dtype() != d {
                return Out::Bad("wrong", format!("parameter {i} has shape {:?} and type {:?} after {log}", v.shape, seen[i].dtype()));
            }
            if !seen[i].is_requires_grad() {
                return Out::Bad("wrong", format!("parameter {i} is no longer tracked after {log}"));
            }
            for j in 0..v.data.len() {
                let (g, w) = (v.data[j].f(), m.p[i][j]);
                let e = eps(d);
                let (abs, rel) = match d {
                    DType::F64 => (32.0 * e, 1e-9),
                    DType::F32 => (32.0 * e, 1e-3),
                    _ => (8.0 * e, if matches!(o, O::Sgd) { 0.01 } else { 0.25 }),
                };
                let tol = abs * (w.abs() + m.way[i][j] + 1.0) + rel * m.way[i][j];
                if !((g - w).abs() <= tol) {
                    return Out::Bad("wrong", format!("parameter {i} element {j} is {g}, the rule gives {w}, after {log}"));
                }
            }
            log.push_str(&format!(" {:.4}", m.p[i][0]));
        }
        counts.push((a, tensor_count()));
    }
    // the state does not grow
    let c: Vec<usize> = counts.iter().filter(|x| matches!(x.0, A::S(_))).map(|x| x.1).collect();
    if c.len() == acts.len() && c.len() >= 3 && c[c.len() - 1] > c[1] {
        return Out::Bad("leak", format!("the number of live tensors grows with the steps: {c:?}"));
    }
    Out::Ok(log)
}

fn main() {
    let mut c = Check::new("C18", "model_checking");
    let th = c.thorough();
    let mut settings: Vec<O> = vec![O::Sgd];
    for b1 in [0.9, 0.5, 0.0] {
        for b2 in [0.999, 0.5, 0.0] {
            for eps in [1e-8, 0.5] {
                settings.push(O::Adam { b1, b2, eps });
                for wd in [0.01, 0.0] {
                    settings.push(O::AdamW { b1, b2, eps, wd });
                }
            }
        }
    }
    for al in [0.99, 0.5, 0.0] {
        for eps in [1e-8, 0.5] {
            for mom in [0.0, 0.9] {
                for wd in [0.0, 0.1] {
                    for cen in [false, true] {
                        settings.push(O::Rms { al, eps, mom, wd, cen });
                    }
                }
            }
        }
    }
    for dec in [0.0, 0.25] {
        for eps in [1e-10, 0.5] {
            for wd in [0.0, 0.1] {
                for init in [0.0, 0.5] {
                    settings.push(O::Ada { dec, eps, wd, init });
                }
            }
        }
    }
    let acts = [A::S(0), A::S(1), A::S(2), A::Again, A::Lr(1), A::Lr(2), A::Zero, A::Fork, A::Copy];
    // which: (every setting, the settings in common use)
    let mixed = tuples(if th { 3 } else { 2 }, &acts);
    let deep = tuples(if th { 4 } else { 3 }, &acts);
    let long = tuples(if th { 7 } else { 5 }, &[A::S(0), A::S(1)]);
    let mut far = vec![vec![A::S(0); 40]];
    far.push((0..40).map(|i| A::S(i % 3)).collect());
    for o in &settings {
        for d in [DType::F32, DType::F64, DType::F16, DType::BF16] {
            for wide in [false, true] {
                // a rule needs numbers of the type's own width
                if wide == (d == DType::F32) && !(d == DType::F64) && !th {
                    continue;
                }
                let pre = format!("{o:?} {} settings={}", dn(d), if wide { "f64" } else { "f32" });
                if !c.wants_prefix(&pre) {
                    continue;
                }
                let narrow = matches!(d, DType::F16 | DType::BF16);
                let common = match *o {
                    O::Sgd => true,
                    O::Adam { b1, b2, eps } => b1 == 0.9 && b2 == 0.999 && eps < 0.1,
                    O::AdamW { b1, b2, eps, wd } => b1 == 0.9 && b2 == 0.999 && eps < 0.1 && wd != 0.0,
                    O::Rms { al, eps, mom, wd, cen } => al == 0.99 && eps < 0.1 && (mom != 0.0) == (wd != 0.0) && (mom != 0.0) == cen,
                    O::Ada { dec, eps, wd, init } => eps < 0.1 && (dec != 0.0) == (wd != 0.0) && (wd != 0.0) == (init != 0.0),
                };
                let deepest = if common { &deep } else { &mixed };
                let lists: Vec<&Vec<Vec<A>>> = if narrow { vec![&long] } else { vec![deepest, &long, &far] };
                for (li, l) in lists.iter().enumerate() {
                    for h in l.iter() {
                        if narrow && h.len() > 5 {
                            continue;
                        }
                        let key = if li == 2 { format!("{pre} {} steps {}", h.len(), (h[0] != h[1]) as u8) } else { format!("{pre} {h:?}") };
                        c.case(&format!("{} {}", pre.split(' ').next().unwrap(), dn(d)), &key, || history(o, d, wide, h));
                        c.add(h.len() as u64);
                    }
                }
            }
        }
    }
    c.note("bounds", serde_json::json!({"settings": settings.len(), "mixed histories": mixed.len(), "mixed histories of the common settings": deep.len(), "step histories": long.len(), "longest": 40}));
    c.finish("every history to the depth bound over three gradients, steps without a new backward, learning-rate changes, zeroed gradients and copies of the optimiser, for every combination of the settings: every element of every parameter equals the published rule after every action; handles taken before see the update; tracking is left on; live tensors do not grow")
}
