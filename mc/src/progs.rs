//! The programs C11 and C12 capture: every operation of the catalogue with every origin of its operands, sequences of
//! views, compositions of two operations, gradients, and the structural corner cases.
use crate::cat::{run, K};
use crate::check::Out;
use crate::gen::{self, cases};
use crate::nd::*;
use crate::tio::*;
use crate::vals::tuples;
use hodu_core::prelude::CaptureBoard;
use hodu_core::snapshot::Snapshot;

pub const NAMES: [&str; 8] = ["x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7"];

/// One execution of a program: capturing (inputs are placeholders) or eager (inputs are tensors).
pub struct Env {
    pub capture: bool,
    pub inputs: Vec<(&'static str, Nd, DType)>,
    /// tensors created before the board was opened
    pub pre: Vec<Tensor>,
}
impl Env {
    pub fn input(&mut self, v: &Nd, d: DType) -> HoduResult<Tensor> {
        let n = NAMES[self.inputs.len()];
        self.inputs.push((n, v.clone(), d));
        if self.capture {
            Tensor::input(n, v.shape.clone(), d)
        } else {
            tensor(v, d)
        }
    }
}
pub type Pre = Box<dyn Fn() -> HoduResult<Option<Vec<Tensor>>>>;
pub type Body = Box<dyn Fn(&mut Env) -> HoduResult<Option<Vec<Tensor>>>>;
pub struct Prog {
    pub key: String,
    pub group: String,
    pub pre: Pre,
    pub body: Body,
    pub tol: f64,
    /// also needed by the check of the file format
    pub base: bool,
}
pub struct Captured {
    pub snap: Snapshot,
    pub inputs: Vec<(&'static str, Nd, DType)>,
}
struct Close<'a>(&'a CaptureBoard);
impl Drop for Close<'_> {
    fn drop(&mut self) {
        self.0.close();
    }
}
impl Prog {
    /// Ok(None): the program does not exist (this layout is not possible for this shape)
    pub fn eager(&self) -> HoduResult<Option<Vec<(Nd, DType)>>> {
        let _ctx = hodu_core::tensor::GradientContext::new();
        let Some(pre) = (self.pre)()? else { return Ok(None) };
        let mut e = Env { capture: false, inputs: vec![], pre };
        let Some(r) = (self.body)(&mut e)? else { return Ok(None) };
        r.iter().map(|t| Ok((read(t)?, t.dtype()))).collect::<HoduResult<Vec<_>>>().map(Some)
    }
    /// Everything the program touched is dropped before the snapshot is taken.
    pub fn capture(&self) -> HoduResult<Option<Captured>> {
        let _ctx = hodu_core::tensor::GradientContext::new();
        let Some(pre) = (self.pre)()? else { return Ok(None) };
        let board = CaptureBoard::with_name("program");
        let mut e = Env { capture: true, inputs: vec![], pre };
        {
            board.open();
            let _c = Close(&board);
            let Some(r) = (self.body)(&mut e)? else { return Ok(None) };
            for (i, t) in r.into_iter().enumerate() {
                board.with_target(format!("t{i}"), t);
            }
        }
        let inputs = std::mem::take(&mut e.inputs);
        drop(e);
        drop(_ctx);
        Ok(Some(Captured { snap: board.capture(), inputs }))
    }
    pub fn check(&self) -> Out {
        let eager = self.eager();
        let cap = match self.capture() {
            Ok(None) => return Out::Skip,
            Ok(Some(c)) => c,
            Err(e) => {
                return match eager {
                    Ok(_) => Out::Bad("refused", format!("{e}")),
                    Err(_) => Out::Ok("refused by both".into()),
                }
            },
        };
        let eager = match eager {
            Ok(Some(r)) => r,
            Ok(None) => return Out::Skip,
            Err(e) => return Out::Bad("accepted", format!("captured, but running it eagerly fails: {e}")),
        };
        judge(&cap.snap, &cap.inputs, &eager, self.tol)
    }
}
pub fn judge(s: &Snapshot, inputs: &[(&str, Nd, DType)], eager: &[(Nd, DType)], tol: f64) -> Out {
    if s.name.as_deref() != Some("program") {
        return Out::Bad("wrong", format!("the program's name became {:?}", s.name));
    }
    let r = match crate::interp::interpret(s, inputs) {
        Ok(r) => r,
        Err(e) if e.starts_with("DYNAMIC") => return Out::Skip,
        Err(e) => return Out::Bad("malformed", e),
    };
    if r.len() != eager.len() {
        return Out::Bad("wrong", format!("{} targets, expected {}", r.len(), eager.len()));
    }
    let mut out = String::new();
    for (i, (r, (w, wd))) in r.iter().zip(eager).enumerate() {
        if r.name != format!("t{i}") {
            return Out::Bad("wrong", format!("target {i} is called {}", r.name));
        }
        if r.dtype != *wd {
            return Out::Bad("wrong", format!("target {i} has type {}, eagerly {wd}", r.dtype));
        }
        if let Err(e) = agree(&r.value, w, *wd, tol) {
            return Out::Bad("wrong", format!("target {i} (expected: eager): {e}"));
        }
        out += &r.value.show();
    }
    Out::Ok(out)
}
fn none() -> Pre {
    Box::new(|| Ok(Some(vec![])))
}
const G: gen::R = gen::R::G;

/// how an operand comes about
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Src {
    Input,
    /// made before the board was opened, in this layout
    Outside(&'static str),
    /// made while capturing
    Inside,
    /// a view of an input
    View(&'static str),
}
fn src_name(s: &Src) -> String {
    match s {
        Src::Input => "in".into(),
        Src::Outside(l) => format!("const-{l}"),
        Src::Inside => "made".into(),
        Src::View(l) => format!("view-{l}"),
    }
}
fn operands(vals: &[Nd], dts: &[DType], src: &[Src], e: &mut Env) -> HoduResult<Option<Vec<Tensor>>> {
    let mut pre = std::mem::take(&mut e.pre).into_iter();
    let mut xs = vec![];
    for i in 0..vals.len() {
        xs.push(match src[i] {
            Src::Input => e.input(&vals[i], dts[i])?,
            Src::Outside(_) => pre.next().unwrap(),
            Src::Inside => tensor(&vals[i], dts[i])?,
            Src::View(l) => match laid_with(&vals[i], l, dts[i], &mut |x| e.input(x, dts[i]))? {
                Some(t) => t,
                None => return Ok(None),
            },
        });
    }
    Ok(Some(xs))
}
fn outside(vals: &[Nd], dts: &[DType], src: &[Src]) -> HoduResult<Option<Vec<Tensor>>> {
    let mut v = vec![];
    for i in 0..vals.len() {
        if let Src::Outside(l) = src[i] {
            match laid(&vals[i], dts[i], l)? {
                Some(t) => v.push(t),
                None => return Ok(None),
            }
        }
    }
    Ok(Some(v))
}
/// in units of the last place: both executions round, and resize computes in f32 even for f64
fn tolerance(k: &K, d: DType) -> f64 {
    match k {
        K::Resize(..) if d == DType::F64 => 16.0 * 2f64.powi(29),
        _ if matches!(d, DType::F8E4M3 | DType::F8E5M2) => gen::tol(k, d).max(16.0),
        _ => gen::tol(k, d).max(4.0),
    }
}
fn op_prog(cs: &gen::Case, d: DType, src: Vec<Src>, then: Option<K>, base: bool, grad: bool) -> Prog {
    let (vals, dts) = (cs.values(d), cs.dtypes(d));
    let key = format!(
        "op/{}/{}/{}{}{}",
        dn(d),
        cs.key(),
        src.iter().map(src_name).collect::<Vec<_>>().join(","),
        then.as_ref().map(|k| format!("/then-{}", crate::cat::name(k))).unwrap_or_default(),
        if grad { "/tracked" } else { "" }
    );
    let (v2, d2, s2) = (vals.clone(), dts.clone(), src.clone());
    let k = cs.k.clone();
    let tol = tolerance(&cs.k, d) * if then.is_some() { 4.0 } else { 1.0 };
    Prog {
        key,
        group: cs.group(),
        pre: Box::new(move || outside(&v2, &d2, &s2)),
        body: Box::new(move |e| {
            let Some(xs) = operands(&vals, &dts, &src, e)? else { return Ok(None) };
            if grad {
                for x in &xs {
                    if x.dtype().is_float() {
                        x.set_requires_grad(true)?;
                    }
                }
            }
            let r = run(&k, &xs.iter().collect::<Vec<_>>())?;
            drop(xs);
            Ok(Some(match &then {
                None => r,
                Some(k2) => {
                    let mut out = vec![];
                    for t in &r {
                        out.extend(run(k2, &[t])?);
                    }
                    out.extend(r);
                    out
                },
            }))
        }),
        tol: if d.is_float() { tol } else { 0.0 },
        base,
    }
}
fn views(s: &[usize]) -> Vec<(&'static str, K)> {
    let n = s.len();
    let size: usize = s.iter().product();
    let mut v = vec![("flatten", K::Flatten), ("unsq0", K::Unsq(0)), ("unsqlast", K::Unsq(-1)), ("squeeze", K::Squeeze(vec![]))];
    if size % 2 == 0 {
        v.push(("reshape", K::Reshape(vec![2, size / 2])));
    }
    if n >= 1 {
        v.push(("flip", K::Flip(vec![0])));
        if s[0] > 1 {
            v.push(("tail", K::Slice(0, 1, None, 1)));
            v.push(("even", K::Slice(-1, 0, None, 2)));
            v.push(("back", K::Slice(0, -1, None, -1)));
        }
        v.push(("spread", K::Bcast([vec![2], s.to_vec()].concat())));
        v.push(("repeat", K::Repeat([vec![2], vec![1; n - 1]].concat())));
    }
    if n >= 2 {
        v.push(("t", K::Transp(0, -1)));
        v.push(("contiguous", K::Contig));
    }
    if n == 3 {
        v.push(("perm", K::Perm(vec![2, 0, 1])));
    }
    v
}
fn shape_after(k: &K, s: &[usize]) -> Vec<usize> {
    let a = Nd::from_fn(s, |_| V::F(0.0));
    crate::cat::eval(k, &[a], &[DType::F32])[0].0.shape.clone()
}
fn chains(depth: usize, f: &mut dyn FnMut(Vec<(&'static str, K)>)) {
    fn go(s: &[usize], c: &mut Vec<(&'static str, K)>, depth: usize, f: &mut dyn FnMut(Vec<(&'static str, K)>)) {
        f(c.clone());
        if c.len() == depth {
            return;
        }
        for (n, k) in views(s) {
            let t = shape_after(&k, s);
            if t.len() > 4 || t.iter().product::<usize>() > 48 {
                continue;
            }
            c.push((n, k));
            go(&t, c, depth, f);
            c.pop();
        }
    }
    go(&[2, 3, 2], &mut vec![], depth, f)
}
/// Every program, in a fixed order.
pub fn each(thorough: bool, visit: &mut dyn FnMut(Prog)) {
    // one operation, every element type, every origin of every operand
    for cs in cases() {
        let n = cs.ins.len();
        for d in ALL_DT {
            if !gen::applies(&cs, d) {
                continue;
            }
            visit(op_prog(&cs, d, vec![Src::Input; n], None, true, false));
            visit(op_prog(&cs, d, vec![Src::Outside("c"); n], None, true, false));
            if d.is_float() {
                visit(op_prog(&cs, d, vec![Src::Input; n], None, false, true));
            }
            if !thorough && !matches!(d, DType::F32 | DType::I32 | DType::BOOL | DType::F16) {
                continue;
            }
            visit(op_prog(&cs, d, vec![Src::Inside; n], None, false, false));
            for l in LAYOUTS {
                visit(op_prog(&cs, d, vec![Src::Outside(l); n], None, false, false));
                visit(op_prog(&cs, d, vec![Src::View(l); n], None, false, false));
                if n > 1 {
                    for i in 0..n {
                        for s in [Src::Outside(l), Src::View(l)] {
                            let mut v = vec![Src::Input; n];
                            v[i] = s;
                            visit(op_prog(&cs, d, v, None, false, false));
                        }
                    }
                }
            }
            if n > 1 && n <= 3 {
                for m in tuples(n, &[Src::Input, Src::Outside("off"), Src::Inside, Src::View("perm")]) {
                    visit(op_prog(&cs, d, m, None, false, false));
                }
            }
        }
        // a second operation on every result
        for d in [DType::F32, DType::I32, DType::BOOL] {
            if !gen::applies(&cs, d) || matches!(cs.k, K::Nonzero | K::Unique | K::Compress(_)) {
                continue;
            }
            for k2 in [
                K::Flatten,
                K::Unsq(0),
                K::Cast(DType::F32),
                K::CmpS("eq_scalar", 0.0),
                K::Red("any", vec![], true),
                K::Red("all", vec![], false),
            ] {
                for s in [Src::Input, Src::Outside("off"), Src::View("perm")] {
                    visit(op_prog(&cs, d, vec![s; n], Some(k2.clone()), false, false));
                }
            }
        }
    }
    // sequences of views
    for d in [DType::F32, DType::U8] {
        for src in [Src::Input, Src::Outside("c"), Src::Outside("off"), Src::Outside("perm"), Src::Outside("stepoff"), Src::View("mid"), Src::Inside] {
            chains(if thorough { 4 } else { 3 }, &mut |c| {
                let names: Vec<&str> = c.iter().map(|x| x.0).collect();
                for end in ["", "+1", "all"] {
                    if end == "all" && c.len() < 2 {
                        continue;
                    }
                    let vals = vec![gen::values(&[2, 3, 2], G, d, 0)];
                    let (v2, c2) = (vals.clone(), c.clone());
                    visit(Prog {
                        key: format!("views/{}/{}/{}/{end}", dn(d), src_name(&src), names.join(".")),
                        group: "views".into(),
                        pre: Box::new(move || outside(&v2, &[d], &[src])),
                        body: Box::new(move |e| {
                            let Some(mut xs) = operands(&vals, &[d], &[src], e)? else { return Ok(None) };
                            let mut t = xs.remove(0);
                            let mut all = vec![t.clone()];
                            for (_, k) in &c2 {
                                t = run(k, &[&t])?.remove(0);
                                all.push(t.clone());
                            }
                            Ok(Some(match end {
                                "" => vec![t],
                                "+1" => run(&K::UnS("add_scalar", 1.0), &[&t])?,
                                _ => {
                                    all.reverse();
                                    all
                                },
                            }))
                        }),
                        tol: 0.0,
                        base: false,
                    });
                }
            });
        }
    }
    // gradients computed inside the program
    for cs in cases() {
        let n = cs.ins.len();
        for d in [DType::F32, DType::F64] {
            if !gen::applies(&cs, d) || cs.dtypes(d)[0] != d {
                continue;
            }
            for s in [Src::Input, Src::Outside("c"), Src::Outside("perm"), Src::Outside("off")] {
                let (vals, dts) = (cs.values(d), cs.dtypes(d));
                let (v2, d2) = (vals.clone(), dts.clone());
                let src: Vec<Src> = dts.iter().map(|x| if *x == d { s } else { Src::Input }).collect();
                let s2 = src.clone();
                let k = cs.k.clone();
                visit(Prog {
                    key: format!("grad/{}/{}/{}", dn(d), cs.key(), src_name(&s)),
                    group: format!("grad-{}", cs.group()),
                    pre: Box::new(move || outside(&v2, &d2, &s2)),
                    body: Box::new(move |e| {
                        let Some(xs) = operands(&vals, &dts, &src, e)? else { return Ok(None) };
                        for x in &xs {
                            if x.dtype().is_float() {
                                x.set_requires_grad(true)?;
                            }
                        }
                        let r = run(&k, &xs.iter().collect::<Vec<_>>())?.remove(0);
                        if !r.is_requires_grad() {
                            return Ok(None);
                        }
                        let loss = r.square()?.sum_all()?;
                        loss.backward()?;
                        let mut out = vec![loss];
                        for x in &xs {
                            if x.dtype().is_float() {
                                out.push(x.grad()?);
                            }
                        }
                        Ok(Some(out))
                    }),
                    tol: 16.0 * tolerance(&cs.k, d),
                    base: false,
                });
            }
            let _ = n;
        }
    }
    structure(visit);
}
fn structure(visit: &mut dyn FnMut(Prog)) {
    let v = |s: &[usize], salt: usize| gen::values(s, G, DType::F32, salt);
    let mut add = |key: &str, pre: Pre, body: Body| {
        visit(Prog { key: format!("structure/{key}"), group: "structure".into(), pre, body, tol: 4.0, base: true })
    };
    let d = DType::F32;
    let (a, b, c) = (v(&[2, 3], 0), v(&[2, 3], 1), v(&[3], 2));
    {
        let (a, b, c) = (a.clone(), b.clone(), c.clone());
        add(
            "unused-input-and-operation",
            none(),
            Box::new(move |e| {
                let x = e.input(&a, d)?;
                let _y = e.input(&b, d)?;
                let z = e.input(&c, d)?;
                let _unused = x.mul(&z)?.exp()?;
                Ok(Some(vec![x.add(&z)?]))
            }),
        );
    }
    for dup in [false, true] {
        let (a, b) = (a.clone(), b.clone());
        add(
            if dup { "same-result-twice" } else { "target-is-input" },
            none(),
            Box::new(move |e| {
                let x = e.input(&a, d)?;
                let y = e.input(&b, d)?;
                let s = x.sub(&y)?;
                Ok(Some(if dup { vec![s.clone(), x.clone(), s] } else { vec![y, s, x] }))
            }),
        );
    }
    for l in LAYOUTS {
        let (a1, a2) = (a.clone(), a.clone());
        add(
            &format!("target-is-constant-{l}"),
            Box::new(move || Ok(laid(&a1, d, l)?.map(|t| vec![t]))),
            Box::new(move |e| {
                let x = e.input(&a2, d)?;
                let k = e.pre.remove(0);
                Ok(Some(vec![x.add(&k)?, k.clone(), k.transpose(0, 1)?, k]))
            }),
        );
        let (a1, a2) = (a.clone(), a.clone());
        add(
            &format!("only-a-constant-{l}"),
            Box::new(move || Ok(laid(&a1, d, l)?.map(|t| vec![t]))),
            Box::new(move |e| {
                let _x = e.input(&a2, d)?;
                Ok(Some(vec![e.pre.remove(0)]))
            }),
        );
        // two views of one tensor, and the tensor itself, all constants
        let a1 = v(&[4, 3], 3);
        add(
            &format!("constants-share-storage-{l}"),
            Box::new(move || {
                let Some(t) = laid(&a1, d, l)? else { return Ok(None) };
                Ok(Some(vec![t.slice(0, 1, Some(3), 1)?, t.transpose(0, 1)?, t]))
            }),
            Box::new(move |e| {
                let t = e.pre.remove(2);
                let u = e.pre.remove(1);
                let s = e.pre.remove(0);
                Ok(Some(vec![s.add_scalar(1.0f32)?, u.mul(&u)?, t.sum(&[0], false)?, s.matmul(&u)?, s.flatten()?]))
            }),
        );
    }
    {
        let a = a.clone();
        let a1 = a.clone();
        add(
            "same-operand-twice",
            Box::new(move || Ok(Some(vec![tensor(&a1, d)?]))),
            Box::new(move |e| {
                let x = e.input(&a, d)?;
                let k = e.pre.remove(0);
                Ok(Some(vec![x.mul(&x)?, k.add(&k)?, Tensor::concat(&[&x, &k, &x, &k], 0)?]))
            }),
        );
    }
    {
        let a = a.clone();
        add(
            "many-constants-in-order",
            Box::new(move || (0..12).map(|i| tensor(&v(&[3], i), d)).collect::<HoduResult<Vec<_>>>().map(Some)),
            Box::new(move |e| {
                let mut x = e.input(&a, d)?;
                for k in std::mem::take(&mut e.pre).into_iter().rev() {
                    x = x.add(&k)?;
                }
                Ok(Some(vec![x]))
            }),
        );
    }
    {
        // the board is closed and opened again; what runs in between is not part of the program
        let (a, b) = (a.clone(), b.clone());
        add(
            "reopened",
            none(),
            Box::new(move |e| {
                let x = e.input(&a, d)?;
                let y = x.add_scalar(1.0f32)?;
                if e.capture {
                    let other = CaptureBoard::new();
                    other.open();
                    let o = Tensor::input("other", [2, 2], d)?;
                    let p = o.exp()?;
                    other.with_target("p", p);
                    let s = other.capture();
                    other.close();
                    assert_eq!((s.inputs.len(), s.nodes.len(), s.targets.len()), (1, 1, 1), "the other board");
                }
                Ok(Some(vec![y, tensor(&b, d)?]))
            }),
        );
    }
    for k in [1usize, 2] {
        let a = gen::values(&[2, 4], gen::R::Dist, DType::I32, 0);
        add(
            &format!("only-result-{k}-of-topk"),
            none(),
            Box::new(move |e| {
                let x = e.input(&a, DType::I32)?;
                let (v, i) = x.topk(2, -1, true, true)?;
                Ok(Some(vec![if k == 1 { v } else { i }]))
            }),
        );
    }
    for m in 1..8usize {
        let a = Nd::new(vec![7], [1, 2, 2, 3, 1, 4, 3].iter().map(|x| V::I(*x)).collect());
        add(
            &format!("results-{m}-of-unique"),
            none(),
            Box::new(move |e| {
                let x = e.input(&a, DType::I32)?;
                let (v, i, c) = x.unique()?;
                let all = [v, i, c];
                Ok(Some((0..3).filter(|i| m >> i & 1 == 1).map(|i| all[i].clone()).collect()))
            }),
        );
    }
    {
        let a = Nd::new(vec![7], [1, 2, 2, 3, 1, 4, 3].iter().map(|x| V::I(*x)).collect());
        add(
            "inverse-of-unique-used",
            none(),
            Box::new(move |e| {
                let x = e.input(&a, DType::I32)?;
                let (_, i, _) = x.unique()?;
                Ok(Some(vec![i.add_scalar(1i32)?]))
            }),
        );
    }
    for m in 1..8usize {
        let a = gen::values(&[4, 3], G, d, 0);
        add(
            &format!("pieces-{m}-of-split"),
            none(),
            Box::new(move |e| {
                let x = e.input(&a, d)?;
                let r = x.split(&[1, 2, 1], 0)?;
                Ok(Some((0..3).filter(|i| m >> i & 1 == 1).map(|i| r[i].clone()).collect()))
            }),
        );
    }
}
