//! C02: the physical layout of the operands never shows in the result.
//! Exhaustive over (operation of the catalogue, element type, assignment of a physical layout to every operand).
use mc::cat::*;
use mc::check::*;
use mc::gen::*;
use mc::nd::*;
use mc::obs::observe;
use mc::tio::*;

fn combos(n: usize, full: bool) -> Vec<Vec<&'static str>> {
    if full {
        let mut v: Vec<Vec<&str>> = vec![vec![]];
        for _ in 0..n {
            v = v.into_iter().flat_map(|p| LAYOUTS.iter().map(move |l| [p.clone(), vec![*l]].concat())).collect();
        }
        v
    } else {
        // every layout in every operand position, the others contiguous; then all operands alike
        let mut v = vec![];
        for i in 0..n {
            for l in LAYOUTS {
                let mut p = vec!["c"; n];
                p[i] = l;
                if !v.contains(&p) {
                    v.push(p);
                }
            }
        }
        for l in LAYOUTS {
            let p = vec![l; n];
            if !v.contains(&p) {
                v.push(p);
            }
        }
        v
    }
}

fn main() {
    let mut c = Check::new("C02", "model_checking");
    let th = c.thorough();
    for cs in cases() {
        for d in ALL_DT {
            if !applies(&cs, d) {
                continue;
            }
            let pre = format!("{}/{}", dn(d), cs.key());
            if !c.wants_prefix(&pre) {
                continue;
            }
            let vals = cs.values(d);
            let dts = cs.dtypes(d);
            let mut base: Option<Vec<(Nd, DType)>> = None;
            {
                let f = || -> Out {
                    let r = (|| -> HoduResult<Vec<(Nd, DType)>> {
                        let ts: Vec<Tensor> = vals.iter().zip(&dts).map(|(v, d)| tensor(v, *d)).collect::<HoduResult<_>>()?;
                        let xs: Vec<&Tensor> = ts.iter().collect();
                        run(&cs.k, &xs)?.iter().map(|t| Ok((read(t)?, t.dtype()))).collect()
                    })();
                    match r {
                        Ok(r) => {
                            let s = r.iter().map(|(a, _)| a.show()).collect::<Vec<_>>().join(" ");
                            base = Some(r);
                            Out::Ok(s)
                        },
                        Err(e) => Out::Bad("err", format!("contiguous operands: {e}")),
                    }
                };
                if c.replaying() {
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                } else {
                    c.case(&cs.group(), &format!("{pre}/base"), f);
                }
            }
            let Some(base) = base else { continue };
            let n = vals.len();
            for lay in combos(n, n == 1 || th || (n == 2 && matches!(d, DType::F32 | DType::I32 | DType::BOOL)) || (n == 3 && d == DType::F32)) {
                if lay.iter().all(|l| *l == "c") {
                    continue;
                }
                let key = format!("{pre}/{}", lay.join(","));
                if !c.wants(&key) {
                    continue;
                }
                c.case(&cs.group(), &key, || {
                    let mut ts = vec![];
                    for i in 0..n {
                        match laid(&vals[i], dts[i], lay[i]) {
                            Ok(Some(t)) => ts.push(t),
                            Ok(None) => return Out::Skip,
                            Err(e) => return Out::Bad("err", format!("building layout: {e}")),
                        }
                    }
                    let xs: Vec<&Tensor> = ts.iter().collect();
                    let got = match run(&cs.k, &xs) {
                        Ok(r) => r,
                        Err(e) => return Out::Bad("err", format!("{e}")),
                    };
                    if got.len() != base.len() {
                        return Out::Bad("wrong", format!("{} results, {} with contiguous operands", got.len(), base.len()));
                    }
                    let mut s = String::new();
                    for (g, (w, wd)) in got.iter().zip(&base) {
                        let r = match read(g) {
                            Ok(r) => r,
                            Err(e) => return Out::Bad("err", format!("reading the result: {e}")),
                        };
                        if g.dtype() != *wd {
                            return Out::Bad("wrong", format!("element type {}, {} with contiguous operands", g.dtype(), wd));
                        }
                        let t = tol(&cs.k, d).min(4.0);
                        if let Err(e) = agree(&r, w, *wd, t) {
                            return Out::Bad("wrong", e);
                        }
                        match observe(g, &r, *wd) {
                            Ok(o) => s += &o,
                            Err(e) => return Out::Bad("wrong", format!("readers of the result disagree: {e}")),
                        }
                    }
                    for i in 0..n {
                        match read(&ts[i]) {
                            Ok(r) if r == vals[i] => {},
                            _ => return Out::Bad("wrong", format!("operand {i} changed")),
                        }
                    }
                    Out::Ok(s)
                });
            }
        }
    }
    c.note("layouts", LAYOUTS.to_vec());
    c.finish("every (operation case, element type, layout of each operand) within the stated sets; the result on contiguous operands is the reference, readers are cross-checked")
}
