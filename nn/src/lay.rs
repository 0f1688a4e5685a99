//! The layers and losses by their definitions, in f64, on plain arrays.
#[derive(Clone, Debug, PartialEq)]
pub struct R {
    pub s: Vec<usize>,
    pub d: Vec<f64>,
}
pub fn n(s: &[usize]) -> usize {
    s.iter().product()
}
pub fn ixs(s: &[usize]) -> Vec<Vec<usize>> {
    mc::nd::indices(s)
}
impl R {
    pub fn from(s: &[usize], mut f: impl FnMut(&[usize]) -> f64) -> R {
        R { s: s.to_vec(), d: ixs(s).iter().map(|i| f(i)).collect() }
    }
    pub fn at(&self, ix: &[usize]) -> f64 {
        assert_eq!(ix.len(), self.s.len());
        let mut k = 0;
        for (i, m) in ix.iter().zip(&self.s) {
            assert!(i < m);
            k = k * m + i;
        }
        self.d[k]
    }
    pub fn map(&self, f: impl Fn(f64) -> f64) -> R {
        R { s: self.s.clone(), d: self.d.iter().map(|&x| f(x)).collect() }
    }
    pub fn scalar(x: f64) -> R {
        R { s: vec![], d: vec![x] }
    }
    pub fn mean(&self) -> f64 {
        self.d.iter().sum::<f64>() / self.d.len() as f64
    }
}
pub fn sig(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}
/// x [..., in] times w [out, in] transposed
pub fn linear(x: &R, w: &R, b: Option<&R>) -> R {
    let (o, k) = (w.s[0], w.s[1]);
    let r = x.s.len();
    assert_eq!(x.s[r - 1], k);
    let mut s = x.s.clone();
    s[r - 1] = o;
    R::from(&s, |ix| {
        let j = ix[r - 1];
        let mut xi = ix.to_vec();
        let mut t = b.map_or(0.0, |b| b.at(&[j]));
        for q in 0..k {
            xi[r - 1] = q;
            t += x.at(&xi) * w.at(&[j, q]);
        }
        t
    })
}
pub fn conv(x: &R, w: &R, b: Option<&R>, st: usize, pad: usize, dil: usize) -> R {
    let (nb, ci, co) = (x.s[0], x.s[1], w.s[0]);
    assert_eq!(w.s[1], ci);
    let ks = w.s[2..].to_vec();
    let mut s = vec![nb, co];
    for (l, k) in x.s[2..].iter().zip(&ks) {
        s.push((l + 2 * pad - dil * (k - 1) - 1) / st + 1);
    }
    R::from(&s, |ix| {
        let mut t = b.map_or(0.0, |b| b.at(&[ix[1]]));
        for c in 0..ci {
            'k: for k in ixs(&ks) {
                let mut xi = vec![ix[0], c];
                for (j, kk) in k.iter().enumerate() {
                    let p = ix[2 + j] * st + kk * dil;
                    if p < pad || p - pad >= x.s[2 + j] {
                        continue 'k;
                    }
                    xi.push(p - pad);
                }
                let mut wi = vec![ix[1], c];
                wi.extend(&k);
                t += x.at(&xi) * w.at(&wi);
            }
        }
        t
    })
}
pub fn convt(x: &R, w: &R, b: Option<&R>, st: usize, pad: usize, op: usize, dil: usize) -> R {
    let (nb, ci, co) = (x.s[0], x.s[1], w.s[1]);
    assert_eq!(w.s[0], ci);
    let ks = w.s[2..].to_vec();
    let mut s = vec![nb, co];
    for (l, k) in x.s[2..].iter().zip(&ks) {
        s.push((l - 1) * st + dil * (k - 1) + op + 1 - 2 * pad);
    }
    let mut out = R::from(&s, |ix| b.map_or(0.0, |b| b.at(&[ix[1]])));
    let str = mc::nd::strides(&s);
    for xi in ixs(&x.s) {
        for o in 0..co {
            'k: for k in ixs(&ks) {
                let mut oi = vec![xi[0], o];
                for (j, kk) in k.iter().enumerate() {
                    let p = xi[2 + j] * st + kk * dil;
                    if p < pad || p - pad >= s[2 + j] {
                        continue 'k;
                    }
                    oi.push(p - pad);
                }
                let mut wi = vec![xi[1], o];
                wi.extend(&k);
                let l: usize = oi.iter().zip(&str).map(|(a, b)| a * b).sum();
                out.d[l] += x.at(&xi) * w.at(&wi);
            }
        }
    }
    out
}
/// pooling over windows of every spatial dimension: `win` gives, per dimension and output position, the half-open window
/// in (possibly negative) input coordinates
pub fn pool(x: &R, out: &[usize], max: bool, win: &dyn Fn(usize, usize) -> (i64, i64)) -> R {
    let mut s = x.s[..2].to_vec();
    s.extend(out);
    R::from(&s, |ix| {
        let w: Vec<(i64, i64)> = (0..out.len()).map(|j| win(j, ix[2 + j])).collect();
        let size: Vec<usize> = w.iter().map(|(a, b)| (b - a) as usize).collect();
        let mut m = f64::NEG_INFINITY;
        let mut t = 0.0;
        'k: for k in ixs(&size) {
            let mut xi = ix[..2].to_vec();
            for j in 0..k.len() {
                let p = w[j].0 + k[j] as i64;
                if p < 0 || p >= x.s[2 + j] as i64 {
                    continue 'k;
                }
                xi.push(p as usize);
            }
            m = m.max(x.at(&xi));
            t += x.at(&xi);
        }
        if max { m } else { t / n(&size) as f64 }
    })
}
/// mean and population variance of every group of elements with the same key
pub fn moments(x: &R, key: &dyn Fn(&[usize]) -> Vec<usize>) -> std::collections::BTreeMap<Vec<usize>, (f64, f64)> {
    let mut g: std::collections::BTreeMap<Vec<usize>, Vec<f64>> = Default::default();
    for i in ixs(&x.s) {
        g.entry(key(&i)).or_default().push(x.at(&i));
    }
    g.into_iter()
        .map(|(k, v)| {
            let m = v.iter().sum::<f64>() / v.len() as f64;
            (k, (m, v.iter().map(|y| (y - m) * (y - m)).sum::<f64>() / v.len() as f64))
        })
        .collect()
}
pub fn norm(x: &R, key: &dyn Fn(&[usize]) -> Vec<usize>, eps: f64, affine: &dyn Fn(&[usize]) -> (f64, f64)) -> R {
    let m = moments(x, key);
    R::from(&x.s, |i| {
        let (mu, v) = m[&key(i)];
        let (g, b) = affine(i);
        (x.at(i) - mu) / (v + eps).sqrt() * g + b
    })
}
pub fn softmax_last(x: &R) -> R {
    let r = x.s.len() - 1;
    let l = x.s[r];
    R::from(&x.s, |i| {
        let row: Vec<f64> = (0..l)
            .map(|j| {
                let mut k = i.to_vec();
                k[r] = j;
                x.at(&k)
            })
            .collect();
        let m = row.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        (row[i[r]] - m).exp() / row.iter().map(|y| (y - m).exp()).sum::<f64>()
    })
}
/// softmax(q k' / sqrt(d)) v; `mask(batch index.., i, j)` is true where attention is not allowed
pub fn sdpa(q: &R, k: &R, v: &R, mask: &dyn Fn(&[usize]) -> bool) -> R {
    let r = q.s.len();
    let (lq, dk, lk, dv) = (q.s[r - 2], q.s[r - 1], k.s[r - 2], v.s[r - 1]);
    let mut s = q.s[..r - 2].to_vec();
    s.extend([lq, lk]);
    let w = R::from(&s, |i| {
        if mask(i) {
            return f64::NEG_INFINITY;
        }
        let mut a = i[..r - 1].to_vec();
        let mut b = i[..r - 2].to_vec();
        b.push(i[r - 1]);
        a.push(0);
        b.push(0);
        let mut t = 0.0;
        for e in 0..dk {
            a[r - 1] = e;
            b[r - 1] = e;
            t += q.at(&a) * k.at(&b);
        }
        t / (dk as f64).sqrt()
    });
    let w = softmax_last(&w);
    s[r - 1] = dv;
    R::from(&s, |i| {
        let mut a = i.to_vec();
        let mut b = i.to_vec();
        let mut t = 0.0;
        for j in 0..lk {
            a[r - 1] = j;
            b[r - 2] = j;
            t += w.at(&a) * v.at(&b);
        }
        t
    })
}
fn add(a: &R, b: &R) -> R {
    assert_eq!(a.s, b.s);
    R { s: a.s.clone(), d: a.d.iter().zip(&b.d).map(|(x, y)| x + y).collect() }
}
fn cols(x: &R, from: usize, len: usize) -> R {
    R::from(&[x.s[0], len], |i| x.at(&[i[0], from + i[1]]))
}
fn zip(a: &R, b: &R, f: impl Fn(f64, f64) -> f64) -> R {
    assert_eq!(a.s, b.s);
    R { s: a.s.clone(), d: a.d.iter().zip(&b.d).map(|(x, y)| f(*x, *y)).collect() }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rec {
    Tanh,
    Relu,
    Lstm,
    Gru,
}
/// one step of a recurrent cell: x [B, in], h and c [B, H]; p: w_ih, w_hh (, b_ih, b_hh)
pub fn cell(kind: Rec, x: &R, h: &R, c: &R, p: &[R]) -> (R, R) {
    let (bi, bh) = if p.len() == 4 { (Some(&p[2]), Some(&p[3])) } else { (None, None) };
    let (gi, gh) = (linear(x, &p[0], bi), linear(h, &p[1], bh));
    let hs = h.s[1];
    match kind {
        Rec::Tanh => (add(&gi, &gh).map(f64::tanh), c.clone()),
        Rec::Relu => (add(&gi, &gh).map(|x| x.max(0.0)), c.clone()),
        Rec::Lstm => {
            let g = add(&gi, &gh);
            let (i, f) = (cols(&g, 0, hs).map(sig), cols(&g, hs, hs).map(sig));
            let (gg, o) = (cols(&g, 2 * hs, hs).map(f64::tanh), cols(&g, 3 * hs, hs).map(sig));
            let c2 = add(&zip(&f, c, |a, b| a * b), &zip(&i, &gg, |a, b| a * b));
            (zip(&o, &c2, |a, b| a * b.tanh()), c2)
        },
        Rec::Gru => {
            let r = add(&cols(&gi, 0, hs), &cols(&gh, 0, hs)).map(sig);
            let z = add(&cols(&gi, hs, hs), &cols(&gh, hs, hs)).map(sig);
            let nn = add(&cols(&gi, 2 * hs, hs), &zip(&r, &cols(&gh, 2 * hs, hs), |a, b| a * b)).map(f64::tanh);
            let keep = zip(&z, h, |z, h| z * h);
            (add(&zip(&z, &nn, |z, n| (1.0 - z) * n), &keep), c.clone())
        },
    }
}
/// a stack of recurrent layers; returns the outputs, the last h and the last c
pub fn recurrent(kind: Rec, x: &R, h0: Option<&R>, c0: Option<&R>, layers: usize, hs: usize, bf: bool, p: &[R]) -> (R, R, R) {
    let (t, b) = if bf { (x.s[1], x.s[0]) } else { (x.s[0], x.s[1]) };
    let per = p.len() / layers;
    let init = |s: Option<&R>, l: usize| R::from(&[b, hs], |i| s.map_or(0.0, |s| s.at(&[l, i[0], i[1]])));
    let mut h: Vec<R> = (0..layers).map(|l| init(h0, l)).collect();
    let mut c: Vec<R> = (0..layers).map(|l| init(c0, l)).collect();
    let mut outs = vec![];
    for k in 0..t {
        let mut y = R::from(&[b, x.s[2]], |i| if bf { x.at(&[i[0], k, i[1]]) } else { x.at(&[k, i[0], i[1]]) });
        for l in 0..layers {
            let (h2, c2) = cell(kind, &y, &h[l], &c[l], &p[l * per..(l + 1) * per]);
            y = h2.clone();
            h[l] = h2;
            c[l] = c2;
        }
        outs.push(y);
    }
    let s = if bf { [b, t, hs] } else { [t, b, hs] };
    let o = R::from(&s, |i| if bf { outs[i[1]].at(&[i[0], i[2]]) } else { outs[i[0]].at(&[i[1], i[2]]) });
    let stack = |v: &[R]| R::from(&[layers, b, hs], |i| v[i[0]].at(&[i[1], i[2]]));
    let (h, c) = (stack(&h), stack(&c));
    (o, h, c)
}
/// -log softmax (or -x) at the target class along `dim`, averaged
pub fn nll(x: &R, t: &R, dim: usize, soft: bool) -> f64 {
    let c = x.s[dim];
    let mut sum = 0.0;
    for i in ixs(&t.s) {
        let row: Vec<f64> = (0..c)
            .map(|j| {
                let mut k = i.clone();
                k.insert(dim, j);
                x.at(&k)
            })
            .collect();
        let y = t.at(&i) as usize;
        if soft {
            let m = row.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            sum += m + row.iter().map(|v| (v - m).exp()).sum::<f64>().ln() - row[y];
        } else {
            sum -= row[y];
        }
    }
    sum / n(&t.s) as f64
}
