//! C01: every sequence of shape/view operations denotes the mathematically defined array.
//! Explicit-state search: a state is (physical layout, denoted array); every transition calls the real operation.
use mc::check::*;
use mc::nd::*;
use mc::obs::observe;
use mc::tio::*;
use std::collections::HashSet;

#[derive(Clone, Debug)]
enum Op {
    Reshape(Vec<usize>),
    View(Vec<usize>),
    Flatten,
    SqueezeAll,
    Squeeze(Vec<i32>),
    Unsqueeze(i32),
    Broadcast(Vec<usize>),
    BroadcastLeft(Vec<usize>),
    Transpose(i32, i32),
    T,
    Permute(Vec<i32>),
    Repeat(Vec<usize>),
    Slice(i32, i32, Option<i32>, i32),
    Flip(Vec<i32>),
    Contiguous,
    Split(Vec<usize>, i32, usize),
    Chunk(usize, i32, usize),
}

fn name(o: &Op) -> String {
    format!("{o:?}").replace(' ', "")
}
fn norm(d: i32, n: usize) -> Option<usize> {
    let k = if d < 0 { d + n as i32 } else { d };
    if k >= 0 && (k as usize) < n {
        Some(k as usize)
    } else {
        None
    }
}

/// The definition. None = must be rejected with an error.
fn model(a: &Nd, o: &Op) -> Option<Nd> {
    let n = a.shape.len();
    match o {
        Op::Reshape(s) | Op::View(s) => (numel(s) == a.data.len()).then(|| a.reshape(s)),
        Op::Flatten => Some(a.reshape(&[a.data.len()])),
        Op::SqueezeAll => {
            let s: Vec<usize> = a.shape.iter().copied().filter(|&x| x != 1).collect();
            Some(a.reshape(&s))
        },
        Op::Squeeze(d) => {
            let mut rm = HashSet::new();
            for &x in d {
                let k = norm(x, n)?;
                if a.shape[k] != 1 {
                    return None;
                }
                rm.insert(k);
            }
            let s: Vec<usize> = (0..n).filter(|i| !rm.contains(i)).map(|i| a.shape[i]).collect();
            Some(a.reshape(&s))
        },
        Op::Unsqueeze(d) => {
            let k = norm(*d, n + 1)?;
            let mut s = a.shape.clone();
            s.insert(k, 1);
            Some(a.reshape(&s))
        },
        Op::Broadcast(s) => {
            if s.len() < n {
                return None;
            }
            for i in 0..n {
                let t = s[i + s.len() - n];
                if a.shape[i] != t && a.shape[i] != 1 {
                    return None;
                }
            }
            Some(a.broadcast(s))
        },
        Op::BroadcastLeft(l) => {
            let mut s = l.clone();
            s.extend(&a.shape);
            Some(a.broadcast(&s))
        },
        Op::Transpose(i, j) => {
            if n < 2 {
                return None;
            }
            let (i, j) = (norm(*i, n)?, norm(*j, n)?);
            let mut p: Vec<usize> = (0..n).collect();
            p.swap(i, j);
            Some(a.permute(&p))
        },
        Op::T => {
            if n < 2 {
                return None;
            }
            let mut p: Vec<usize> = (0..n).collect();
            p.swap(n - 1, n - 2);
            Some(a.permute(&p))
        },
        Op::Permute(p) => {
            if p.len() != n {
                return None;
            }
            let q: Option<Vec<usize>> = p.iter().map(|&x| norm(x, n)).collect();
            let q = q?;
            if q.iter().collect::<HashSet<_>>().len() != n {
                return None;
            }
            Some(a.permute(&q))
        },
        Op::Repeat(r) => {
            if r.len() != n {
                return None;
            }
            // "repeat each element before moving to the next": along each dimension element i appears r times in a row
            let s: Vec<usize> = a.shape.iter().zip(r).map(|(x, y)| x * y).collect();
            Some(Nd::from_fn(&s, |ix| {
                let src: Vec<usize> = ix.iter().zip(r).map(|(i, r)| i / r).collect();
                a.at(&src)
            }))
        },
        Op::Slice(d, st, en, step) => {
            let k = norm(*d, n)?;
            if *step == 0 {
                return None;
            }
            let m = a.shape[k] as i64;
            let step = *step as i64;
            let adj = |x: i32| if x < 0 { x as i64 + m } else { x as i64 };
            let (lo, hi) = if step > 0 { (0, m) } else { (-1, m - 1) };
            let s = adj(*st).clamp(lo, hi);
            let e = match en {
                Some(e) => adj(*e).clamp(lo, hi),
                None => {
                    if step > 0 {
                        m
                    } else {
                        -1
                    }
                },
            };
            let mut len = 0;
            let mut p = s;
            while (step > 0 && p < e) || (step < 0 && p > e) {
                len += 1;
                p += step;
            }
            if len == 0 {
                return None;
            }
            Some(a.slice(k, s as usize, len, step))
        },
        Op::Flip(ds) => {
            let mut r = a.clone();
            for &d in ds {
                let k = norm(d, n)?;
                r = r.slice(k, r.shape[k].wrapping_sub(1), r.shape[k], -1);
            }
            Some(r)
        },
        Op::Contiguous => Some(a.clone()),
        Op::Split(sz, d, i) => {
            let k = norm(*d, n)?;
            if sz.iter().sum::<usize>() != a.shape[k] {
                return None;
            }
            Some(a.slice(k, sz[..*i].iter().sum(), sz[*i], 1))
        },
        Op::Chunk(c, d, i) => {
            let k = norm(*d, n)?;
            if *c == 0 {
                return None;
            }
            let m = a.shape[k];
            let step = m.div_ceil(*c);
            let (s, e) = (i * step, ((i + 1) * step).min(m));
            if s >= e {
                return None;
            }
            Some(a.slice(k, s, e - s, 1))
        },
    }
}

fn real(t: &Tensor, o: &Op) -> HoduResult<Tensor> {
    Ok(match o {
        Op::Reshape(s) => t.reshape(s)?,
        Op::View(s) => t.view(s)?,
        Op::Flatten => t.flatten()?,
        Op::SqueezeAll => t.squeeze::<i32>(&[])?,
        Op::Squeeze(d) => t.squeeze(d)?,
        Op::Unsqueeze(d) => t.unsqueeze(*d)?,
        Op::Broadcast(s) => t.broadcast(s)?,
        Op::BroadcastLeft(s) => t.broadcast_left(s)?,
        Op::Transpose(i, j) => t.transpose(*i, *j)?,
        Op::T => t.t()?,
        Op::Permute(p) => t.permute(p)?,
        Op::Repeat(r) => t.repeat(r)?,
        Op::Slice(d, s, e, st) => t.slice(*d, *s, *e, *st)?,
        Op::Flip(d) => t.flip(d)?,
        Op::Contiguous => t.contiguous()?,
        Op::Split(s, d, i) => t.split(s, *d)?.swap_remove(*i),
        Op::Chunk(c, d, i) => t.chunk(*c, *d)?.swap_remove(*i),
    })
}

fn alphabet(s: &[usize], full: bool) -> Vec<Op> {
    let n = s.len();
    let sz = numel(s);
    let mut v = vec![Op::Flatten, Op::SqueezeAll, Op::Contiguous];
    // factorizations
    for a in 1..=sz {
        if sz % a == 0 {
            v.push(Op::Reshape(vec![a, sz / a]));
            if full && a > 1 && sz / a > 1 && (sz / a) % 2 == 0 {
                v.push(Op::View(vec![a, 2, sz / a / 2]));
            }
        }
    }
    v.push(Op::Reshape(vec![sz + 1]));
    for d in 0..=n as i32 {
        v.push(Op::Unsqueeze(d));
    }
    v.push(Op::Unsqueeze(-1));
    v.push(Op::Unsqueeze(-(n as i32) - 1));
    v.push(Op::Unsqueeze(n as i32 + 1));
    for d in 0..n {
        if s[d] == 1 {
            v.push(Op::Squeeze(vec![d as i32]));
            v.push(Op::Squeeze(vec![d as i32 - n as i32]));
            let mut b = s.to_vec();
            b[d] = 3;
            v.push(Op::Broadcast(b));
        }
        let m = s[d] as i32;
        let di = d as i32;
        for (st, en, step) in [
            (0, None, 2),
            (1, None, 1),
            (1, Some(m), 2),
            (0, Some(m - 1), 1),
            (-2, None, 1),
            (0, Some(-1), 1),
            (-1, None, -1),
            (m - 1, Some(0), -1),
            (-1, Some(-m - 1), -2),
            (m - 2, None, -1),
            (0, Some(m + 5), 3),
            (m, None, 1),
            (1, Some(1), 1),
        ] {
            v.push(Op::Slice(if (st + step) % 2 == 0 { di } else { di - n as i32 }, st, en, step));
        }
        v.push(Op::Flip(vec![di]));
        v.push(Op::Flip(vec![di - n as i32]));
        if s[d] >= 2 {
            for i in 0..2 {
                v.push(Op::Split(vec![1, s[d] - 1], di, i));
                v.push(Op::Split(vec![s[d] - 1, 1], di - n as i32, i));
            }
        }
        v.push(Op::Chunk(2, di, 0));
        if s[d] > 1 {
            v.push(Op::Chunk(2, di, 1));
        }
    }
    if n > 0 {
        v.push(Op::Slice(n as i32, 0, None, 1));
        v.push(Op::Slice(0, 0, None, 0));
        v.push(Op::Slice(-(n as i32) - 1, 0, None, 1));
        v.push(Op::Squeeze(vec![-(n as i32) - 1]));
        v.push(Op::Squeeze(vec![n as i32]));
        let mut r = vec![1; n];
        r[n - 1] = 2;
        v.push(Op::Repeat(r.clone()));
        r[0] = 3;
        v.push(Op::Repeat(r));
    }
    let mut b = s.to_vec();
    b.insert(0, 2);
    v.push(Op::Broadcast(b));
    v.push(Op::BroadcastLeft(vec![2]));
    for i in 0..n as i32 {
        for j in 0..i {
            v.push(Op::Transpose(i, j));
            v.push(Op::Transpose(j - n as i32, i - n as i32));
        }
    }
    v.push(Op::T);
    v.push(Op::Transpose(0, n as i32));
    if n >= 2 {
        let rot: Vec<i32> = (0..n as i32).map(|i| (i + 1) % n as i32).collect();
        v.push(Op::Permute(rot));
        let rev: Vec<i32> = (0..n as i32).rev().map(|i| i - n as i32).collect();
        v.push(Op::Permute(rev));
        v.push(Op::Permute(vec![0; n]));
        v.push(Op::Flip(vec![0, n as i32 - 1]));
        if full && n >= 3 {
            for p in perms(n) {
                v.push(Op::Permute(p));
            }
        }
    }
    v
}
fn perms(n: usize) -> Vec<Vec<i32>> {
    if n == 1 {
        return vec![vec![0]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n as i32 - 1);
            out.push(q);
        }
    }
    out
}

/// Everything a user can read off the tensor must agree with the denoted array.

fn search(c: &mut Check, start: &[usize], d: DType, depth: usize, full: bool, cap: usize) {
    let n = numel(start);
    let a0 = Nd::new(
        start.to_vec(),
        (0..n).map(|i| if d.is_float() { V::F((i + 1) as f64) } else if d.is_bool() { V::B(i % 3 == 0) } else { V::I((i + 1) as i128) }).collect(),
    );
    let t0 = tensor(&a0, d).unwrap();
    let root = format!("{}{:?}", d, start).replace(' ', "");
    let mut seen: HashSet<u64> = HashSet::new();
    let mut frontier: Vec<(Tensor, Nd, String)> = vec![(t0.clone(), a0.clone(), root.clone())];
    c.case("start", &root, || match observe(&t0, &a0, d) {
        Ok(s) => Out::Ok(s),
        Err(e) => Out::Bad("wrong", e),
    });
    for lev in 0..depth {
        let mut next = vec![];
        for (t, a, hist) in &frontier {
            if !c.wants_prefix("") && !c.wants_prefix(hist) {
                continue;
            }
            let keep = full || lev == 0;
            for o in alphabet(&a.shape, keep) {
                let key = format!("{hist}/{}", name(&o));
                let m = model(a, &o);
                if m.as_ref().map(|m| m.data.len() > 96).unwrap_or(false) {
                    continue;
                }
                let mut ok: Option<(Tensor, Nd)> = None;
                let grp = format!("{}{}", name(&o).split(['(', '[']).next().unwrap(), if m.is_some() { "" } else { ":invalid" });
                let run = c.wants(&key);
                let replay_path = c.replaying() && !run;
                let f = || match (real(t, &o), &m) {
                    (Ok(r), Some(m)) => match observe(&r, m, d) {
                        Ok(s) => {
                            // the source must be untouched
                            match read(t) {
                                Ok(x) if x == *a => {},
                                _ => return Out::Bad("wrong", "the operand changed".into()),
                            }
                            ok = Some((r, m.clone()));
                            Out::Ok(s)
                        },
                        Err(e) => {
                            Out::Bad("wrong", e)
                        },
                    },
                    (Ok(r), None) => Out::Bad("accepted", format!("invalid operation accepted, shape {:?}", r.shape().dims())),
                    (Err(_), None) => Out::Ok("rejected".into()),
                    (Err(e), Some(_)) => Out::Bad("err", format!("valid operation failed: {e}")),
                };
                if replay_path {
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                } else {
                    c.case(&grp, &key, f);
                }
                if let Some((r, m)) = ok {
                    let st = (r.shape().dims().to_vec(), r.strides(), r.offset(), format!("{:?}", m.data));
                    if seen.insert(h64(&st)) || c.replaying() {
                        next.push((r, m, key));
                    }
                }
            }
        }
        c.note(&format!("{root} frontier depth {}", lev + 1), next.len());
        if lev + 1 < depth && next.len() > cap {
            c.note(&format!("{root} capped at depth {}", lev + 1), cap);
            c.capped = true;
            next.truncate(cap);
        }
        frontier = next;
    }
}

fn main() {
    let mut c = Check::new("C01", "model_checking");
    let th = c.thorough();
    let depth = if th { 4 } else { 3 };
    for s in [vec![2usize, 3], vec![6], vec![2, 1, 3], vec![3, 2, 2]] {
        search(&mut c, &s, DType::F32, depth, th, usize::MAX);
    }
    search(&mut c, &[], DType::F32, 2, true, usize::MAX);
    search(&mut c, &[1, 1], DType::F32, 3, true, usize::MAX);
    search(&mut c, &[2, 2, 2, 2], DType::F32, 2, true, usize::MAX);
    for d in ALL_DT {
        if d != DType::F32 {
            search(&mut c, &[2, 3], d, 2, th, usize::MAX);
        }
    }
    c.assumptions.push("states with equal shape, strides, offset and denoted elements have the same futures".into());
    c.finish("breadth-first over all operation sequences from each start shape; a state is (shape, strides, offset, denoted elements); every transition runs the real operation and compares every reader with the definition")
}
