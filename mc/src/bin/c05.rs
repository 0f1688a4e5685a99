//! C05: indexing, joining, padding, windowing and resizing against their definitions.
//! Exhaustive over index tensors, axes, widths, windows and modes within small bounds.
use mc::cat::*;
use mc::check::*;
use mc::gen::*;
use mc::nd::*;
use mc::tio::*;
use mc::vals::*;

fn key(part: &str, k: &K, d: DType, shapes: &[&[usize]], extra: &str) -> String {
    format!("{part}/{}/{}/{shapes:?}/{extra}", dn(d), name(k)).replace(' ', "")
}
fn iv(v: &[i64]) -> Nd {
    Nd::new(vec![v.len()], v.iter().map(|x| V::I(*x as i128)).collect())
}

fn main() {
    let mut c = Check::new("C05", "model_checking");
    let th = c.thorough();
    let data_types: Vec<DType> = if th { ALL_DT.to_vec() } else { vec![DType::F32, DType::I64, DType::U8, DType::BF16, DType::BOOL] };
    let lays: &[&str] = if th { &["c", "perm", "stepoff", "mid"] } else { &["c", "perm"] };

    // 1. index_select: every shape, every axis, every index vector over the whole signed range of the axis
    let mut sh = shapes(3, &[1, 2, 3]);
    sh.push(vec![2, 1, 3, 2]);
    sh.push(vec![4]);
    sh.push(vec![2, 4]);
    for s in sh.iter().filter(|s| !s.is_empty()) {
        let n = s.len();
        for a in -(n as i32)..n as i32 {
            let m = s[ax(a, n)] as i64;
            let al: Vec<i64> = (-m..m).collect();
            for len in 1..=if n <= 2 || th { 3 } else { 2 } {
                let k = K::IndexSelect(a);
                for &d in &data_types {
                    for (li, l) in lays.iter().enumerate() {
                        if li > 0 && (d != DType::F32 || n < 2) {
                            continue;
                        }
                        let key = key("index", &k, d, &[s], &format!("{len}/{l}"));
                        if !c.wants(&key) {
                            continue;
                        }
                        c.case("index_select", &key, || {
                            for ix in tuples(len, &al) {
                                match against(&k, &[values(s, R::G, d, 0), iv(&ix)], &[d, DType::I32], &[l], 0.0) {
                                    Out::Bad(x, e) => return Out::Bad(x, format!("indices {ix:?}: {e}")),
                                    Out::Skip => return Out::Skip,
                                    _ => {},
                                }
                            }
                            Out::Ok(key_of(s, len))
                        });
                        c.add((2 * m as u64).pow(len as u32));
                    }
                }
            }
            // index_put of every index vector without repetition
            let k = K::IndexPut(a);
            for len in 1..=(m as usize).min(3) {
                for &d in &data_types {
                    for l in lays {
                        if *l != "c" && (d != DType::F32 || n < 2) {
                            continue;
                        }
                        let key = key("index", &k, d, &[s], &format!("{len}/{l}"));
                        let mut vs = s.clone();
                        vs[ax(a, n)] = len;
                        c.case("index_put", &key, || {
                            for ix in tuples(len, &al) {
                                let mut u: Vec<i64> = ix.iter().map(|i| i.rem_euclid(m)).collect();
                                u.sort();
                                u.dedup();
                                if u.len() < len {
                                    continue;
                                }
                                match against(&k, &[values(s, R::G, d, 0), iv(&ix), values(&vs, R::G, d, 1)], &[d, DType::I32, d], &[l, "c", l], 0.0) {
                                    Out::Bad(x, e) => return Out::Bad(x, format!("indices {ix:?}: {e}")),
                                    Out::Skip => return Out::Skip,
                                    _ => {},
                                }
                            }
                            Out::Ok(key_of(s, len))
                        });
                        c.add((2 * m as u64).pow(len as u32));
                    }
                }
            }
        }
    }

    // 2. gather and scatter: every index tensor
    let mut combos: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for s in shapes(3, &[1, 2, 3]) {
        if s.is_empty() {
            continue;
        }
        // index tensors no larger than the data outside the axis; along the axis of any length up to 3
        for t in shapes(s.len(), &[1, 2, 3]) {
            if t.len() == s.len() && numel(&t) <= 4 && numel(&s) <= 12 {
                combos.push((s.clone(), t));
            }
        }
    }
    for (s, t) in &combos {
        let n = s.len();
        for a in -(n as i32)..n as i32 {
            let dd = ax(a, n);
            if (0..n).any(|i| i != dd && t[i] > s[i]) {
                continue;
            }
            if a < 0 && n == 3 && !th {
                continue;
            }
            let m = s[dd] as i64;
            let al: Vec<i64> = if numel(t) <= 3 { (-m..m).collect() } else { (0..m).collect() };
            let ks = [K::Gather(a), K::Scatter("scatter", a), K::Scatter("scatter_add", a), K::Scatter("scatter_max", a), K::Scatter("scatter_min", a)];
            for k in &ks {
                for &d in &data_types {
                    if !accepts(k, d) || (n == 3 && !th && !matches!(d, DType::F32 | DType::I64)) {
                        continue;
                    }
                    for l in lays {
                        if *l != "c" && (d != DType::F32 || n < 2) {
                            continue;
                        }
                        let key = key("gather", k, d, &[s, t], l);
                        if !c.wants(&key) {
                            continue;
                        }
                        c.case(&group(k), &key, || {
                            let x = values(s, R::G, d, 0);
                            let y = values(t, R::G, d, 2);
                            for ix in tuples(numel(t), &al) {
                                let i = iv(&ix).reshape(t);
                                let r = if matches!(k, K::Gather(_)) {
                                    against(k, &[x.clone(), i], &[d, DType::I32], &[l], 0.0)
                                } else {
                                    against(k, &[x.clone(), i, y.clone()], &[d, DType::I32, d], &[l, "c", l], tol(k, d).max(if d.is_float() { 2.0 } else { 0.0 }))
                                };
                                match r {
                                    Out::Bad(x, e) => return Out::Bad(x, format!("indices {ix:?}: {e}")),
                                    Out::Skip => return Out::Skip,
                                    _ => {},
                                }
                            }
                            Out::Ok(key_of(s, t.len()))
                        });
                        c.add((al.len() as u64).pow(numel(t) as u32));
                    }
                }
            }
        }
    }

    // every type at least once
    for d in ALL_DT {
        for k in [K::Gather(1), K::Scatter("scatter", 1), K::Scatter("scatter_add", 1), K::Scatter("scatter_max", 1), K::Scatter("scatter_min", 1), K::Gather(0), K::Scatter("scatter", 0), K::Scatter("scatter_add", 0), K::Scatter("scatter_max", 0), K::Scatter("scatter_min", 0), K::IndexSelect(1), K::IndexPut(1), K::Concat(1), K::Stack(0), K::Split(vec![1, 2], 1)] {
            if !accepts(&k, d) {
                continue;
            }
            let g = group(&k);
            c.case(&g, &format!("types/{}/{}", dn(d), name(&k)), || {
                let (x, y) = (values(&[3, 3], R::G, d, 0), values(&[3, 3], R::G, d, 2));
                let i = values(&[3, 3], R::Idx(3), DType::I32, 1);
                let t = if g == "scatter_add" { tol(&k, d).max(2.0) } else { 0.0 };
                match &k {
                    K::Gather(_) => against(&k, &[x, i], &[d, DType::I32], &[], t),
                    K::Scatter(..) => against(&k, &[x, i, y], &[d, DType::I32, d], &[], t),
                    K::IndexSelect(_) => against(&k, &[x, iv(&[2, 0, -1, 1])], &[d, DType::I32], &[], t),
                    K::IndexPut(_) => against(&k, &[x, iv(&[2, 0, 1]), y], &[d, DType::I32, d], &[], t),
                    K::Split(..) => against(&k, &[x], &[d], &[], t),
                    _ => against(&k, &[x, y], &[d, d], &[], t),
                }
            });
        }
    }

    // 3. one-hot, non-zero, unique, compress
    for s in shapes(2, &[1, 2, 3]) {
        let n = s.len();
        for cls in 1..=3usize {
            if numel(&s) > 4 && cls > 2 {
                continue;
            }
            for a in -(n as i32 + 1)..=n as i32 {
                for od in ALL_DT {
                    let k = K::Onehot(cls, a, od);
                    let key = key("onehot", &k, DType::I32, &[&s], "");
                    c.case("onehot", &key, || {
                        let al: Vec<i64> = (0..cls as i64).collect();
                        for ix in tuples(numel(&s), &al) {
                            if let Out::Bad(x, e) = against(&k, &[iv(&ix).reshape(&s)], &[DType::I32], &[], 0.0) {
                                return Out::Bad(x, format!("indices {ix:?}: {e}"));
                            }
                        }
                        Out::Ok(key_of(&s, cls))
                    });
                }
            }
        }
    }
    for d in ALL_DT {
        for s in shapes(3, &[1, 2, 3]) {
            if numel(&s) > 6 {
                continue;
            }
            let al: Vec<V> = if d.is_bool() {
                vec![V::B(false), V::B(true)]
            } else if d.is_float() {
                vec![V::F(0.0), V::F(-1.5)]
            } else {
                vec![V::I(0), V::I(3)]
            };
            for l in lays {
                let kk = key("nonzero", &K::Nonzero, d, &[&s], l);
                c.case("nonzero", &kk, || {
                    for v in tuples(numel(&s), &al) {
                        if let Out::Bad(x, e) = against(&K::Nonzero, &[Nd::new(s.clone(), v.clone())], &[d], &[l], 0.0) {
                            return Out::Bad(x, format!("data {v:?}: {e}"));
                        }
                    }
                    Out::Ok(key_of(&s, 0))
                });
                if !accepts(&K::Unique, d) {
                    continue;
                }
                let al3: Vec<V> = if d.is_bool() {
                    al.clone()
                } else if d.is_float() {
                    vec![V::F(-2.0), V::F(0.5), V::F(1.0)]
                } else {
                    let (lo, hi) = int_range(d);
                    vec![V::I(lo), V::I(hi), V::I(1)]
                };
                let kk = key("unique", &K::Unique, d, &[&s], l);
                c.case("unique", &kk, || {
                    for v in tuples(numel(&s), &al3) {
                        if let Out::Bad(x, e) = against(&K::Unique, &[Nd::new(s.clone(), v.clone())], &[d], &[l], 0.0) {
                            return Out::Bad(x, format!("data {v:?}: {e}"));
                        }
                    }
                    Out::Ok(key_of(&s, 0))
                });
            }
        }
    }
    for s in shapes(3, &[1, 2, 3]) {
        let n = s.len();
        if n == 0 {
            continue;
        }
        let mut axs: Vec<Option<i32>> = (-(n as i32)..n as i32).map(Some).collect();
        axs.push(None);
        for a in axs {
            let m = a.map_or(numel(&s), |a| s[ax(a, n)]);
            if m > 8 {
                continue;
            }
            let k = K::Compress(a);
            for &d in &data_types {
                for l in lays {
                    let key = key("compress", &k, d, &[&s], l);
                    c.case("compress", &key, || {
                        for len in [m] {
                            for v in tuples(len, &[V::B(false), V::B(true)]) {
                                let r = against(&k, &[values(&s, R::G, d, 0), Nd::new(vec![len], v.clone())], &[d, DType::BOOL], &[l], 0.0);
                                match r {
                                    Out::Bad(x, e) => return Out::Bad(x, format!("mask {v:?}: {e}")),
                                    Out::Skip => return Out::Skip,
                                    _ => {},
                                }
                            }
                        }
                        Out::Ok(key_of(&s, 0))
                    });
                }
            }
        }
    }

    // 4. joining and splitting
    for s in shapes(3, &[1, 2, 3]) {
        let n = s.len();
        for &d in &data_types {
            for l in lays {
                for a in -(n as i32)..n as i32 {
                    let dd = ax(a, n);
                    let m = s[dd];
                    for cnt in 1..=3usize {
                        for extra in tuples(cnt - 1, &[1usize, 2, 3]) {
                            let k = K::Concat(a);
                            let key = key("concat", &k, d, &[&s], &format!("{extra:?}/{l}"));
                            c.case("concat", &key, || {
                                let mut vs = vec![values(&s, R::G, d, 0)];
                                for (i, e) in extra.iter().enumerate() {
                                    let mut t = s.clone();
                                    t[dd] = *e;
                                    vs.push(values(&t, R::G, d, i + 1));
                                }
                                against(&k, &vs, &vec![d; cnt], &vec![*l; cnt], 0.0)
                            });
                        }
                    }
                    for sizes in compositions(m) {
                        let k = K::Split(sizes, a);
                        c.case("split", &key("split", &k, d, &[&s], l), || against(&k, &[values(&s, R::G, d, 0)], &[d], &[l], 0.0));
                    }
                    for ch in 1..=m {
                        let k = K::Chunk(ch, a);
                        c.case("chunk", &key("chunk", &k, d, &[&s], l), || against(&k, &[values(&s, R::G, d, 0)], &[d], &[l], 0.0));
                    }
                }
                for a in -(n as i32 + 1)..=n as i32 {
                    for cnt in 1..=3usize {
                        let k = K::Stack(a);
                        let key = key("stack", &k, d, &[&s], &format!("{cnt}/{l}"));
                        c.case("stack", &key, || {
                            let vs: Vec<Nd> = (0..cnt).map(|i| values(&s, R::G, d, i)).collect();
                            against(&k, &vs, &vec![d; cnt], &vec![*l; cnt], 0.0)
                        });
                    }
                }
            }
        }
    }
    for m in [5usize, 7, 8, 10] {
        for ch in 1..=m {
            for a in [0, 1] {
                let k = K::Chunk(ch, a);
                let s = if a == 0 { vec![m, 2] } else { vec![2, m] };
                c.case("chunk", &key("chunk", &k, DType::F32, &[&s], "c"), || against(&k, &[values(&s, R::G, DType::F32, 0)], &[DType::F32], &[], 0.0));
            }
        }
    }

    // 5. padding: every pair of widths per axis, every mode
    let w: Vec<(usize, usize)> = tuples(2, &[0usize, 1, 2]).into_iter().map(|v| (v[0], v[1])).collect();
    let wide: Vec<(usize, usize)> = tuples(2, &[0usize, 1, 2, 3, 4, 5]).into_iter().map(|v| (v[0], v[1])).collect();
    for m in ["constant", "reflect", "replicate", "circular", "edge", "wrap"] {
        for n in 1..=3usize {
            let dims: &[usize] = if n == 1 { &[1, 2, 3, 4] } else if n == 2 { &[1, 2, 3] } else { &[2, 3] };
            for s in shapes(n, dims).into_iter().filter(|s| s.len() == n) {
                if n == 3 && !th && s != [2, 3, 2] && s != [3, 2, 2] {
                    continue;
                }
                let ws = tuples(n, if n == 1 { &wide } else { &w });
                for p in ws {
                    let out_of_domain = (0..n).any(|i| {
                        let big = p[i].0.max(p[i].1);
                        match m {
                            "reflect" => big >= s[i] && big > 0,
                            "circular" | "wrap" => big > s[i],
                            _ => false,
                        }
                    });
                    if out_of_domain || n == 3 && !th && p.iter().filter(|q| **q != (0, 0)).count() > 2 {
                        continue;
                    }
                    let k = K::Pad(m, p, 1.5);
                    for &d in &data_types {
                        if !accepts(&k, d) || (n > 1 && !th && !matches!(d, DType::F32 | DType::U8)) {
                            continue;
                        }
                        for l in lays {
                            if *l != "c" && d != DType::F32 {
                                continue;
                            }
                            c.case(&group(&k), &key("pad", &k, d, &[&s], l), || against(&k, &[values(&s, R::G, d, 0)], &[d], &[l], 0.0));
                        }
                    }
                }
            }
        }
        for d in ALL_DT {
            let k = K::Pad(m, vec![(1, 2), (0, 1)], 1.0);
            if accepts(&k, d) {
                c.case(&group(&k), &key("pad", &k, d, &[&[3, 2]], "c"), || against(&k, &[values(&[3, 2], R::G, d, 0)], &[d], &[], 0.0));
            }
        }
    }

    // 6. reduce_window
    let pw: Vec<(usize, usize)> = vec![(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)];
    for m in ["sum", "mean", "max", "min"] {
        for n in 1..=3usize {
            let shs: Vec<Vec<usize>> = match n {
                1 => (1..=6).map(|x| vec![x]).collect(),
                2 => vec![vec![2, 3], vec![3, 4], vec![4, 4], vec![1, 5], vec![5, 3]],
                _ => vec![vec![2, 3, 3], vec![1, 3, 4], vec![3, 3, 2]],
            };
            for s in shs {
                for win in tuples(n, &[1usize, 2, 3]) {
                    for st in tuples(n, &[1usize, 2, 3]) {
                        if n == 3 && !th && (win[0] > 2 || st[0] > 2 || st[1] == 3 || st[2] == 3) {
                            continue;
                        }
                        for (pi, p) in tuples(n, &pw).into_iter().enumerate() {
                            if n == 3 && (pi % if th { 3 } else { 11 }) != 0 {
                                continue;
                            }
                            if (0..n).any(|i| s[i] + p[i].0 + p[i].1 < win[i] || (win[i] <= p[i].0.max(p[i].1))) {
                                continue;
                            }
                            let k = K::RWin(m, win.clone(), st.clone(), p);
                            for &d in &data_types {
                                if !accepts(&k, d) || (n > 1 && !th && !matches!(d, DType::F32)) {
                                    continue;
                                }
                                for l in lays {
                                    if *l != "c" && (d != DType::F32 || n == 1 || pi > 1) {
                                        continue;
                                    }
                                    c.case(&group(&k), &key("window", &k, d, &[&s], l), || against(&k, &[values(&s, R::G, d, 0)], &[d], &[l], tol(&k, d)));
                                }
                            }
                        }
                    }
                }
            }
        }
        for d in ALL_DT {
            for (s, win, st, p) in [(vec![4, 3], vec![2, 2], vec![2, 1], vec![(0, 0), (1, 0)]), (vec![6], vec![3], vec![2], vec![(1, 1)])] {
                let k = K::RWin(m, win, st, p);
                if accepts(&k, d) {
                    c.case(&group(&k), &key("window", &k, d, &[&s], "all"), || against(&k, &[values(&s, R::G, d, 0)], &[d], &[], tol(&k, d)));
                }
            }
        }
    }

    // 7. resize
    for m in ["nearest", "linear", "cubic"] {
        for ct in ["half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"] {
            let nms: &[&'static str] = if m == "nearest" { &["floor", "ceil", "round_prefer_floor", "round_prefer_ceil"] } else { &["floor"] };
            for nm in nms {
                let hi = if th { 7 } else { 5 };
                for i in 1..=hi {
                    for o in 1..=hi + 1 {
                        for (s, out) in [
                            (vec![1, 1, i, 3], vec![o, 3]),
                            (vec![1, 2, 2, i], vec![2, o]),
                            (vec![2, 1, i, 2], vec![o, 3]),
                            (vec![1, 1, i, i], vec![o, o]),
                        ] {
                            let k = K::Resize(out, m, ct, nm);
                            for d in [DType::F32, DType::F64, DType::F16] {
                                for l in lays {
                                    if *l != "c" && d != DType::F32 {
                                        continue;
                                    }
                                    c.case(&group(&k), &key("resize", &k, d, &[&s], l), || against(&k, &[values(&s, R::G, d, 0)], &[d], &[l], resize_tol(d)));
                                }
                            }
                        }
                        if m != "cubic" && i <= 3 && o <= 4 {
                            for (s, out) in [(vec![1, 1, i, 2, 3], vec![o, 2, 3]), (vec![1, 2, 2, i, 2], vec![3, o, 1]), (vec![2, 1, 2, 2, i], vec![2, 3, o])] {
                                let k = K::Resize(out, m, ct, nm);
                                c.case(&group(&k), &key("resize", &k, DType::F32, &[&s], "c"), || against(&k, &[values(&s, R::G, DType::F32, 0)], &[DType::F32], &[], 64.0));
                            }
                        }
                    }
                }
            }
        }
    }
    c.finish("every index vector over the signed range of every axis of every shape up to three dimensions of extents 1-3; every index tensor of up to four elements for gather and the scatter family; every mask and one-hot index tensor; every composition of an axis for split and every operand size for concat/stack; every padding width 0-2 (0-5 in one dimension) per axis and mode; every window and stride 1-3 with padding; every resize input and output size up to the bound with every coordinate and rounding mode");
}
fn resize_tol(d: DType) -> f64 {
    match d {
        DType::F64 => 64.0 * 2f64.powi(29), // interpolation weights are single precision
        DType::F32 => 64.0,
        _ => 8.0,
    }
}
fn key_of(s: &[usize], n: usize) -> String {
    format!("{s:?}{n}")
}
/// all ways to cut m into positive parts
fn compositions(m: usize) -> Vec<Vec<usize>> {
    if m == 0 {
        return vec![vec![]];
    }
    (1..=m).flat_map(|f| compositions(m - f).into_iter().map(move |mut r| {
        r.insert(0, f);
        r
    })).collect()
}
