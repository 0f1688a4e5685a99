//! C17: a data loader delivers every sample exactly once per epoch, over any history.
//! Every history (up to the depth bound) of taking batches, draining, resetting and injected failures of the data set or
//! of the collating function is run on the real loader, for every length, batch size, drop and shuffle setting, and
//! compared at every step with a model of the epoch. Data sets of tensors, subsets, concatenations, splits and samplers
//! are enumerated separately, value by value.
use hodu_core::error::{HoduError, HoduResult};
use hodu_core::types::DType;
use hodu_datasets::data::batch::{Batch, DataItem};
use hodu_datasets::data::dataloader::{default_collate, DataLoader};
use hodu_datasets::data::dataset::{random_split, ConcatDataset, Dataset, Subset, TensorDataset};
use hodu_datasets::data::sampler::{BatchSampler, RandomSampler, Sampler, SequentialSampler, SubsetSampler};
use mc::check::*;
use mc::nd::*;
use mc::tio::*;
use mc::vals::tuples;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

/// delivers its index as a number; fails on demand
#[derive(Clone)]
struct Rec {
    n: usize,
    fail: Rc<Cell<Option<usize>>>,
}
impl Dataset for Rec {
    fn len(&self) -> usize {
        self.n
    }
    fn get(&self, index: usize) -> HoduResult<DataItem> {
        if let Some(k) = self.fail.get() {
            if k == 0 {
                self.fail.set(None);
                return Err(HoduError::InternalError("injected".into()));
            }
            self.fail.set(Some(k - 1));
        }
        if index >= self.n {
            return Err(HoduError::InternalError(format!("index {index} of {}", self.n)));
        }
        Ok(DataItem::Single(tensor(&Nd::scalar(V::I(index as i128)), DType::I32)?))
    }
}
thread_local! {
    static BREAK: Cell<bool> = const { Cell::new(false) };
}
fn collate(items: Vec<DataItem>) -> HoduResult<Batch> {
    if BREAK.with(|b| b.replace(false)) {
        return Err(HoduError::InternalError("injected".into()));
    }
    default_collate(items)
}
fn ids(b: Batch) -> Result<Vec<usize>, String> {
    let t = b.into_single().ok_or("the batch is not a single tensor")?;
    let r = read(&t).map_err(|e| format!("the batch cannot be read: {e}"))?;
    if r.shape.len() != 1 {
        return Err(format!("batch of scalars has shape {:?}", r.shape));
    }
    Ok(r.data.iter().map(|v| v.i() as usize).collect())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
    Next,
    Drain,
    Reset,
    /// the data set fails while the next batch is collected
    FailGet,
    /// collating the next batch fails
    FailCol,
}
const ACTS: [A; 5] = [A::Next, A::Drain, A::Reset, A::FailGet, A::FailCol];
#[derive(Clone, Copy)]
struct Cfg {
    n: usize,
    b: usize,
    drop: bool,
    seed: Option<Option<u64>>,
}
/// samples of an epoch
fn total(c: &Cfg) -> usize {
    if c.drop { c.n / c.b * c.b } else { c.n }
}
type Orders = HashMap<u64, Vec<Option<usize>>>;
fn history(c: &Cfg, acts: &[A], orders: &mut Orders) -> Out {
    let fail = Rc::new(Cell::new(None));
    let ds = Rec { n: c.n, fail: fail.clone() };
    BREAK.with(|b| b.set(false));
    let mut bl = DataLoader::builder(ds).batch_size(c.b).drop_last(c.drop).collate_fn(collate);
    if let Some(s) = c.seed {
        bl = bl.shuffle(true);
        if let Some(s) = s {
            bl = bl.seed(s);
        }
    }
    let mut l = bl.build();
    // the model: what this epoch has delivered, and where a failed batch may have been skipped
    let mut pos = 0usize;
    let mut epoch = 0u64;
    let mut seen: Vec<usize> = vec![];
    let mut doubt: Option<usize> = None;
    let mut log = String::new();
    let mut fails = 0;
    let all = total(c);
    let take = |got: Result<Option<Batch>, String>, pos: &mut usize, seen: &mut Vec<usize>, doubt: &mut Option<usize>, epoch: u64, orders: &mut Orders, log: &mut String| -> Result<bool, String> {
        let want = c.b.min(all - (*pos).min(all));
        match got? {
            None => {
                if let Some(p) = doubt.take() {
                    if want > 0 && p >= all {
                        *pos = p;
                        return Ok(false);
                    }
                }
                if want > 0 { Err(format!("no batch although {} samples are left", all - *pos)) } else { Ok(false) }
            },
            Some(b) => {
                let v = ids(b)?;
                log.push_str(&format!("{v:?}"));
                if want == 0 {
                    return Err(format!("batch {v:?} after the epoch is over"));
                }
                let mut at = *pos;
                if v.len() != want && doubt.is_some() {
                    at = doubt.unwrap();
                }
                let ord = orders.entry(epoch).or_insert_with(|| vec![None; c.n]);
                // after a failure the loader may go on with the failed batch or with the one after it
                if let Some(d) = doubt.take() {
                    if c.seed.is_none() && v.first() == Some(&d) {
                        at = d;
                    }
                    if c.seed.is_some() && ord.get(d).and_then(|x| *x) == v.first().copied() {
                        at = d;
                    }
                }
                let want = c.b.min(all - at.min(all));
                if v.len() != want {
                    return Err(format!("batch {v:?} of {} samples, expected {want}", v.len()));
                }
                for (i, &x) in v.iter().enumerate() {
                    if x >= c.n {
                        return Err(format!("sample {x} of {}", c.n));
                    }
                    if seen.contains(&x) {
                        return Err(format!("sample {x} delivered twice in epoch {epoch}"));
                    }
                    seen.push(x);
                    if c.seed.is_none() && x != at + i {
                        return Err(format!("sample {x} at position {} without shuffling", at + i));
                    }
                    match ord[at + i] {
                        None => ord[at + i] = Some(x),
                        Some(y) if y != x => return Err(format!("the same seed gave sample {y} and sample {x} at position {} of epoch {epoch}", at + i)),
                        _ => {},
                    }
                }
                *pos = at + v.len();
                Ok(true)
            },
        }
    };
    macro_rules! tri {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => return Out::Bad("wrong", format!("{e}; history {log}")),
            }
        };
    }
    for &a in acts {
        log.push_str(&format!(" {a:?}"));
        match a {
            A::Next => {
                let h = l.has_next();
                let g = l.next_batch().map_err(|e| format!("next_batch failed: {e}"));
                if let Ok(x) = &g {
                    if x.is_some() != h {
                        return Out::Bad("wrong", format!("has_next says {h}, next_batch gives {}; history {log}", x.is_some()));
                    }
                }
                tri!(take(g, &mut pos, &mut seen, &mut doubt, epoch, orders, &mut log));
            },
            A::Drain => {
                let got: Vec<HoduResult<Batch>> = l.iter_batches().take(c.n + 2).collect();
                for g in got {
                    tri!(take(g.map(Some).map_err(|e| format!("iterating failed: {e}")), &mut pos, &mut seen, &mut doubt, epoch, orders, &mut log));
                }
                tri!(take(Ok(None), &mut pos, &mut seen, &mut doubt, epoch, orders, &mut log));
            },
            A::Reset => {
                l.reset();
                pos = 0;
                doubt = None;
                seen.clear();
                epoch += 1;
            },
            A::FailGet | A::FailCol => {
                let want = c.b.min(all - pos.min(all));
                if doubt.is_some() {
                    return Out::Skip;
                }
                if want == 0 {
                    continue;
                }
                // the failing sample is one in the middle, the last and the first of its batch in turn
                let at = [want / 2, want - 1, 0][fails % 3];
                fails += 1;
                if a == A::FailGet { fail.set(Some(at)) } else { BREAK.with(|b| b.set(true)) }
                match l.next_batch() {
                    Err(_) => {},
                    Ok(_) => return Out::Bad("wrong", format!("a failing batch was not reported; history {log}")),
                }
                doubt = Some(pos + want);
            },
        }
        if doubt.is_none() && l.has_next() != (pos < all) {
            return Out::Bad("wrong", format!("has_next gives {} after {pos} of {all} samples; history {log}", l.has_next()));
        }
        if l.num_batches() != all.div_ceil(c.b) || l.batch_size() != c.b {
            return Out::Bad("wrong", format!("num_batches {}, expected {}", l.num_batches(), all.div_ceil(c.b)));
        }
        if pos >= all && doubt.is_none() && !acts.iter().any(|a| matches!(a, A::FailGet | A::FailCol)) && seen.len() != all {
            return Out::Bad("wrong", format!("{} samples delivered of {all}", seen.len()));
        }
    }
    Out::Ok(log)
}

fn rows(b: &Nd) -> Vec<Nd> {
    (0..b.shape[0])
        .map(|i| {
            let r = b.slice(0, i, 1, 1);
            r.reshape(&b.shape[1..].to_vec())
        })
        .collect()
}
/// one epoch of a data set of rows, compared value by value
fn epoch<D: Dataset>(l: &mut DataLoader<D>, n: usize, b: usize, drop: bool, shuffle: bool, want: &[(Nd, Option<Nd>)]) -> Result<String, String> {
    let mut got: Vec<(Nd, Option<Nd>)> = vec![];
    let mut sizes = vec![];
    for x in l.iter_batches().take(n + 2) {
        let (d, lab) = match x.map_err(|e| format!("batch: {e}"))? {
            Batch::Single(t) => (t, None),
            Batch::Pair(t, u) => (t, Some(u)),
            Batch::Multiple(_) => return Err("multiple".into()),
        };
        let d = read(&d).map_err(|e| e.to_string())?;
        let lab = match lab {
            None => None,
            Some(u) => Some(read(&u).map_err(|e| e.to_string())?),
        };
        if d.shape.is_empty() || lab.as_ref().is_some_and(|u| u.shape.first() != d.shape.first()) {
            return Err(format!("batch shape {:?}, labels {:?}", d.shape, lab.map(|u| u.shape)));
        }
        sizes.push(d.shape[0]);
        let rl = lab.as_ref().map(rows);
        for (i, r) in rows(&d).into_iter().enumerate() {
            got.push((r, rl.as_ref().map(|v| v[i].clone())));
        }
    }
    let all = if drop { n / b * b } else { n };
    let mut exp: Vec<usize> = vec![b; all / b];
    if all % b > 0 {
        exp.push(all % b);
    }
    if sizes != exp {
        return Err(format!("batch sizes {sizes:?}, expected {exp:?}"));
    }
    if !shuffle {
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            if g != w {
                return Err(format!("sample {i}: got {} expected {}", g.0.show(), w.0.show()));
            }
        }
    } else {
        // every sample at most once, and only samples of the set
        let mut left: Vec<&(Nd, Option<Nd>)> = want.iter().collect();
        for g in &got {
            match left.iter().position(|w| *w == g) {
                Some(k) => {
                    left.remove(k);
                },
                None => return Err(format!("sample {} is not in the set or was delivered twice", g.0.show())),
            }
        }
        if left.len() != n - all {
            return Err(format!("{} samples missing", left.len()));
        }
    }
    Ok(format!("{sizes:?}"))
}

fn main() {
    let mut c = Check::new("C17", "model_checking");
    let th = c.thorough();
    // ---- histories
    let maxn = if th { 7 } else { 6 };
    let depth = if th { 6 } else { 5 };
    let seeds: Vec<Option<Option<u64>>> = vec![None, Some(None), Some(Some(7)), Some(Some(u64::MAX)), Some(Some(u64::MAX - 1))];
    let hist = tuples(depth, &ACTS);
    for n in 0..=maxn {
        for b in [1, 2, 3, 4, 5, 7, usize::MAX] {
            for drop in [false, true] {
                for (si, &seed) in seeds.iter().enumerate() {
                    let cfg = Cfg { n, b, drop, seed };
                    let pre = format!("loader len={n} batch={b} drop={drop} shuffle={}", match seed { None => "no".into(), Some(None) => "yes".into(), Some(Some(s)) => format!("{s}") });
                    if !c.wants_prefix(&pre) {
                        continue;
                    }
                    // the order of an epoch is one thing, over all histories
                    let mut orders = Orders::new();
                    for h in &hist {
                        let key = format!("{pre} {h:?}");
                        c.case("history", &key, || history(&cfg, h, &mut orders));
                        c.add(h.len() as u64);
                    }
                    // shuffling does shuffle: not every epoch of a larger set has the same order
                    if si > 0 && n >= 5 && !drop && b == 1 {
                        let key = format!("{pre} orders");
                        c.case("order", &key, || {
                            let mut o = Orders::new();
                            match history(&cfg, &[A::Drain, A::Reset, A::Drain, A::Reset, A::Drain, A::Reset, A::Drain], &mut o) {
                                Out::Ok(_) => {},
                                x => return x,
                            }
                            if (1..4).all(|e| o[&e] == o[&0]) {
                                return Out::Bad("wrong", format!("four epochs in the same order {:?}", o[&0]));
                            }
                            Out::Ok(format!("{:?}", o[&1]))
                        });
                    }
                }
            }
        }
    }
    // ---- tensors, subsets, concatenations
    let data = |n: usize, rest: &[usize], d: DType, k: usize| {
        let mut s = vec![n];
        s.extend(rest);
        let mut i = 0;
        Nd::from_fn(&s, |_| {
            i += 1;
            if d.is_bool() { V::B((i * i + k) % 3 == 0) } else if d.is_float() { V::F((i + k) as f64) } else { V::I((i + k) as i128) }
        })
    };
    let rests: Vec<Vec<usize>> = vec![vec![], vec![1], vec![2], vec![2, 2], vec![1, 3]];
    for n in 0..=(if th { 6 } else { 4 }) {
        for rest in &rests {
            for d in [DType::F32, DType::U8, DType::BOOL, DType::BF16, DType::I64] {
                for lay in LAYOUTS {
                    for labels in [0, 1, 2] {
                        let key = format!("tensors len={n} item={rest:?} {} {lay} labels={labels}", dn(d));
                        let a = data(n, rest, d, 0);
                        let u = data(n, if labels == 2 { &[3] } else { &[] }, DType::I32, 40);
                        c.case("tensors", &key, || {
                            let mut seen = String::new();
                            for (b, drop, shuffle) in [(1, false, false), (2, false, false), (2, true, false), (3, false, true), (2, true, true), (5, false, true)] {
                                let Ok(Some(t)) = laid(&a, d, lay) else { return Out::Skip };
                                let ds = if labels == 0 {
                                    TensorDataset::from_tensor(t)
                                } else {
                                    let Ok(Some(v)) = laid(&u, DType::I32, if labels == 2 { lay } else { "c" }) else { return Out::Skip };
                                    TensorDataset::from_tensors(t, v)
                                };
                                if Dataset::len(&ds) != n || ds.is_empty() != (n == 0) {
                                    return Out::Bad("wrong", format!("length {}", Dataset::len(&ds)));
                                }
                                let want: Vec<(Nd, Option<Nd>)> = rows(&a).into_iter().enumerate().map(|(i, r)| (r, if labels == 0 { None } else { Some(rows(&u)[i].clone()) })).collect();
                                let mut l = DataLoader::builder(ds).batch_size(b).drop_last(drop).shuffle(shuffle).seed(3).build();
                                for e in 0..2 {
                                    match epoch(&mut l, n, b, drop, shuffle, &want) {
                                        Ok(s) => seen.push_str(&s),
                                        Err(x) => return Out::Bad("wrong", format!("batch={b} drop={drop} shuffle={shuffle} epoch {e}: {x}")),
                                    }
                                    l.reset();
                                }
                            }
                            Out::Ok(seen)
                        });
                    }
                }
            }
        }
    }
    // every subset by every list of indices, of every concatenation of small parts
    let mut parts: Vec<Vec<usize>> = (0..=3).flat_map(|k| tuples(k, &[0usize, 1, 2, 3])).collect();
    parts.extend((4..=6).flat_map(|k| tuples(k, &[0usize, 1, 2])).filter(|p| p.len() > 3));
    parts.sort();
    parts.dedup();
    for p in &parts {
        let key = format!("concat {p:?}");
        let n: usize = p.iter().sum();
        c.case("concat", &key, || {
            let mut all = vec![];
            let mut sets = vec![];
            for (k, &m) in p.iter().enumerate() {
                let a = data(m, &[2], DType::F32, 100 * k);
                all.extend(rows(&a).into_iter().map(|r| (r, None)));
                match laid(&a, DType::F32, if m == 0 { "c" } else { ["c", "off", "perm"][k % 3] }) {
                    Ok(Some(t)) => sets.push(TensorDataset::from_tensor(t)),
                    _ => return Out::Skip,
                }
            }
            let ds = ConcatDataset::new(sets);
            if Dataset::len(&ds) != n {
                return Out::Bad("wrong", format!("length {}, expected {n}", Dataset::len(&ds)));
            }
            for bad in [n, n + 1, usize::MAX] {
                if Dataset::get(&ds, bad).is_ok() {
                    return Out::Bad("wrong", format!("sample {bad} of {n}"));
                }
            }
            for (b, drop, shuffle) in [(1, false, false), (2, true, false)] {
                let mut l = DataLoader::new_with_config(sub(&ds), b, shuffle, drop, default_collate, None);
                if let Err(e) = epoch(&mut l, n, b, drop, shuffle, &all) {
                    return Out::Bad("wrong", e);
                }
            }
            Out::Ok(format!("{n}"))
        });
    }
    for n in 1..=3usize {
        for len in 0..=3 {
            for ix in tuples(len, &(0..=n).collect::<Vec<_>>()) {
                let key = format!("subset of {n} {ix:?}");
                c.case("subset", &key, || {
                    let a = data(n, &[2], DType::F32, 0);
                    let Ok(t) = tensor(&a, DType::F32) else { return Out::Skip };
                    let ds = Subset::new(TensorDataset::from_tensor(t), ix.clone());
                    if Dataset::len(&ds) != len || Dataset::get(&ds, len).is_ok() {
                        return Out::Bad("wrong", format!("length {}", Dataset::len(&ds)));
                    }
                    for (i, &j) in ix.iter().enumerate() {
                        match (Dataset::get(&ds, i), j < n) {
                            (Ok(DataItem::Single(t)), true) => match read(&t) {
                                Ok(r) if r == rows(&a)[j] => {},
                                r => return Out::Bad("wrong", format!("sample {i}: {:?}", r.map(|r| r.show()))),
                            },
                            (Err(_), false) => {},
                            (r, _) => return Out::Bad("wrong", format!("sample {i} (index {j} of {n}): {}", if r.is_ok() { "given" } else { "refused" })),
                        }
                    }
                    Out::Ok(format!("{ix:?}"))
                });
            }
        }
    }
    // ---- splits and samplers
    for n in 0..=12usize {
        for q in 0..=20u32 {
            for seed in [None, Some(0), Some(5), Some(u64::MAX)] {
                let f = q as f32 / 20.0;
                let key = format!("split {n} {f} {seed:?}");
                c.case("split", &key, || {
                    let ds = Rec { n, fail: Rc::new(Cell::new(None)) };
                    let (a, b) = random_split(ds.clone(), f, seed);
                    let get = |d: &Subset<Rec>| -> Result<Vec<usize>, String> {
                        (0..Dataset::len(d))
                            .map(|i| match Dataset::get(d, i) {
                                Ok(DataItem::Single(t)) => read(&t).map(|r| r.data[0].i() as usize).map_err(|e| e.to_string()),
                                Ok(_) => Err("kind".into()),
                                Err(e) => Err(e.to_string()),
                            })
                            .collect()
                    };
                    let (x, y) = match (get(&a), get(&b)) {
                        (Ok(x), Ok(y)) => (x, y),
                        (x, y) => return Out::Bad("wrong", format!("{x:?} {y:?}")),
                    };
                    let exact = n as f64 * q as f64 / 20.0;
                    if (x.len() as f64 - exact).abs() > 1.0 || x.len() as f64 > exact.ceil() {
                        return Out::Bad("wrong", format!("{} of {n} samples for a share of {f}", x.len()));
                    }
                    let mut z: Vec<usize> = x.iter().chain(&y).copied().collect();
                    z.sort();
                    if z != (0..n).collect::<Vec<_>>() {
                        return Out::Bad("wrong", format!("parts {x:?} and {y:?} of {n}"));
                    }
                    let (a2, b2) = random_split(ds, f, seed);
                    if get(&a2).as_ref() != Ok(&x) || get(&b2).as_ref() != Ok(&y) {
                        return Out::Bad("wrong", "the same seed gives another split".into());
                    }
                    Out::Ok(format!("{x:?}"))
                });
            }
        }
    }
    for n in 0..=10usize {
        let list: Vec<usize> = (0..n).map(|i| (i * 3 + 1) % 7).collect();
        for kind in ["seq", "random", "given", "subset"] {
            for seed in [None, Some(1), Some(u64::MAX)] {
                let mk = || -> Box<dyn Sampler> {
                    match kind {
                        "seq" => Box::new(SequentialSampler::new(n)),
                        "random" => Box::new(RandomSampler::new(n, seed)),
                        "given" => Box::new(RandomSampler::with_indices(list.clone(), seed)),
                        _ => Box::new(SubsetSampler::new(list.clone())),
                    }
                };
                let key = format!("sampler {kind} {n} {seed:?}");
                c.case("sampler", &key, || {
                    let s = mk();
                    let v: Vec<usize> = s.iter().collect();
                    let again: Vec<usize> = s.iter().collect();
                    let other: Vec<usize> = mk().iter().collect();
                    if v != again || v != other || s.len() != n || s.is_empty() != (n == 0) {
                        return Out::Bad("wrong", format!("{v:?} {again:?} {other:?} {}", s.len()));
                    }
                    let want: Vec<usize> = if kind == "seq" || kind == "random" { (0..n).collect() } else { list.clone() };
                    let (mut x, mut y) = (v.clone(), want.clone());
                    if kind == "random" || kind == "given" {
                        x.sort();
                        y.sort();
                    }
                    if x != y {
                        return Out::Bad("wrong", format!("{v:?}, expected {want:?}"));
                    }
                    Out::Ok(format!("{v:?}"))
                });
                for b in 1..=n + 2 {
                    for drop in [false, true] {
                        let key = format!("batches {kind} {n} {seed:?} size={b} drop={drop}");
                        c.case("batches", &key, || {
                            let flat: Vec<usize> = mk().iter().collect();
                            let got = match kind {
                                "seq" => BatchSampler::new(SequentialSampler::new(n), b, drop).batches(),
                                "random" => BatchSampler::new(RandomSampler::new(n, seed), b, drop).batches(),
                                "given" => BatchSampler::new(RandomSampler::with_indices(list.clone(), seed), b, drop).batches(),
                                _ => BatchSampler::new(SubsetSampler::new(list.clone()), b, drop).batches(),
                            };
                            let want: Vec<Vec<usize>> = flat.chunks(b).filter(|x| !drop || x.len() == b).map(|x| x.to_vec()).collect();
                            if got != want { Out::Bad("wrong", format!("{got:?}, expected {want:?}")) } else { Out::Ok(format!("{got:?}")) }
                        });
                    }
                }
            }
        }
    }
    c.note("bounds", serde_json::json!({"longest data set": maxn, "history depth": depth, "histories per configuration": hist.len()}));
    c.finish("every history to the depth bound over taking a batch, draining, resetting and failing, for every length, batch size, drop and shuffle setting: batches, has_next and num_batches equal the model, the order is one per seed and epoch, no sample twice, none missing")
}
/// a view of a data set that is not cloneable
struct ByRef<'a, D: Dataset>(&'a D);
impl<D: Dataset> Dataset for ByRef<'_, D> {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn get(&self, i: usize) -> HoduResult<DataItem> {
        self.0.get(i)
    }
}
fn sub<D: Dataset>(d: &D) -> ByRef<'_, D> {
    ByRef(d)
}
