//! C09: gradients, contexts and lifetimes over histories.
//! Explicit-state search over histories of user actions (create, switch tracking, operate, clone, drop, backward,
//! zero_grad, take a gradient, open and close contexts). Every transition is executed on the real library and on a
//! reference model of a tape per context; the full observable state is compared, the number of live tensors included.
use mc::check::*;
use mc::nd::*;
use mc::tio::*;
use hodu_core::tensor::GradientContext;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum A {
    New(bool),
    Drop(usize),
    Dup(usize),
    Req(usize, bool),
    Tanh(usize),
    MulS(usize),
    View(usize),
    Split(usize),
    Mul(usize, usize),
    Add(usize, usize),
    /// product with a temporary constant that is dropped at once
    MulC(usize),
    /// sum with a temporary leaf that requires a gradient and is dropped at once
    AddL(usize),
    Back(usize),
    Zero(usize),
    Grad(usize),
    Open,
    Close(usize),
}

const SLOTS: usize = 4;
type Id = usize;
#[derive(Clone)]
struct Node {
    v: [f64; 2],
    req: bool,
    grad: Option<Id>,
    /// a gradient: its own tracking is not specified
    isgrad: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Rule {
    Tanh,
    Scale,
    Pass,
    Swap,
    Mul,
    Add,
}
#[derive(Clone)]
struct Entry {
    rule: Rule,
    ins: Vec<Id>,
    /// operands that required a gradient when the operation ran: only these receive one
    tracked: Vec<bool>,
    out: Id,
}
#[derive(Clone)]
struct M {
    nodes: BTreeMap<Id, Node>,
    next: Id,
    leaves: usize,
    slots: [Option<Id>; SLOTS],
    /// tapes: 0 is the default context, others by creation order; None when closed
    tapes: Vec<Option<Vec<Entry>>>,
    /// open contexts, in order of activation
    stack: Vec<usize>,
}
impl M {
    fn new() -> M {
        M { nodes: BTreeMap::new(), next: 0, leaves: 0, slots: [None; SLOTS], tapes: vec![Some(vec![])], stack: vec![] }
    }
    fn active(&self) -> usize {
        self.stack.last().copied().unwrap_or(0)
    }
    fn add(&mut self, v: [f64; 2], req: bool, isgrad: bool) -> Id {
        self.nodes.insert(self.next, Node { v, req, grad: None, isgrad });
        self.next += 1;
        self.next - 1
    }
    fn leaf(&mut self, req: bool) -> Id {
        let k = self.leaves;
        self.leaves += 1;
        self.add([0.5 + 0.25 * k as f64, -0.75 + 0.5 * k as f64], req, false)
    }
    fn free(&self) -> Option<usize> {
        self.slots.iter().position(|s| s.is_none())
    }
    fn op(&mut self, rule: Rule, ins: Vec<Id>) -> Id {
        let x: Vec<[f64; 2]> = ins.iter().map(|i| self.nodes[i].v).collect();
        let v = match rule {
            Rule::Tanh => x[0].map(f64::tanh),
            Rule::Scale => x[0].map(|a| 1.5 * a),
            Rule::Pass => x[0],
            Rule::Swap => [x[0][1], x[0][0]],
            Rule::Mul => [x[0][0] * x[1][0], x[0][1] * x[1][1]],
            Rule::Add => [x[0][0] + x[1][0], x[0][1] + x[1][1]],
        };
        let req = ins.iter().any(|i| self.nodes[i].req);
        let out = self.add(v, req, false);
        if req {
            let a = self.active();
            let tracked = ins.iter().map(|i| self.nodes[i].req).collect();
            if let Some(t) = &mut self.tapes[a] {
                t.push(Entry { rule, ins, tracked, out });
            }
        }
        out
    }
    fn set_grad(&mut self, id: Id, v: [f64; 2]) {
        let g = self.add(v, false, true);
        self.nodes.get_mut(&id).unwrap().grad = Some(g);
    }
    /// what can still be reached: handles, tape entries whose output can be reached, gradients of these
    fn collect(&mut self) {
        loop {
            let mut uses: BTreeMap<Id, usize> = BTreeMap::new();
            for s in self.slots.iter().flatten() {
                *uses.entry(*s).or_default() += 1;
            }
            for t in self.tapes.iter().flatten() {
                for e in t {
                    e.ins.iter().for_each(|i| *uses.entry(*i).or_default() += 1);
                }
            }
            for n in self.nodes.values() {
                if let Some(g) = n.grad {
                    *uses.entry(g).or_default() += 1;
                }
            }
            let mut dead = false;
            for t in self.tapes.iter_mut().flatten() {
                let n = t.len();
                t.retain(|e| uses.contains_key(&e.out));
                dead |= t.len() < n;
            }
            if dead {
                continue;
            }
            let outs: HashSet<Id> = self.tapes.iter().flatten().flatten().map(|e| e.out).collect();
            let n = self.nodes.len();
            self.nodes.retain(|i, _| uses.contains_key(i) || outs.contains(i));
            if self.nodes.len() == n {
                return;
            }
        }
    }
    /// Some(true) when the action succeeds, Some(false) when it must be refused
    fn step(&mut self, a: A) -> Option<bool> {
        let g = |m: &M, i: usize| m.slots.get(i).copied().flatten();
        let mut ok = true;
        match a {
            A::New(r) => {
                let f = self.free()?;
                let n = self.leaf(r);
                self.slots[f] = Some(n);
            },
            A::Drop(i) => {
                g(self, i)?;
                self.slots[i] = None;
            },
            A::Dup(i) => {
                let n = g(self, i)?;
                let f = self.free()?;
                self.slots[f] = Some(n);
            },
            A::Req(i, r) => {
                let n = g(self, i)?;
                let n = self.nodes.get_mut(&n).unwrap();
                if n.req == r || n.isgrad {
                    return None;
                }
                n.req = r;
            },
            A::Tanh(i) | A::MulS(i) | A::View(i) | A::MulC(i) | A::AddL(i) | A::Split(i) => {
                let n = g(self, i)?;
                if self.nodes[&n].isgrad {
                    return None;
                }
                let f = self.free()?;
                let o = match a {
                    A::Tanh(_) => self.op(Rule::Tanh, vec![n]),
                    A::MulS(_) => self.op(Rule::Scale, vec![n]),
                    A::View(_) => self.op(Rule::Pass, vec![n]),
                    A::Split(_) => self.op(Rule::Swap, vec![n]),
                    A::MulC(_) => {
                        let c = self.leaf(false);
                        self.op(Rule::Mul, vec![n, c])
                    },
                    _ => {
                        let c = self.leaf(true);
                        self.op(Rule::Add, vec![n, c])
                    },
                };
                self.slots[f] = Some(o);
            },
            A::Mul(i, j) | A::Add(i, j) => {
                let (x, y) = (g(self, i)?, g(self, j)?);
                if self.nodes[&x].isgrad || self.nodes[&y].isgrad {
                    return None;
                }
                let f = self.free()?;
                let o = self.op(if matches!(a, A::Mul(..)) { Rule::Mul } else { Rule::Add }, vec![x, y]);
                self.slots[f] = Some(o);
            },
            A::Back(i) => {
                let n = g(self, i)?;
                if self.nodes[&n].isgrad {
                    return None;
                }
                ok = self.nodes[&n].req;
                if ok {
                    self.backward(n);
                }
            },
            A::Zero(i) => {
                let n = g(self, i)?;
                if self.nodes[&n].isgrad {
                    return None;
                }
                if self.nodes[&n].req && self.nodes[&n].grad.is_some() {
                    self.set_grad(n, [0.0; 2]);
                }
            },
            A::Grad(i) => {
                let n = g(self, i)?;
                if self.nodes[&n].isgrad {
                    return None;
                }
                match self.nodes[&n].grad {
                    Some(x) => {
                        let f = self.free()?;
                        self.slots[f] = Some(x);
                    },
                    None => ok = false,
                }
            },
            A::Open => {
                if self.tapes.len() > 2 {
                    return None;
                }
                self.stack.push(self.tapes.len());
                self.tapes.push(Some(vec![]));
            },
            A::Close(k) => {
                let p = self.stack.iter().position(|&x| x == k)?;
                self.stack.remove(p);
                self.tapes[k] = None;
            },
        }
        self.collect();
        Some(ok)
    }
    fn backward(&mut self, loss: Id) {
        let a = self.active();
        let tape = self.tapes[a].clone().unwrap();
        let mut gr: BTreeMap<Id, [f64; 2]> = BTreeMap::new();
        gr.insert(loss, [1.0; 2]);
        let mut visited = HashSet::new();
        for e in tape.iter().rev() {
            let Some(g) = gr.get(&e.out).copied() else { continue };
            visited.insert(e.out);
            let x: Vec<[f64; 2]> = e.ins.iter().map(|i| self.nodes[i].v).collect();
            let o = self.nodes[&e.out].v;
            let d: Vec<[f64; 2]> = match e.rule {
                Rule::Tanh => vec![[g[0] * (1.0 - o[0] * o[0]), g[1] * (1.0 - o[1] * o[1])]],
                Rule::Scale => vec![g.map(|a| 1.5 * a)],
                Rule::Pass => vec![g],
                Rule::Swap => vec![[g[1], g[0]]],
                Rule::Mul => vec![[g[0] * x[1][0], g[1] * x[1][1]], [g[0] * x[0][0], g[1] * x[0][1]]],
                Rule::Add => vec![g, g],
            };
            for ((i, d), t) in e.ins.iter().zip(d).zip(&e.tracked) {
                if !t {
                    continue;
                }
                let t = gr.entry(*i).or_insert([0.0; 2]);
                *t = [t[0] + d[0], t[1] + d[1]];
            }
        }
        for (i, g) in gr {
            if self.nodes[&i].req {
                self.set_grad(i, g);
            }
        }
        self.tapes[a].as_mut().unwrap().retain(|e| !visited.contains(&e.out));
    }
    fn actions(&self) -> Vec<A> {
        let mut v = vec![A::New(false), A::New(true), A::Open];
        for (i, s) in self.slots.iter().enumerate() {
            if s.is_none() {
                continue;
            }
            v.extend([A::Drop(i), A::Dup(i), A::Req(i, true), A::Req(i, false), A::Tanh(i), A::MulS(i), A::View(i), A::Split(i), A::MulC(i), A::AddL(i)]);
            v.extend([A::Back(i), A::Zero(i), A::Grad(i)]);
            for (j, t) in self.slots.iter().enumerate() {
                if t.is_some() {
                    v.push(A::Mul(i, j));
                    if i < j {
                        v.push(A::Add(i, j));
                    }
                }
            }
        }
        v.extend(self.stack.iter().map(|&k| A::Close(k)));
        v
    }
    /// the state up to renaming of nodes
    fn canon(&self) -> u64 {
        let mut name: BTreeMap<Id, usize> = BTreeMap::new();
        let mut order: Vec<Id> = vec![];
        let mut see = |i: Id, order: &mut Vec<Id>| -> usize {
            let n = name.len();
            *name.entry(i).or_insert_with(|| {
                order.push(i);
                n
            })
        };
        let mut out: Vec<u64> = vec![self.leaves.min(5) as u64];
        for s in &self.slots {
            out.push(s.map_or(99, |i| see(i, &mut order) as u64));
        }
        for &k in &self.stack {
            out.push(1000 + k as u64);
        }
        for t in &self.tapes {
            out.push(t.is_some() as u64);
            for e in t.iter().flatten() {
                out.push(e.rule as u64);
                out.push(see(e.out, &mut order) as u64);
                e.ins.iter().for_each(|&i| out.push(see(i, &mut order) as u64));
                e.tracked.iter().for_each(|&t| out.push(t as u64));
            }
        }
        let mut k = 0;
        while k < order.len() {
            let n = &self.nodes[&order[k]];
            out.extend(n.v.map(f64::to_bits));
            out.push(n.req as u64 + 2 * n.isgrad as u64);
            out.push(n.grad.map_or(77, |g| see(g, &mut order) as u64));
            k += 1;
        }
        h64(&out)
    }
    fn show(&self) -> String {
        self.slots.iter().map(|s| match s {
            None => "-".into(),
            Some(i) => {
                let n = &self.nodes[i];
                format!("{:.3?}{}{}", n.v, if n.req { "r" } else { "" }, n.grad.map_or(String::new(), |g| format!("g{:.3?}", self.nodes[&g].v)))
            },
        }).collect::<Vec<_>>().join(" ")
    }
}

struct Real {
    slots: Vec<Option<Tensor>>,
    ctxs: Vec<Option<GradientContext>>,
    leaves: usize,
}
impl Real {
    fn leaf(&mut self, req: bool) -> Result<Tensor, String> {
        let k = self.leaves as f64;
        self.leaves += 1;
        let t = Tensor::new(vec![0.5 + 0.25 * k, -0.75 + 0.5 * k]).map_err(|e| e.to_string())?;
        if req {
            t.set_requires_grad(true).map_err(|e| e.to_string())?;
        }
        Ok(t)
    }
    fn put(&mut self, t: Tensor) {
        let f = self.slots.iter().position(|s| s.is_none()).unwrap();
        self.slots[f] = Some(t);
    }
    fn step(&mut self, a: A) -> Result<(), String> {
        let es = |e: hodu_core::error::HoduError| e.to_string();
        let t = |r: &Real, i: usize| r.slots[i].clone().unwrap();
        match a {
            A::New(r) => {
                let l = self.leaf(r)?;
                self.put(l);
            },
            A::Drop(i) => self.slots[i] = None,
            A::Dup(i) => {
                let x = t(self, i);
                self.put(x);
            },
            A::Req(i, r) => self.slots[i].as_ref().unwrap().set_requires_grad(r).map_err(es)?,
            A::Tanh(i) => {
                let o = self.slots[i].as_ref().unwrap().tanh().map_err(es)?;
                self.put(o);
            },
            A::MulS(i) => {
                let o = self.slots[i].as_ref().unwrap().mul_scalar(1.5f64).map_err(es)?;
                self.put(o);
            },
            A::View(i) => {
                let o = self.slots[i].as_ref().unwrap().reshape([2usize]).map_err(es)?;
                self.put(o);
            },
            A::Split(i) => {
                let o = self.slots[i].as_ref().unwrap().flip(&[0i32]).map_err(es)?;
                self.put(o);
            },
            A::MulC(i) => {
                let c = self.leaf(false)?;
                let o = self.slots[i].as_ref().unwrap().mul(&c).map_err(es)?;
                self.put(o);
            },
            A::AddL(i) => {
                let c = self.leaf(true)?;
                let o = self.slots[i].as_ref().unwrap().add(&c).map_err(es)?;
                self.put(o);
            },
            A::Mul(i, j) => {
                let o = self.slots[i].as_ref().unwrap().mul(self.slots[j].as_ref().unwrap()).map_err(es)?;
                self.put(o);
            },
            A::Add(i, j) => {
                let o = self.slots[i].as_ref().unwrap().add(self.slots[j].as_ref().unwrap()).map_err(es)?;
                self.put(o);
            },
            A::Back(i) => self.slots[i].as_ref().unwrap().backward().map_err(es)?,
            A::Zero(i) => self.slots[i].as_ref().unwrap().zero_grad().map_err(es)?,
            A::Grad(i) => {
                let o = self.slots[i].as_ref().unwrap().grad().map_err(es)?;
                self.put(o);
            },
            A::Open => self.ctxs.push(Some(GradientContext::new())),
            A::Close(k) => self.ctxs[k - 1] = None,
        }
        Ok(())
    }
}
fn two(t: &Tensor) -> Result<[f64; 2], String> {
    let v = t.to_flatten_vec::<f64>().map_err(|e| e.to_string())?;
    if v.len() != 2 || t.shape().dims() != [2] {
        return Err(format!("shape {:?}, {} elements", t.shape().dims(), v.len()));
    }
    Ok([v[0], v[1]])
}
fn near(a: [f64; 2], b: [f64; 2]) -> bool {
    (0..2).all(|i| (a[i] - b[i]).abs() <= 1e-9 * (1.0 + a[i].abs()))
}

fn run(h: &[A], m: &M, last_ok: bool) -> Out {
    let base = hodu_core::tensor::tensor_count();
    let mut r = Real { slots: vec![None, None, None, None], ctxs: vec![], leaves: 0 };
    for (k, a) in h.iter().enumerate() {
        let res = r.step(*a);
        // refusals inside the prefix were judged when that prefix was explored
        if k + 1 == h.len() {
            match (res, last_ok) {
                (Err(e), true) => return Out::Bad("err", e),
                (Ok(()), false) => return Out::Bad("accepted", format!("{a:?} must be refused")),
                _ => {},
            }
        }
    }
    let n = hodu_core::tensor::tensor_count() as i64 - base as i64;
    // a recorded binary operation also holds the two broadcast views of its operands
    let views = m.tapes.iter().flatten().flatten().filter(|e| e.ins.len() == 2).count() as i64 * 2;
    let most = m.nodes.len() as i64 + views;
    if n > most {
        return Out::Bad("leak", format!("{n} tensors exist, at most {most} can be reached"));
    }
    for (i, s) in m.slots.iter().enumerate() {
        let Some(id) = s else { continue };
        let (t, n) = (r.slots[i].as_ref().unwrap(), &m.nodes[id]);
        match two(t) {
            Ok(v) if near(v, n.v) => {},
            Ok(v) => return Out::Bad("wrong", format!("slot {i} holds {v:?}, expected {:?}", n.v)),
            Err(e) => return Out::Bad("err", format!("reading slot {i}: {e}")),
        }
        if n.isgrad {
            continue;
        }
        if t.is_requires_grad() != n.req {
            return Out::Bad("wrong", format!("slot {i} requires_grad {}, expected {}", t.is_requires_grad(), n.req));
        }
        match (t.grad(), n.grad) {
            (Ok(g), Some(_)) if g.dtype() != t.dtype() || g.shape() != t.shape() => {
                return Out::Bad("wrong", format!("slot {i} of {:?} {:?} has a gradient of {:?} {:?}", t.dtype(), t.shape(), g.dtype(), g.shape()));
            },
            (Ok(g), Some(e)) => match two(&g) {
                Ok(v) if near(v, m.nodes[&e].v) => {},
                Ok(v) => return Out::Bad("wrong", format!("slot {i} has gradient {v:?}, expected {:?}", m.nodes[&e].v)),
                Err(e) => return Out::Bad("err", format!("reading gradient of slot {i}: {e}")),
            },
            (Ok(g), None) => return Out::Bad("wrong", format!("slot {i} has a gradient {:?}, expected none", two(&g))),
            (Err(e), Some(x)) => return Out::Bad("wrong", format!("slot {i} has no gradient ({e}), expected {:?}", m.nodes[&x].v)),
            (Err(_), None) => {},
        }
    }
    // the end of the program: contexts close (innermost first), handles go
    while r.ctxs.pop().is_some() {}
    r.slots.clear();
    let n = hodu_core::tensor::tensor_count() as i64 - base as i64;
    if n != 0 {
        return Out::Bad("leak", format!("{n} tensors are left after everything was dropped"));
    }
    Out::Ok(m.show())
}

fn main() {
    let mut ck = Check::new("C09", "model_checking");
    // alphabets: everything to a small depth; parts of it, each complete, deeper
    type Allowed = fn(A) -> bool;
    let profiles: [(&str, Allowed, usize, usize, usize); 4] = [
        ("all", |_| true, 4, if ck.thorough() { 5 } else { 4 }, 4),
        (
            "graphs",
            |a| matches!(a, A::New(true) | A::Tanh(_) | A::Mul(..) | A::Drop(_) | A::Back(_)),
            3,
            if ck.thorough() { 10 } else { 8 },
            4,
        ),
        (
            "contexts",
            |a| matches!(a, A::New(true) | A::MulS(_) | A::Add(..) | A::Drop(_) | A::Back(_) | A::Open | A::Close(_)),
            3,
            if ck.thorough() { 10 } else { 8 },
            3,
        ),
        (
            "lifetimes",
            |a| matches!(a, A::New(true) | A::MulC(_) | A::AddL(_) | A::View(_) | A::Dup(_) | A::Drop(_) | A::Back(_) | A::Zero(_) | A::Grad(_) | A::Req(..)),
            3,
            if ck.thorough() { 8 } else { 7 },
            3,
        ),
    ];
    let replay = |m: &mut M, h: &[A]| h.iter().for_each(|a| { m.step(*a); });
    for (pname, allowed, slots, depth, full) in profiles {
        let mut seen: HashSet<u64> = HashSet::new();
        let mut frontier: Vec<Vec<A>> = vec![vec![]];
        for d in 1..=depth {
            let mut next = vec![];
            for h in &frontier {
                let mut m0 = M::new();
                replay(&mut m0, h);
                for a in m0.actions().into_iter().filter(|a| allowed(*a)) {
                    let mut m = m0.clone();
                    let Some(ok) = m.step(a) else { continue };
                    if m.slots.iter().skip(slots).any(|s| s.is_some()) {
                        continue;
                    }
                    let mut h2 = h.clone();
                    h2.push(a);
                    let key = format!("{pname}:{}", h2.iter().map(|a| format!("{a:?}").replace(' ', "")).collect::<Vec<_>>().join(";"));
                    // histories that lead to a state already seen are explored in full up to a depth, as the library may
                    // hide state the model does not have; beyond it only one history per state is continued
                    let new = seen.insert(m.canon()) || d < full;
                    if ck.wants(&key) {
                        ck.case(&format!("{pname}/depth{d}"), &key, || run(&h2, &m, ok));
                    }
                    if new && d < depth {
                        next.push(h2);
                    }
                }
            }
            frontier = next;
        }
        ck.note(&format!("model_states_{pname}"), serde_json::json!(seen.len()));
    }
    ck.finish("every action in every reachable model state, breadth first: up to four handles and two gradient contexts, over tensors of two elements; each transition executes the whole history on the real library and compares values, tracking, gradients and the number of live tensors");
}
