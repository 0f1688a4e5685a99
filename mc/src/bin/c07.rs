//! C07: einsum evaluates every valid subscript expression and rejects every invalid one.
//! All expressions over three letters, and all strings up to a length over the symbols of the notation.
use mc::cat::*;
use mc::check::*;
use mc::gen::tol;
use mc::nd::*;
use mc::tio::*;
use mc::vals::*;

fn ints(s: &[usize], salt: usize, d: DType) -> Nd {
    let n = numel(s);
    Nd::new(
        s.to_vec(),
        (0..n)
            .map(|i| {
                let x = [1i64, 2, -1, 3, -2, 1, -3, 2, -1, 1, 3][(i * 3 + salt * 4 + i / 11) % 11];
                let x = if d.is_uint() { x.abs() } else { x };
                if d.is_float() { V::F(x as f64) } else { V::I(x as i128) }
            })
            .collect(),
    )
}
fn size(c: char) -> usize {
    match c {
        'a' => 2,
        'b' => 3,
        'c' => 4,
        _ => 2,
    }
}
/// every string of up to `r` letters
fn subs(r: usize, al: &[char]) -> Vec<String> {
    (0..=r).flat_map(|n| tuples(n, al)).map(|v| v.into_iter().collect()).collect()
}
/// every ordered selection of distinct letters
fn outs(al: &[char]) -> Vec<String> {
    let mut v = vec![];
    for s in subsets(al.len()) {
        for p in perms(s.len()) {
            v.push(p.iter().map(|&i| al[s[i]]).collect());
        }
    }
    v
}
fn shape(s: &str) -> Vec<usize> {
    s.chars().map(size).collect()
}
fn go(c: &mut Check, ins: &[String], out: Option<&str>, d: DType, lay: &[&str]) {
    let eq = format!("{}{}", ins.join(","), out.map(|o| format!("->{o}")).unwrap_or_default());
    let key = format!("expr/{}/{eq}/{}", dn(d), lay.join(","));
    c.case(&format!("operands{}", ins.len()), &key, || {
        let v: Vec<Nd> = ins.iter().enumerate().map(|(i, s)| ints(&shape(s), i, d)).collect();
        let k = K::Einsum(eq.clone());
        let t = if d.is_int() || matches!(d, DType::F16 | DType::F32 | DType::F64) { 0.0 } else { tol(&k, d) };
        against(&k, &v, &vec![d; ins.len()], lay, t)
    });
}

fn main() {
    let mut c = Check::new("C07", "model_checking");
    let th = c.thorough();
    let al = ['a', 'b', 'c'];
    let nums: Vec<DType> = ALL_DT.iter().copied().filter(|d| !d.is_bool()).collect();

    // 1. every expression: one operand of rank 0-4, two of rank 0-3, three of rank 0-2, four of rank 0-1; every output and none
    for (n, r) in [(1, 4), (2, 3), (3, 2), (4, if th { 2 } else { 1 })] {
        for ins in tuples(n, &subs(r, &al)) {
            let used: Vec<char> = al.iter().copied().filter(|l| ins.iter().any(|s| s.contains(*l))).collect();
            for o in outs(&used) {
                go(&mut c, &ins, Some(&o), DType::F32, &vec!["c"; n]);
            }
            go(&mut c, &ins, None, DType::F32, &vec!["c"; n]);
        }
    }
    // 2. every type and operand layout
    for (n, r) in [(1, 3), (2, 2)] {
        for ins in tuples(n, &subs(r, &al)) {
            let used: Vec<char> = al.iter().copied().filter(|l| ins.iter().any(|s| s.contains(*l))).collect();
            for o in outs(&used) {
                for &d in &nums {
                    if d != DType::F32 {
                        go(&mut c, &ins, Some(&o), d, &vec!["c"; n]);
                    }
                    if th || matches!(d, DType::F32 | DType::I32 | DType::BF16) {
                        for l in tuples(n, &["c", "perm", "stepoff", "mid"]) {
                            if l.iter().any(|x| *x != "c") {
                                go(&mut c, &ins, Some(&o), d, &l);
                            }
                        }
                    }
                }
            }
        }
    }
    // 3. letters of either case sort by their code when the output is implied; blanks do not matter
    for (eq, sh) in [
        ("bA", vec![vec![2, 3]]),
        ("Zz,zY", vec![vec![2, 3], vec![3, 4]]),
        (" a b , b c -> c a ", vec![vec![2, 3], vec![3, 4]]),
        ("zy,yx,xw", vec![vec![2, 3], vec![3, 2], vec![2, 4]]),
    ] {
        let key = format!("letters/{eq}").replace(' ', "_");
        c.case("letters", &key, || {
            let v: Vec<Nd> = sh.iter().enumerate().map(|(i, s)| ints(s, i, DType::F32)).collect();
            against(&K::Einsum(eq.into()), &v, &vec![DType::F32; sh.len()], &vec!["c"; sh.len()], 0.0)
        });
    }
    // 4. every string over the symbols of the notation, valid or not, on several operand tuples
    let sym = ['a', 'b', ',', '-', '>', ' ', '.', '1'];
    let top = if th { 7 } else { 6 };
    let ops: Vec<(&str, Vec<Vec<usize>>)> = vec![
        ("scalar", vec![vec![]]),
        ("2", vec![vec![2]]),
        ("2x2", vec![vec![2, 2]]),
        ("2x3", vec![vec![2, 3]]),
        ("2,2", vec![vec![2], vec![2]]),
        ("2,3", vec![vec![2], vec![3]]),
        ("2,2x2", vec![vec![2], vec![2, 2]]),
        ("s,s", vec![vec![], vec![]]),
        ("2,s,2", vec![vec![2], vec![], vec![2]]),
    ];
    for (nm, sh) in &ops {
        let vals: Vec<Nd> = sh.iter().enumerate().map(|(i, s)| ints(s, i, DType::I32)).collect();
        for len in 0..=top {
            let pre = len.min(2);
            for p in tuples(pre, &sym) {
                let ps: String = p.iter().collect();
                let key = format!("string/{nm}/{len}/{ps}").replace(' ', "_");
                if !c.wants(&key) {
                    continue;
                }
                let mut n = 0u64;
                c.case("strings", &key, || {
                    let ts: Vec<Tensor> = vals.iter().map(|v| tensor(v, DType::I32).unwrap()).collect();
                    let xs: Vec<&Tensor> = ts.iter().collect();
                    let mut good = 0;
                    for rest in tuples(len - pre, &sym) {
                        let eq: String = ps.chars().chain(rest).collect();
                        n += 1;
                        let want = einsum(&eq, &vals, DType::I32);
                        let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Tensor::einsum(&eq, &xs))) {
                            Ok(g) => g,
                            Err(e) => return Out::Bad("panic", format!("{eq:?}: {}", panic_msg(e))),
                        };
                        match (want, got) {
                            (None, Ok(t)) => return Out::Bad("accepted", format!("{eq:?} accepted, result {}", read(&t).map(|r| r.show()).unwrap_or_default())),
                            (Some(_), Err(e)) => return Out::Bad("rejected", format!("{eq:?}: {e}")),
                            (Some(w), Ok(t)) => {
                                good += 1;
                                if let Out::Bad(x, e) = judge(&[t], &[(w, DType::I32)], 0.0) {
                                    return Out::Bad(x, format!("{eq:?}: {e}"));
                                }
                            },
                            _ => {},
                        }
                    }
                    Out::Ok(format!("{nm}{len}{good}"))
                });
                c.add(n);
            }
        }
    }
    // 5. numbers of operands, letters and dimensions up to and beyond the documented limits (4, 16 and 16)
    let abc: Vec<char> = ('a'..='z').collect();
    for n in 0..=6usize {
        for r in [1usize, 2] {
            let key = format!("limits/operands/{n}/{r}");
            c.case("limits", &key, || {
                let v: Vec<Nd> = (0..n).map(|i| ints(&vec![2; r], i, DType::F32)).collect();
                let eq = vec![abc[..r].iter().collect::<String>(); n].join(",") + "->a";
                expect(&eq, &v, n >= 1 && n <= 4)
            });
        }
    }
    for n in 12..=20usize {
        for split in 1..=3usize {
            for keep in 0..=2usize {
                for wide in [0, n - 1] {
                    let key = format!("limits/letters/{n}/{split}/{keep}/{wide}");
                    c.case("limits", &key, || {
                        let ls = &abc[..n];
                        let per = n.div_ceil(split);
                        let parts: Vec<&[char]> = ls.chunks(per).collect();
                        let v: Vec<Nd> = parts
                            .iter()
                            .enumerate()
                            .map(|(i, p)| ints(&p.iter().map(|l| if *l == ls[wide] { 3 } else { 1 }).collect::<Vec<_>>(), i, DType::F32))
                            .collect();
                        let o: String = match keep {
                            0 => String::new(),
                            1 => ls[n - 1].to_string(),
                            _ => ls.iter().rev().collect(),
                        };
                        let eq = format!("{}->{o}", parts.iter().map(|p| p.iter().collect::<String>()).collect::<Vec<_>>().join(","));
                        expect(&eq, &v, n <= 16)
                    });
                }
            }
        }
    }
    for n in 14..=18usize {
        let key = format!("limits/rank/{n}");
        c.case("limits", &key, || expect(&format!("{}->", "a".repeat(n)), &[ints(&vec![1; n], 0, DType::F32)], n <= 16));
    }
    // 6. empty extents: an empty sum is zero, an empty result is empty
    for n in 1..=2usize {
        for ins in tuples(n, &subs(2, &['a', 'b'])) {
            for zero in ["a", "b", "ab"] {
                let used: Vec<char> = ['a', 'b'].iter().copied().filter(|l| ins.iter().any(|s| s.contains(*l))).collect();
                for o in outs(&used) {
                    let eq = format!("{}->{o}", ins.join(","));
                    let key = format!("empty/{eq}/{zero}");
                    c.case("empty", &key, || {
                        let v: Vec<Nd> = ins.iter().enumerate().map(|(i, s)| ints(&s.chars().map(|l| if zero.contains(l) { 0 } else { 2 }).collect::<Vec<_>>(), i, DType::F32)).collect();
                        expect(&eq, &v, true)
                    });
                }
            }
        }
    }
    c.finish("every expression over three letters with one operand of rank 0-4, two of rank 0-3, three of rank 0-2 or four of rank 0-1 and every ordered output (and the implied one); every type and pair of operand layouts for the smaller ones; every string of up to 6 symbols (7 thorough) over two letters, comma, '-', '>', blank, '.' and a digit on nine operand tuples; operand, letter and dimension counts across the documented limits");
}

fn expect(eq: &str, v: &[Nd], valid: bool) -> Out {
    let ts: Vec<Tensor> = match v.iter().map(|x| tensor(x, DType::F32)).collect::<HoduResult<Vec<_>>>() {
        Ok(t) => t,
        Err(_) => return Out::Skip,
    };
    let xs: Vec<&Tensor> = ts.iter().collect();
    match (Tensor::einsum(eq, &xs), valid) {
        (Err(e), true) => Out::Bad("rejected", format!("{eq}: {e}")),
        (Ok(_), false) => Out::Bad("accepted", eq.to_string()),
        (Ok(t), true) => judge(&[t], &[(einsum(eq, v, DType::F32).expect("valid"), DType::F32)], 0.0),
        (Err(_), false) => Out::Ok("rejected".into()),
    }
}
