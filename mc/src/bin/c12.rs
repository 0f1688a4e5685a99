//! C12: program files. Every program of the catalogue through memory and through a file: equal text, equal bytes when
//! saved again, equal results when the reloaded program is executed; every truncation, byte substitution, deletion and
//! duplication of the files gives an error or a program that can be saved and loaded again.
use hodu_core::format::hdss;
use hodu_core::prelude::CaptureBoard;
use hodu_core::snapshot::*;
use mc::check::*;
use mc::nd::*;
use mc::progs;
use mc::tio::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let p = std::env::temp_dir().join(format!("mc-c12-{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn es<T: std::fmt::Display>(e: T) -> String {
    e.to_string()
}
fn equal(a: &Snapshot, b: &Snapshot) -> Result<(), String> {
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    if x == y {
        return Ok(());
    }
    let at = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| s.chars().skip(at.saturating_sub(60)).take(140).collect::<String>();
    Err(format!("saved ...{}..., loaded ...{}...", cut(&x), cut(&y)))
}
fn round(s: &Snapshot, dir: &Dir) -> Result<(Snapshot, Vec<u8>), String> {
    let b = hdss::to_bytes(s).map_err(|e| format!("saving: {e}"))?;
    let r = hdss::from_bytes(&b).map_err(|e| format!("loading what was saved: {e}"))?;
    equal(s, &r)?;
    let b2 = r.to_bytes().map_err(|e| format!("saving again: {e}"))?;
    if b2 != b {
        return Err("saved again, the bytes differ".into());
    }
    // over whatever the file held before
    let p = dir.0.join("p.hdss");
    hdss::save(s, &p).map_err(|e| format!("saving to a file: {e}"))?;
    if std::fs::read(&p).map_err(es)? != b {
        return Err("the file differs from the bytes".into());
    }
    let f = hdss::load(&p).map_err(|e| format!("loading the file: {e}"))?;
    equal(s, &f)?;
    Ok((f, b))
}
/// a damaged file: an error, or a program that can be saved and loaded again
fn usable(b: &[u8]) -> Out {
    match Snapshot::from_bytes(b) {
        Err(e) => Out::Ok(es(e).chars().take(60).collect()),
        Ok(s) => {
            let b2 = match s.to_bytes() {
                Ok(b) => b,
                Err(e) => return Out::Bad("err", format!("the loaded program cannot be saved: {e}")),
            };
            match Snapshot::from_bytes(&b2) {
                Err(e) => Out::Bad("err", format!("the loaded program, saved, cannot be loaded: {e}")),
                Ok(t) => match equal(&s, &t) {
                    Err(e) => Out::Bad("wrong", e),
                    Ok(()) => Out::Ok(format!("{:x}", h64(&b2))),
                },
            }
        },
    }
}
fn alter(c: &mut Check, group: &str, key: &str, b: &[u8], every: bool) {
    for n in 0..b.len() {
        let k = format!("damage/{key}/cut-{n}");
        if c.wants(&k) {
            c.case(group, &k, || match Snapshot::from_bytes(&b[..n]) {
                Ok(_) => Out::Bad("wrong", "a truncated file is accepted".into()),
                Err(e) => Out::Ok(es(e).chars().take(60).collect()),
            });
        }
    }
    for i in 0..b.len() {
        let mut vals: Vec<u8> = if every { (0..=255).collect() } else { vec![0, 1, 2, 0x7f, 0x80, 0xff, b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i] ^ 0x80] };
        vals.sort();
        vals.dedup();
        for v in vals {
            if v == b[i] {
                continue;
            }
            let k = format!("damage/{key}/set-{i}-{v}");
            if c.wants(&k) {
                let mut x = b.to_vec();
                x[i] = v;
                c.case(group, &k, || usable(&x));
            }
        }
        for (name, x) in [
            ("drop", [&b[..i], &b[i + 1..]].concat()),
            ("twice", [&b[..=i], &b[i..]].concat()),
            ("huge", [&b[..i], &[0xff; 9][..], &[1], &b[i + 1..]].concat()),
        ] {
            let k = format!("damage/{key}/{name}-{i}");
            if c.wants(&k) {
                c.case(group, &k, || usable(&x));
            }
        }
    }
}
fn variants(s: &Snapshot, seen: &mut BTreeSet<String>) {
    for n in &s.nodes {
        let p = n.params.as_ref().map(|p| format!("{p:?}")).unwrap_or_default();
        seen.insert(format!("{:?} {}", n.op, p.split(['(', ' ']).next().unwrap_or("")));
    }
}
/// the catalogue has one program per operation; here are the fields the catalogue does not vary
fn handmade() -> Vec<(String, Snapshot)> {
    let mut v: Vec<(String, Snapshot)> = vec![("empty".into(), Snapshot::new())];
    for n in ["", "a", "ünïcödé ✓", "line\nbreak", "\0", &"x".repeat(300)] {
        let mut s = Snapshot::with_name(n);
        s.inputs.push(SnapshotInput { name: n.into(), id: SnapshotTensorId(0), shape: hodu_core::types::Shape::new(&[2]), dtype: DType::F32 });
        s.targets.push(SnapshotTarget { name: n.into(), id: SnapshotTensorId(0) });
        v.push((format!("name-{}", v.len()), s));
    }
    for d in ALL_DT {
        for (i, sh) in [vec![], vec![0], vec![1], vec![3, 2], vec![127], vec![128], vec![2, 1, 300], vec![1 << 40, 1], vec![usize::MAX]].into_iter().enumerate() {
            let mut s = Snapshot::new();
            let id = [0usize, 127, 128, 1 << 20, usize::MAX][i % 5];
            s.inputs.push(SnapshotInput { name: "x".into(), id: SnapshotTensorId(id), shape: hodu_core::types::Shape::new(&sh), dtype: d });
            let n: usize = if sh.iter().any(|&x| x > 1000) { 7 } else { sh.iter().product() };
            for name in [None, Some("w".to_string()), Some(String::new())] {
                s.constants.push(SnapshotConstant {
                    id: SnapshotTensorId(id),
                    name,
                    shape: hodu_core::types::Shape::new(&sh),
                    dtype: d,
                    data: (0..n * d.size_in_bytes()).map(|b| (b * 37 + 200) as u8).collect(),
                });
            }
            v.push((format!("constant-{}-{i}", dn(d)), s));
        }
    }
    v
}

fn main() {
    let mut c = Check::new("C12", "model_checking");
    let th = c.thorough();
    let dir = Dir::new();
    let mut seen = BTreeSet::new();
    let mut small: BTreeMap<String, (String, Vec<u8>)> = BTreeMap::new();
    let (mut progs_n, mut longest) = (0u64, 0usize);
    progs::each(th, &mut |p| {
        if !p.base && !th {
            return;
        }
        if !c.wants(&p.key) && !c.wants_prefix("damage/") {
            return;
        }
        let Ok(Some(cap)) = p.capture() else { return };
        progs_n += 1;
        variants(&cap.snap, &mut seen);
        if c.wants(&p.key) {
            c.case(&p.group, &p.key, || {
                let (back, b) = match round(&cap.snap, &dir) {
                    Ok(x) => x,
                    Err(e) => return Out::Bad("wrong", e),
                };
                // the reloaded program computes what the captured one does
                match (mc::interp::interpret(&cap.snap, &cap.inputs), mc::interp::interpret(&back, &cap.inputs)) {
                    (Ok(x), Ok(y)) => {
                        let show = |r: &[mc::interp::Res]| format!("{:?}", r.iter().map(|r| (&r.name, r.dtype, r.value.show())).collect::<Vec<_>>());
                        if show(&x) != show(&y) {
                            return Out::Bad("wrong", format!("before {} after {}", show(&x), show(&y)));
                        }
                    },
                    (Err(x), Err(y)) if x == y => {},
                    (x, y) => return Out::Bad("wrong", format!("before {:?} after {:?}", x.err(), y.err())),
                }
                Out::Ok(format!("{:x}", h64(&b)))
            });
        }
        if let Ok(b) = cap.snap.to_bytes() {
            longest = longest.max(b.len());
            // the smallest program of every operation
            let e = small.entry(p.group.clone()).or_insert_with(|| (p.key.clone(), b.clone()));
            if b.len() < e.1.len() {
                *e = (p.key.clone(), b);
            }
        }
    });
    for (k, s) in handmade() {
        let key = format!("handmade/{k}");
        if c.wants(&key) {
            c.case("handmade", &key, || match round(&s, &dir) {
                Ok((_, b)) => Out::Ok(format!("{:x}", h64(&b))),
                Err(e) => Out::Bad("wrong", e),
            });
        }
    }
    // files that are not there, not readable, not writable
    for (k, p) in [("missing", dir.0.join("none.hdss")), ("directory", dir.0.clone()), ("below-nothing", dir.0.join("no/such/dir.hdss"))] {
        let key = format!("path/{k}");
        if c.wants(&key) {
            c.case("path", &key, || match (hdss::load(&p), k == "missing" || hdss::save(&Snapshot::new(), &p).is_err()) {
                (Err(e), true) => Out::Ok(es(e).chars().take(20).collect()),
                (Ok(_), _) => Out::Bad("wrong", "loaded from nowhere".into()),
                (_, false) => Out::Bad("wrong", "saved to nowhere".into()),
            });
        }
    }
    let mut files = 0u64;
    let mut done: BTreeSet<Vec<u8>> = BTreeSet::new();
    for (group, (_, b)) in &small {
        if !done.insert(b.clone()) || b.len() > if th { 2000 } else { 700 } {
            continue;
        }
        files += 1;
        alter(&mut c, "damage", group, b, th || files % 8 == 1);
    }
    for (k, s) in handmade() {
        let b = s.to_bytes().unwrap_or_default();
        if b.len() <= 200 {
            files += 1;
            alter(&mut c, "damage", &k, &b, th);
        }
    }
    // a capture without a name
    if c.wants("unnamed") {
        c.case("handmade", "unnamed", || {
            let b = CaptureBoard::new();
            b.open();
            let r = (|| -> HoduResult<()> {
                let x = Tensor::input("x", [2, 2], DType::F32)?;
                b.with_target("y", x.add_scalar(1.0f32)?);
                Ok(())
            })();
            b.close();
            match r.map_err(es).and_then(|_| round(&b.capture(), &dir)) {
                Ok((s, _)) if s.name.is_none() => Out::Ok("".into()),
                Ok((s, _)) => Out::Bad("wrong", format!("name {:?}", s.name)),
                Err(e) => Out::Bad("wrong", e),
            }
        });
    }
    c.note("programs", serde_json::json!({"captured": progs_n, "operation and parameter kinds": seen.len(), "longest file": longest, "damaged files": files}));
    c.finish("every program of the catalogue and hand-made programs varying names, ids, shapes, types: bytes and file give the same program, the same bytes again, the same results; every truncation, substituted byte, dropped, doubled and blown-up byte of small files")
}
