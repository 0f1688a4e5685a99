//! C11: a captured program means what running the function eagerly means.
//! Every program of `mc::progs` is captured, everything it touched is dropped, the snapshot is taken and executed by
//! the independent interpreter of `mc::interp`, and the targets are compared with the eager execution.
use mc::check::*;
use mc::progs;

fn main() {
    let mut c = Check::new("C11", "model_checking");
    let th = c.thorough();
    let mut n = [0u64; 3];
    progs::each(th, &mut |p| {
        n[["op", "vi", "gr"].iter().position(|x| p.key.starts_with(x)).unwrap_or(0)] += 1;
        if !c.wants(&p.key) {
            return;
        }
        c.case(&p.group, &p.key, || p.check());
    });
    c.note("programs", serde_json::json!({"operations and structure": n[0], "view sequences": n[1], "gradients": n[2]}));
    c.finish("every catalogued operation x element type x origin of each operand (input, constant in each physical layout, tensor made while capturing, view of an input), every view sequence to the depth bound, second operations, gradients inside the program, structural corner cases; executed by an independent interpreter and compared with eager execution")
}
