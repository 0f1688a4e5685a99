pub mod cat;
pub mod check;
pub mod nd;
pub mod tio;
pub mod gen;
pub mod interp;
pub mod obs;
pub mod progs;
pub mod vals;
