mod binarize;
mod exec;
mod full;
mod hooks;
mod launch;
#[path = "../../lsim/src/media.rs"]
#[allow(dead_code)]
mod media;
#[path = "../../lsim/src/pbofmt.rs"]
#[allow(dead_code)]
mod pbofmt;
mod pbo {
    pub fn shuffled(n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() { let j = i - simcore::gen(i as u64 + 1) as usize; v.swap(i, j); }
        v
    }
}
mod p3d {
    // what media.rs borrows from a module that is not part of this program
    pub fn p17() -> simcore::driver::Scenario { unreachable!() }
}
mod proj;
#[path = "../../lsim/src/raptree.rs"]
mod raptree;
mod lints;
mod report;
mod sqf;
#[path = "../../lsim/src/strtab.rs"]
#[allow(dead_code)]
mod strtab;
mod tools;
#[path = "../../lsim/src/util.rs"]
mod util;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "exec" { exec::child(&a[2]); }
    let mut v = vec![];
    v.extend(full::props());
    v.extend(sqf::props());
    v.extend(tools::props());
    v.extend(hooks::props());
    v.extend(launch::props());
    v.extend(binarize::props());
    v.extend(report::props());
    v.extend(lints::props());
    simcore::driver::main(v, &std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into()));
}
