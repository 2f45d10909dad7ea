mod cfg;
mod conf;
mod link;
mod media;
mod p3d;
mod pbo;
mod pbofmt;
mod pre;
mod raptree;
mod rob;
mod signing;
mod strtab;
mod util;
mod ws;
fn main() {
    let mut v = vec![];
    v.extend(pbo::props());
    v.extend(signing::props());
    v.extend(p3d::props());
    v.extend(media::props());
    v.extend(link::props());
    v.extend(strtab::props());
    v.extend(ws::props());
    v.extend(pre::props());
    v.extend(cfg::props());
    v.extend(conf::props());
    v.extend(rob::props());
    simcore::driver::main(v, &std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into()));
}
