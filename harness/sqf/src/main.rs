mod binarize;
mod e2e;
mod lints;
mod sqf;
mod launch;
mod scripts;
mod tools;
mod new;
mod utils;
#[allow(dead_code)]
#[path = "../../lib/src/paa.rs"]
mod paa;
#[path = "../../lib/src/ws.rs"]
mod ws;

fn main() {
    vpc::main_with(|| {
        let mut p = sqf::properties();
        p.extend(lints::properties());
        p.extend(e2e::properties());
        p.extend(binarize::properties());
        p.extend(utils::properties());
        p.extend(tools::properties());
        p.extend(launch::properties());
        p.extend(scripts::properties());
        p.extend(new::properties());
        p
    })
}
