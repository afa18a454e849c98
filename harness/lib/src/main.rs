mod common;
mod game;
mod config;
mod lint;
mod lzo;
mod paa;
mod p3d;
mod pbo;
mod project;
mod pre;
mod sign;
mod suggest;
mod stringtable;
mod workspace;
mod ws;

fn properties() -> Vec<vpc::Property> {
    let mut v = Vec::new();
    v.extend(config::properties());
    v.extend(pre::properties());
    v.extend(pbo::properties());
    v.extend(sign::properties());
    v.extend(lzo::properties());
    v.extend(paa::properties());
    v.extend(p3d::properties());
    v.extend(project::properties());
    v.extend(common::properties());
    v.extend(workspace::properties());
    v.extend(lint::properties());
    v.extend(stringtable::properties());
    v.extend(game::properties());
    v.extend(suggest::properties());
    v
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--make-keys" {
        sign::make_keys(&a[2]);
        return;
    }
    vpc::main_with(properties)
}
