mod client;
mod diagnostics;
mod hover;

fn main() {
    vpc::main_with(|| {
        let mut p = diagnostics::properties();
        p.extend(hover::properties());
        p
    })
}
