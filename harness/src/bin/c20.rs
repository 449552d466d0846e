#[path = "../props/c20.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
