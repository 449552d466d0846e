#[path = "../props/c12.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
