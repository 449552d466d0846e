#[path = "../props/c23.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
