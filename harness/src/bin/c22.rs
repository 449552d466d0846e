#[path = "../props/c22.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
