#[path = "../props/c13.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
