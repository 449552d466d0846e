#[path = "../props/c02.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
