#[path = "../props/c01.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
