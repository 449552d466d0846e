#[path = "../props/c11.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
