#[path = "../props/c07.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
