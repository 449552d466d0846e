#[path = "../props/c21.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
